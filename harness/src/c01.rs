//! C01: an index reproduces exactly the cells it was built from.
use crate::huge;
use crate::ix::*;
use crate::sx::*;

fn slices<I: Ix>() {
    let n = match I::KIND {
        Kind::Fixed => choose(I::CAP),
        _ => any_depth::<I>(),
    };
    let c = syms::<I::C>(n);
    let i = ok(I::build(&c));
    verify(&i, &c);
    cell_obs(&i);
}

fn verify<I: Ix>(i: &I, c: &[I::C]) {
    let n = c.len();
    let depth = if I::KIND == Kind::Fixed { I::CAP } else { n };
    check!(i.depth() == depth);
    for l in 0..depth {
        let want = if l < n { c[l].ix() } else { 0 };
        check!(i.get(l).ix() == want);
        check!(unsafe { get_unchecked(i, l) } == want);
    }
    let mut k = 0;
    i.iter_cells(&mut |x| {
        check!(k < depth);
        let want = if k < n { c[k].ix() } else { 0 };
        check!(x.ix() == want);
        k += 1;
    });
    check!(k == depth);
    // reading did not change it
    check!(i.depth() == depth);
    for l in 0..depth {
        let want = if l < n { c[l].ix() } else { 0 };
        check!(i.get(l).ix() == want);
    }
}

unsafe fn get_unchecked<I: Ix>(i: &I, l: usize) -> u8 {
    i.get_raw(l).ix()
}

fn array<I: Ix, const N: usize>() {
    if N > I::CAP {
        return;
    }
    let c: [I::C; N] = std::array::from_fn(|_| I::C::sym());
    let i = ok(I::build_array(c));
    verify(&i, &c);
    // and the slice constructor agrees
    check!(i == ok(I::build(&c)));
    cell_obs(&i);
}

fn arrays<I: Ix>() {
    match choose(24) {
        0 => array::<I, 0>(),
        1 => array::<I, 1>(),
        2 => array::<I, 2>(),
        3 => array::<I, 3>(),
        4 => array::<I, 4>(),
        5 => array::<I, 5>(),
        6 => array::<I, 6>(),
        7 => array::<I, 8>(),
        8 => array::<I, 9>(),
        9 => array::<I, 10>(),
        10 => array::<I, 16>(),
        11 => array::<I, 21>(),
        12 => array::<I, 32>(),
        13 => array::<I, 42>(),
        14 => array::<I, 64>(),
        15 => array::<I, 65>(),
        16 => array::<I, 7>(),
        17 => array::<I, 11>(),
        18 => array::<I, 17>(),
        19 => array::<I, 128>(),
        20 => array::<I, 255>(),
        21 => array::<I, 256>(),
        22 => array::<I, 257>(),
        23 => array::<I, 259>(),
        _ => array::<I, 300>(),
    }
}

/// the iterator, driven in every way the standard trait offers
fn iterator<I: Ix>() {
    let d = match I::KIND {
        Kind::Fixed => I::CAP,
        Kind::Static => choose_of(&[0, 1, 2, 3, I::CAP - 1, I::CAP]),
        Kind::Dynamic => choose_of(&[0, 1, 2, 3, 4, 5, 8, 17, 257]),
    };
    let (i, c) = any_index_of::<I>(d.min(I::CAP));
    i.iter_check(&c);
    same_cells(&i, &c, line!());
}

/// lists of many thousand cells, most of them zero
fn huge<I: VarIx>() {
    let d = choose_of(&[300, 515, 683, 1025, 2731, 4097, 10924, 16385, 21847, 32769, 65537]);
    let mut c = vec![I::C::zero(); d];
    let mut m = Vec::new();
    for l in huge::spots(d) {
        c[l] = I::C::sym();
        m.push((l, c[l]));
    }
    let i = ok(I::build(&c));
    huge::agrees(&i, d, &m, line!());
    check!(i == huge::make::<I>(d, &m));
}

pub fn table(v: &mut Table) {
    dynm!(v, "c01_huge", I => huge::<I>());
    all!(v, "c01_slices", I => slices::<I>());
    all!(v, "c01_arrays", I => arrays::<I>());
    all!(v, "c01_iterator", I => iterator::<I>());
}
