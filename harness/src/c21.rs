//! C21: displaying a slice of indices lists every name in order.
use crate::ix::*;
use crate::sx::*;
use morton_index::helper::make_displayable;

fn naming(k: usize) -> MortonIndexNaming {
    match k {
        0 => MortonIndexNaming::CellConcatenation,
        1 => MortonIndexNaming::CellConcatenationWithRoot,
        _ => MortonIndexNaming::GridIndex,
    }
}

/// a small number of indices with small (any, for fixed) depths
fn slice<I: Ix>(max: usize, k: usize) -> Vec<I> {
    let n = choose(max);
    let mut v = Vec::with_capacity(n);
    for j in 0..n {
        // symbolic coordinates in decimal branch on the number of digits: keep those short
        let cap = if k == 2 { 2 } else { 4 };
        let d = match I::KIND {
            Kind::Fixed => I::CAP,
            _ => {
                if j == 0 {
                    choose(cap.min(I::CAP))
                } else {
                    choose_of(&[0, 1, cap.min(I::CAP)])
                }
            }
        };
        let mut c = syms::<I::C>(d.min(cap));
        while c.len() < d {
            c.push(I::C::zero());
        }
        if I::KIND == Kind::Fixed && k == 2 {
            // the symbolic cells last
            c.reverse();
        }
        v.push(ok(I::build(&c)));
    }
    v
}

fn reference<I: Ix>(v: &[I], k: usize) -> Vec<u8> {
    let mut w = Vec::with_capacity(256);
    w.push(b'[');
    for (j, i) in v.iter().enumerate() {
        if j > 0 {
            w.push(b',');
            w.push(b' ');
        }
        w.extend_from_slice(i.to_string(naming(k)).as_bytes());
    }
    w.push(b']');
    w
}

fn same(a: &[u8], b: &[u8], line: u32) {
    assert(a.len() == b.len(), line);
    for k in 0..a.len() {
        assert(a[k] == b[k], line);
    }
}

fn text<I: Ix>() {
    let k = choose(2);
    let v = slice::<I>(if tier() == 0 { 3 } else { 4 }, k);
    let want = reference(&v, k);
    let d = make_displayable(&v, naming(k));
    let s = format!("{}", d);
    same(s.as_bytes(), &want, line!());
    let t = format!("{:?}", d);
    same(t.as_bytes(), &want, line!());
    if v.len() == 2 || v.len() == 0 {
        // as dbg! and pretty printers ask for it
        same(format!("{:#?}", d).as_bytes(), &want, line!());
        same(format!("{:#}", d).as_bytes(), &want, line!());
    }
    // and what the names of the cells are, independently of the index's own naming
    if k == 1 && v.len() == 2 {
        let mut w = Vec::with_capacity(256);
        w.push(b'[');
        for (j, i) in v.iter().enumerate() {
            if j > 0 {
                w.extend_from_slice(b", ");
            }
            w.push(b'r');
            for l in 0..i.depth() {
                w.push(b'0' + i.get(l).ix());
            }
        }
        w.push(b']');
        same(s.as_bytes(), &w, line!());
    }
    observe(s.len() as u64);
    for b in s.as_bytes().iter().take(6) {
        observe(*b as u64);
    }
}

/// comparing compares the slices, whatever the namings
fn compare<I: Ix>() {
    let a = slice::<I>(2, 0);
    let b = slice::<I>(2, 0);
    let (p, q) = (naming(choose(2)), naming(choose(2)));
    let (x, y) = (make_displayable(&a, p), make_displayable(&b, q));
    let mut eq = a.len() == b.len();
    let mut ord = std::cmp::Ordering::Equal;
    for k in 0..a.len().min(b.len()) {
        let o = lex(&cells_of(&a[k]), &cells_of(&b[k]));
        eq &= o == std::cmp::Ordering::Equal;
        ord = ord.then(o);
    }
    let ord = ord.then(a.len().cmp(&b.len()));
    check!((x == y) == eq);
    check!((x != y) != eq);
    check!(x.cmp(&y) == ord);
    check!(x.partial_cmp(&y) == Some(ord));
    check!((x < y) == (ord == std::cmp::Ordering::Less));
    check!((x >= y) == (ord != std::cmp::Ordering::Less));
}

const LONG: &[usize] = &[4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 300];

/// many indices of small depths and a deep one; those at the ends and around a wrapping counter have symbolic cells
fn many<I: Ix>(n: usize, symbolic: bool) -> Vec<I> {
    let mut v = Vec::with_capacity(n);
    for j in 0..n {
        let free = symbolic && (j < 3 || j + 3 > n || j == n / 2 || j == 16 || j == 255 || j == 256);
        let d = if I::KIND == Kind::Fixed { I::CAP } else if j == n / 2 { I::CAP.min(60) } else { (j % 4).min(I::CAP) };
        let mut c: Vec<I::C> = Vec::with_capacity(d);
        for l in 0..d {
            c.push(if free && l < 2 { I::C::sym() } else { I::C::mk((j + l) as u64) });
        }
        v.push(ok(I::build(&c)));
    }
    v
}

fn long<I: Ix>() {
    let n = choose_of(LONG);
    let k = choose(2);
    // grid names branch on digits: no symbolic cells there
    let v = many::<I>(n, k < 2);
    let mut w = Vec::with_capacity(32 * n);
    w.push(b'[');
    for (j, i) in v.iter().enumerate() {
        if j > 0 {
            w.extend_from_slice(b", ");
        }
        if k == 2 {
            w.extend_from_slice(i.to_string(naming(k)).as_bytes());
        } else {
            if k == 1 {
                w.push(b'r');
            }
            for l in 0..i.depth() {
                w.push(b'0' + i.get(l).ix());
            }
        }
    }
    w.push(b']');
    let d = make_displayable(&v, naming(k));
    let s = format!("{}", d);
    same(s.as_bytes(), &w, line!());
    let t = format!("{:?}", d);
    same(t.as_bytes(), &w, line!());
    observe(s.len() as u64);
}

/// long slices that agree, but for one index or their lengths
fn compare_long<I: Ix>() {
    let n = choose_of(&[3, 4, 5, 8, 9, 16, 17, 32, 33, 65, 129, 256, 257, 300]);
    let a = many::<I>(n, false);
    let mut b = many::<I>(n, false);
    let m = choose_of(&[0, 1, 2, 5]).min(n);
    b.truncate(n - m);
    let p = choose_of(&[0, 1, n / 2, 16, 255, 256, n - 1]);
    if p < b.len() && a[p].depth() > 0 {
        let l = a[p].depth() - 1;
        b[p].set(l, I::C::sym());
    }
    let (x, y) = (make_displayable(&a, naming(0)), make_displayable(&b, naming(0)));
    let mut ord = std::cmp::Ordering::Equal;
    if p < b.len() {
        ord = lex(&cells_of(&a[p]), &cells_of(&b[p]));
    }
    let ord = ord.then(a.len().cmp(&b.len()));
    check!((x == y) == (ord == std::cmp::Ordering::Equal));
    check!(x.cmp(&y) == ord);
    check!(y.cmp(&x) == ord.reverse());
    check!(x.partial_cmp(&y) == Some(ord));
}

pub fn table(v: &mut Table) {
    all!(v, "c21_text", I => text::<I>());
    on!(v, "c21_long", I => long::<I>();
        "f2_8": F2<u8>, "s2_8": S2<u8>, "s2_64": S2<u64>, "d2": D2, "f3_8": F3<u8>, "f3_16": F3<u16>, "s3_16": S3<u16>, "s3_64": S3<u64>, "d3": D3);
    on!(v, "c21_comparelong", I => compare_long::<I>();
        "f2_8": F2<u8>, "s2_8": S2<u8>, "s2_64": S2<u64>, "d2": D2, "f3_8": F3<u8>, "s3_64": S3<u64>, "d3": D3);
    on!(v, "c21_compare", I => compare::<I>();
        "f2_8": F2<u8>, "f2_64": F2<u64>, "s2_8": S2<u8>, "s2_64": S2<u64>, "d2": D2,
        "f3_8": F3<u8>, "f3_64": F3<u64>, "s3_8": S3<u8>, "s3_64": S3<u64>, "d3": D3);
}
