//! C25: valid use never panics, never leaves the memory it was given, and the unchecked accessors agree with
//! the checked ones. Panics, arithmetic overflow and accesses outside an object are violations by themselves
//! (of any property); here every public operation is driven once over its whole documented domain, with little
//! else asserted, and once more on what it produced.
use crate::ix::*;
use crate::sx::*;
use morton_index::align::Alignable;
use morton_index::helper::make_displayable;
use std::num::NonZeroUsize;

fn depth<I: Ix>() -> usize {
    if I::KIND == Kind::Dynamic && tier() == 0 {
        return choose_of(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 21, 22, 31, 32, 33, 63, 64, 65, 85, 86, 129, 256]);
    }
    any_depth::<I>()
}

/// every level, read and written without and with the checks
fn raw_agrees<I: Ix>(i: &mut I) {
    let d = i.depth();
    for l in 0..d {
        check!(unsafe { i.get_raw(l) }.ix() == i.get(l).ix());
    }
    if d == 0 {
        return;
    }
    let x = I::C::sym();
    let l = if I::KIND == Kind::Dynamic && d > 12 {
        choose_of(&[0, 1, 2, d / 2, d - 2, d - 1])
    } else {
        choose(d - 1)
    };
    let mut j = i.clone();
    j.set(l, x);
    unsafe { i.set_raw(l, x) };
    check!(*i == j);
    for k in 0..d {
        check!(unsafe { i.get_raw(k) }.ix() == j.get(k).ix());
    }
    check!(i.depth() == d);
}

fn naming(k: usize) -> MortonIndexNaming {
    match k {
        0 => MortonIndexNaming::CellConcatenation,
        1 => MortonIndexNaming::CellConcatenationWithRoot,
        _ => MortonIndexNaming::GridIndex,
    }
}

/// operations every index has
fn use_index<I: Ix>(i: &mut I) {
    let d = i.depth();
    match choose(5) {
        0 => raw_agrees(i),
        1 => {
            let e = if I::KIND == Kind::Fixed { I::CAP } else { choose_of(&[0, 1, d, d + 1, 9]).min(I::CAP) };
            let (j, _) = any_index_of::<I>(e);
            let o = (*i).cmp(&j);
            check!((o == std::cmp::Ordering::Equal) == (*i == j));
            check!((*i).partial_cmp(&j) == Some(o));
            let _ = hash_bytes(i);
        }
        2 => {
            let s = i.to_string(naming(choose(1)));
            check!(s.len() >= d);
            let w = i.clone();
            let _ = format!("{}", make_displayable(std::slice::from_ref(&w), naming(0)));
        }
        3 => {
            if d <= 64 {
                let g = i.to_grid(choose(I::NORD - 1));
                for x in g {
                    observe(x as u64);
                }
            }
        }
        4 => {
            let j = i.inverted().clone();
            check!(j.depth() == d);
            cell_obs(&j);
        }
        _ => {
            let mut n = 0;
            i.iter_cells(&mut |c| n += 1 + (c.ix() > 7) as usize);
            check!(n == d);
        }
    }
}

/// any index, used once, and again after the first use
fn index<I: Ix>() {
    let (mut i, _) = any_index_of::<I>(depth::<I>());
    use_index(&mut i);
}
fn grid<I: Ix>() {
    let d = match I::KIND {
        Kind::Fixed => I::CAP,
        _ => choose(I::GMAX),
    };
    let co = [sym(64) as usize, sym(64) as usize, sym(64) as usize];
    let mut i = ok(I::from_grid(co, d, choose(I::NORD - 1)));
    check!(i.depth() == d);
    raw_agrees(&mut i);
}

/// operations that move through the tree, and the use of what they return
fn tree<I: VarIx>() {
    let d = depth::<I>();
    let (i, _) = any_index_of::<I>(d);
    let few = I::KIND == Kind::Dynamic && d > 12;
    let r = match choose(6) {
        0 => {
            let n = if few { choose_of(&[1, 2, 3, d / 2, d - 1, d, d + 1, usize::MAX]) } else { choose_of(&[1, 2, 3, 4, 5, 8, d + 1, d.max(1), 255, 256, usize::MAX]) };
            let r = i.ancestor(NonZeroUsize::new(n).unwrap());
            check!(r.is_some() == (n <= d));
            r
        }
        1 => i.parent(),
        2 => {
            let k = choose_of(&[0, 1, d / 2, d, d + 1, 255, 256, usize::MAX]);
            let r = i.with_depth(k);
            check!(r.is_some() == (k <= d));
            r
        }
        3 => i.kid(I::C::sym()),
        4 => {
            let n = choose_of(&[0, 1, 2, 3, 4, 5, 9, 17, 40]);
            let r = i.desc(&syms::<I::C>(n));
            check!(I::KIND == Kind::Dynamic || r.is_some() == (d + n <= I::CAP));
            r
        }
        5 => I::zeros(d),
        _ => Some(i.inverted()),
    };
    if let Some(mut j) = r {
        raw_agrees(&mut j);
        // the original survives whatever is done with the result
        drop(j);
    }
    check!(i.depth() == d);
    cell_obs(&i);
}

/// a result used once more by an arbitrary operation
fn again<I: VarIx>() {
    let d = if I::KIND == Kind::Dynamic { choose_of(&[0, 1, 3, 5, 8]) } else { choose_of(&[0, 1, I::CAP / 2, I::CAP - 1, I::CAP]) };
    let (i, _) = any_index_of::<I>(d);
    let r = match choose(4) {
        0 => i.parent(),
        1 => i.with_depth(d / 2),
        2 => i.kid(I::C::sym()),
        3 => i.desc(&syms::<I::C>(3)),
        _ => I::zeros(d),
    };
    drop(i);
    if let Some(mut j) = r {
        use_index(&mut j);
    }
}

fn conversions<F: Fam>() {
    let n = F::CAP;
    match choose(5) {
        0 => {
            let (i, _) = any_index_of::<F::F>(n);
            raw_agrees(&mut F::f2s(i));
        }
        1 => {
            let (i, _) = any_index_of::<F::F>(n);
            raw_agrees(&mut F::f2d(i));
        }
        2 => {
            let (i, _) = any_index_of::<F::S>(choose(n));
            raw_agrees(&mut F::s2f(i));
        }
        3 => {
            let (i, _) = any_index_of::<F::S>(choose(n));
            raw_agrees(&mut F::s2d(i));
        }
        k => {
            let d = choose_of(&[0, 1, 2, 3, n / 2, n - 1, n, n + 1, n + 9, 256, 257]);
            let (i, _) = any_index_of::<F::D>(d);
            if k == 4 {
                match F::d2f(i) {
                    Ok(mut j) => raw_agrees(&mut j),
                    Err(_) => check!(d > n),
                }
            } else {
                match F::d2s(i) {
                    Ok(mut j) => raw_agrees(&mut j),
                    Err(_) => check!(d > n),
                }
            }
        }
    }
}

macro_rules! raws {
    ($f:ident, $b:ty) => {
        fn $f() {
            const N: usize = <$b>::BITS as usize / 3;
            if flag() {
                let mut i = F3::<$b>::from_raw_index(sym128() as $b);
                raw_agrees(&mut i);
            } else {
                let mut i = S3::<$b>::from_raw_index(sym128() as $b, choose(N) as u8);
                raw_agrees(&mut i);
            }
        }
    };
}
raws!(raw_8, u8);
raws!(raw_16, u16);
raws!(raw_32, u32);
raws!(raw_64, u64);
raws!(raw_128, u128);
raws!(raw_us, usize);

fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(sym(8) as u8);
    }
    v
}

macro_rules! ints {
    ($m:ident, $b:ty) => {
        fn $m() {
            const N: usize = <$b>::BITS as usize;
            let mut x = sym128() as $b;
            match choose(5) {
                0 | 1 => {
                    // any range of the value
                    let (a, b) = (upto(N), upto(N));
                    assume(a <= b);
                    let r = unsafe { x.get_bits(a..b) };
                    check!(b - a == N || r >> (b - a) == 0);
                    if b - a <= 64 {
                        observe(unsafe { x.get_bits_as_usize(a..b) } as u64);
                    }
                }
                2 => {
                    let a = choose_of(&[0, 1, 2, 5, 7, N / 2, N - 1, N]);
                    let b = choose_of(&[0, 1, 3, 6, 7, 8, N / 2, N - 1, N]);
                    assume(a <= b);
                    let old = x;
                    if flag() {
                        unsafe { x.set_bits(a..b, sym128() as $b) };
                    } else {
                        unsafe { x.set_bits_from_usize(a..b, sym(64) as usize) };
                    }
                    check!(a != b || x == old);
                }
                3 => {
                    let v = bytes(choose(N / 8 + 2));
                    let l = unsafe { <$b>::from_u8_slice(&v, Endianness::LittleEndian) };
                    let b = unsafe { <$b>::from_u8_slice(&v, Endianness::BigEndian) };
                    observe(l as u64);
                    check!(v.len() != 0 || (l == 0 && b == 0));
                }
                4 => {
                    let n = unsafe { x.as_u8_slice() }.len();
                    check!(n == x.size());
                    unsafe { x.as_u8_slice_mut()[n - 1] = 7 };
                    observe(x as u64);
                }
                _ => {
                    let al: $b = match choose(3) {
                        0 => 0,
                        1 => 1,
                        2 => 8,
                        _ => 1 << (N - 1),
                    };
                    assume(al == 0 || x <= <$b>::MAX - (al - 1));
                    let y = x.align_to(al);
                    check!(y >= x);
                }
            }
        }
    };
}
ints!(int_8, u8);
ints!(int_16, u16);
ints!(int_32, u32);
ints!(int_64, u64);
ints!(int_128, u128);
ints!(int_us, usize);

/// byte vectors: ranges inside the vector, new values as long as the range needs
fn vector() {
    let n = if flag() { choose(3) } else { choose_of(&[7, 8, 9, 10, 16, 17]) };
    let mut v = bytes(n);
    let (a, b) = if n <= 3 {
        let a = choose(8 * n);
        (a, a + choose(8 * n - a))
    } else {
        let a = choose_of(&[0, 1, 4, 7, 8, 9, 8 * n - 9, 8 * n - 8, 8 * n - 1, 8 * n]);
        let b = choose_of(&[0, 1, 8, 9, 16, 20, 33, 55, 56, 57, 64, 65, 66, 72, 73, 8 * n - 1, 8 * n]).min(8 * n);
        assume(a <= b);
        (a, b)
    };
    match choose(3) {
        0 => {
            let r = unsafe { v.get_bits(a..b) };
            check!(r.len() == (b - a + 7) / 8);
            for x in r {
                observe(x as u64);
            }
        }
        1 => {
            if b - a <= 64 {
                observe(unsafe { v.get_bits_as_usize(a..b) } as u64);
            }
        }
        2 => {
            let m = (b - a + 7) / 8;
            unsafe { v.set_bits(a..b, bytes(m)) };
        }
        _ => {
            if b - a <= 64 {
                unsafe { v.set_bits_from_usize(a..b, sym(64) as usize) };
            }
        }
    }
    check!(v.len() == n);
    for x in v {
        observe(x as u64);
    }
}

pub fn table(v: &mut Table) {
    all!(v, "c25_index", I => index::<I>());
    all!(v, "c25_grid", I => grid::<I>());
    vari!(v, "c25_tree", I => tree::<I>());
    vari!(v, "c25_again", I => again::<I>());
    fams!(v, "c25_convert", F => conversions::<F>());
    h!(v, "c25_raw_3_8", raw_8());
    h!(v, "c25_raw_3_16", raw_16());
    h!(v, "c25_raw_3_32", raw_32());
    h!(v, "c25_raw_3_64", raw_64());
    h!(v, "c25_raw_3_128", raw_128());
    h!(v, "c25_raw_3_us", raw_us());
    h!(v, "c25_bits_u8", int_8());
    h!(v, "c25_bits_u16", int_16());
    h!(v, "c25_bits_u32", int_32());
    h!(v, "c25_bits_u64", int_64());
    h!(v, "c25_bits_u128", int_128());
    h!(v, "c25_bits_usize", int_us());
    h!(v, "c25_vector", vector());
}
