//! C08: equality and hashing depend only on depth and cells.
use crate::huge;
use crate::ix::*;
use crate::sx::*;
use std::num::NonZeroUsize;

/// levels added and removed again on the way
fn room<I: Ix>(d: usize) -> usize {
    if I::KIND == Kind::Dynamic {
        return choose_of(&[1, 2, 3, 5, 9]);
    }
    let r = I::CAP - d;
    choose_of(&[r, r.min(1), r.min(5)])
}

/// produce the index with the given cells in one of many ways
fn produce<I: VarIx>(c: &[I::C]) -> I {
    let d = c.len();
    match choose(10) {
        0 => ok(I::build(c)),
        1 => {
            // zeroed, then set
            let mut i = I::zeros(d).unwrap();
            for l in 0..d {
                i.set(l, c[l]);
            }
            i
        }
        2 => {
            // ancestor of a longer one
            let n = room::<I>(d);
            let mut e = c.to_vec();
            e.extend(syms::<I::C>(n));
            let i = ok(I::build(&e));
            match NonZeroUsize::new(n) {
                Some(n) => i.ancestor(n).unwrap(),
                None => i,
            }
        }
        3 => {
            // descendant of a prefix
            let k = choose_of(&[0, d / 2, d.saturating_sub(1)]);
            ok(I::build(&c[..k])).desc(&c[k..]).unwrap()
        }
        4 => {
            let mut e = c.to_vec();
            e.reverse();
            ok(I::build(&e)).inverted()
        }
        5 => {
            // other cells, then set from the bottom up
            let mut i = ok(I::build(&syms::<I::C>(d)));
            for l in (0..d).rev() {
                i.set(l, c[l]);
            }
            i
        }
        6 => {
            if d > I::GMAX {
                return ok(I::build(c));
            }
            let ord = choose(I::NORD - 1);
            let i = ok(I::build(c));
            ok(I::from_grid(i.to_grid(ord), d, ord))
        }
        7 => ok(I::build(c)).clone(),
        8 => {
            // one child after the other
            let mut i = I::default();
            for l in 0..d {
                i = i.kid(c[l]).unwrap();
            }
            i
        }
        9 => {
            // down with other cells, up again, and down with the right ones
            let n = room::<I>(d);
            let i = ok(I::build(c)).desc(&syms::<I::C>(n)).unwrap();
            i.with_depth(d).unwrap()
        }
        _ => {
            let i = ok(I::build(c));
            match i.parent() {
                Some(p) => p.kid(c[d - 1]).unwrap(),
                None => i,
            }
        }
    }
}

/// depths: every one for bounded types, fewer in the quick tier for wide ones
fn depth<I: Ix>() -> usize {
    if tier() == 0 && I::KIND == Kind::Dynamic {
        return choose_of(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 21, 22, 29, 32, 33, 64, 65]);
    }
    if I::KIND == Kind::Dynamic {
        return choose(70);
    }
    any_depth::<I>()
}

fn routes<I: VarIx>() {
    let d = depth::<I>();
    let c = syms::<I::C>(d);
    let i = produce::<I>(&c);
    same_as_built(&i, &c, line!());
    cell_obs(&i);
}

fn routes_fixed<I: Ix>() {
    let d = I::CAP;
    let c = syms::<I::C>(d);
    let i = match choose(4) {
        0 => {
            let mut i = I::default();
            for l in 0..d {
                i.set(l, c[l]);
            }
            i
        }
        1 => {
            let mut e = c.clone();
            e.reverse();
            ok(I::build(&e)).inverted()
        }
        2 => {
            let mut i = ok(I::build(&syms::<I::C>(d)));
            for l in (0..d).rev() {
                i.set(l, c[l]);
            }
            i
        }
        3 => {
            let ord = choose(I::NORD - 1);
            let i = ok(I::build(&c));
            ok(I::from_grid(i.to_grid(ord), d, ord))
        }
        _ => ok(I::build(&c)).clone(),
    };
    same_as_built(&i, &c, line!());
}

/// a zero tail written out or left away makes no difference to a fixed-depth index
fn padding<I: Ix>() {
    let n = choose(I::CAP);
    let c = syms::<I::C>(n);
    let i = ok(I::build(&c));
    same_as_built(&i, &padded(&c, I::CAP), line!());
}

/// the flavours produced by conversion
fn converted<A: Fam>() {
    let d = depth::<A::S>();
    let c = syms::<A::C>(d);
    match choose(5) {
        0 => same_as_built(&A::s2d(ok(A::S::build(&c))), &c, line!()),
        1 => same_as_built(&ok(A::d2s(ok(A::D::build(&c)))), &c, line!()),
        2 => same_as_built(&A::s2f(ok(A::S::build(&c))), &padded(&c, A::CAP), line!()),
        3 => same_as_built(&ok(A::d2f(ok(A::D::build(&c)))), &padded(&c, A::CAP), line!()),
        4 => same_as_built(&A::f2s(ok(A::F::build(&c))), &padded(&c, A::CAP), line!()),
        _ => same_as_built(&A::f2d(ok(A::F::build(&c))), &padded(&c, A::CAP), line!()),
    }
}

/// equal exactly when the cell lists are, and equal ones hash alike
fn equality<I: Ix>() {
    let (a, b) = crate::ix::depth_pairs::<I>();
    let (x, c) = any_index_of::<I>(a);
    let (y, e) = any_index_of::<I>(b);
    let mut same = c.len() == e.len();
    for l in 0..c.len().min(e.len()) {
        same &= c[l].ix() == e[l].ix();
    }
    check!((x == y) == same);
    check!((x != y) != same);
    if a == b {
        let (h, k) = (hash_bytes(&x), hash_bytes(&y));
        let mut eq = h.len() == k.len();
        for n in 0..h.len().min(k.len()) {
            eq &= h[n] == k[n];
        }
        check!(eq | !same);
    }
    check!(x.clone() == x);
}

/// 3D only: raw bits, whatever the bits that hold no cell were
macro_rules! raws {
    ($f:ident, $s:ident, $b:ty) => {
        fn $f() {
            let bits = sym128() as $b;
            let i = F3::<$b>::from_raw_index(bits);
            let c = cells_of(&i);
            same_as_built(&i, &c, line!());
        }
        fn $s() {
            let d = choose(<$b>::BITS as usize / 3);
            let bits = sym128() as $b;
            let i = S3::<$b>::from_raw_index(bits, d as u8);
            let c = cells_of(&i);
            check!(c.len() == d);
            same_as_built(&i, &c, line!());
        }
    };
}
raws!(raw_f8, raw_s8, u8);
raws!(raw_f16, raw_s16, u16);
raws!(raw_f32, raw_s32, u32);
raws!(raw_f64, raw_s64, u64);
raws!(raw_f128, raw_s128, u128);
raws!(raw_fus, raw_sus, usize);

/// many thousand levels: the same cells by two routes
fn deep<I: VarIx>() {
    let d = choose_of(&[300, 515, 683, 1025, 2731, 4097, 8193, 10924, 21847]);
    let (i, m) = huge::huge::<I>(d);
    let j: I = match choose(4) {
        0 => {
            // from the list
            let mut c = vec![I::C::zero(); d];
            for &(l, x) in &m {
                c[l] = x;
            }
            ok(I::build(&c))
        }
        1 => {
            let n = choose_of(&[1, 2, 4, 257]);
            let b = huge::some(i.desc(&syms::<I::C>(n)));
            huge::some(b.ancestor(NonZeroUsize::new(n).unwrap()))
        }
        2 => {
            let c: Vec<I::C> = (d - 3..d).map(|l| I::C::mk(huge::at(&m, l) as u64)).collect();
            huge::some(huge::some(i.with_depth(d - 3)).desc(&c))
        }
        3 => {
            let mut j = huge::some(I::zeros(d));
            for &(l, _) in &m {
                j.set(l, I::C::sym());
            }
            for &(l, x) in m.iter().rev() {
                j.set(l, x);
            }
            j
        }
        _ if d < 2000 => i.inverted().inverted(),
        _ => i.clone(),
    };
    check!(j.depth() == d);
    if flag() {
        // one level more or one cell changed: another index
        check!(huge::some(j.kid(I::C::zero())) != i);
        let l = choose_of(&[0, 255, d - 1]);
        let (mut k, x) = (j, I::C::sym());
        k.set(l, x);
        check!((k == i) == (x.ix() == huge::at(&m, l)));
        return;
    }
    check!(i == j);
    check!(j == i);
    check!(i.cmp(&j) == std::cmp::Ordering::Equal);
    let (x, y) = (hash_bytes(&i), hash_bytes(&j));
    check!(x.len() == y.len());
    for k in 0..x.len() {
        check!(x[k] == y[k]);
    }
}

pub fn table(v: &mut Table) {
    vari!(v, "c08_routes", I => routes::<I>());
    dynm!(v, "c08_huge", I => deep::<I>());
    fixed!(v, "c08_fixed", I => routes_fixed::<I>());
    fixed!(v, "c08_padding", I => padding::<I>());
    fams!(v, "c08_converted", A => converted::<A>());
    all!(v, "c08_equality", I => equality::<I>());
    h!(v, "c08_raw_f3_8", raw_f8());
    h!(v, "c08_raw_s3_8", raw_s8());
    h!(v, "c08_raw_f3_16", raw_f16());
    h!(v, "c08_raw_s3_16", raw_s16());
    h!(v, "c08_raw_f3_32", raw_f32());
    h!(v, "c08_raw_s3_32", raw_s32());
    h!(v, "c08_raw_f3_64", raw_f64());
    h!(v, "c08_raw_s3_64", raw_s64());
    h!(v, "c08_raw_f3_128", raw_f128());
    h!(v, "c08_raw_s3_128", raw_s128());
    h!(v, "c08_raw_f3_us", raw_fus());
    h!(v, "c08_raw_s3_us", raw_sus());
}
