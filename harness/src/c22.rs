//! C22: default and zeroed indices are the root and the all-zero node.
use crate::huge;
use crate::ix::*;
use crate::sx::*;
use std::num::NonZeroUsize;

fn zeros<I: Ix>(d: usize) -> Vec<I::C> {
    vec![I::C::zero(); d]
}

fn defaults<I: Ix>() {
    let i = I::default();
    let d = if I::KIND == Kind::Fixed { I::CAP } else { 0 };
    check!(i.depth() == d);
    same_as_built(&i, &zeros::<I>(d), line!());
    let mut n = 0;
    i.iter_cells(&mut |c| {
        check!(c.ix() == 0);
        n += 1;
    });
    check!(n == d);
    for ord in 0..I::NORD {
        check!(i.to_grid(ord) == [0; 3]);
    }
}

fn zeroed<I: VarIx>() {
    let d = any_depth::<I>();
    let i = I::zeros(d).unwrap();
    let c = zeros::<I>(d);
    same_as_built(&i, &c, line!());
    let mut n = 0;
    i.iter_cells(&mut |c| {
        check!(c.ix() == 0);
        n += 1;
    });
    check!(n == d);
    if d <= 64 {
        for ord in 0..I::NORD {
            check!(i.to_grid(ord) == [0; 3]);
        }
    }
    if d == 0 {
        check!(i == I::default());
    }
}

/// whatever is done next to a zeroed index, it behaves like the one built from zero cells
fn further<I: VarIx>() {
    let d = if tier() == 0 {
        if I::KIND == Kind::Dynamic || I::CAP > 12 {
            choose_of(&[0, 1, 2, 3, 4, 5, 8, 9, if I::KIND == Kind::Dynamic { 16 } else { I::CAP }])
        } else {
            choose(I::CAP)
        }
    } else {
        any_depth::<I>()
    };
    let mut i = I::zeros(d).unwrap();
    let mut j = ok(I::build(&zeros::<I>(d)));
    match choose(8) {
        0 => {
            // set one cell, any level
            if d > 0 {
                let l = choose(d - 1);
                let x = I::C::sym();
                i.set(l, x);
                j.set(l, x);
                let mut c = zeros::<I>(d);
                c[l] = x;
                same_as_built(&i, &c, line!());
            }
        }
        1 => {
            // set every cell
            let c = syms::<I::C>(d);
            for l in 0..d {
                i.set(l, c[l]);
                j.set(l, c[l]);
            }
            same_as_built(&i, &c, line!());
        }
        2 => {
            let x = I::C::sym();
            let (a, b) = (i.kid(x), j.kid(x));
            check!(a.is_some() == (d < I::CAP));
            check!(b.is_some() == (d < I::CAP));
            if let (Some(a), Some(b)) = (a, b) {
                i = a;
                j = b;
                let mut c = zeros::<I>(d);
                c.push(x);
                same_as_built(&i, &c, line!());
            }
        }
        3 => {
            let n = choose_of(&[0, 1, 2, 3, 4, 5, 9]);
            let s = syms::<I::C>(n);
            let (a, b) = (i.desc(&s), j.desc(&s));
            let fits = I::KIND == Kind::Dynamic || d + n <= I::CAP;
            check!(a.is_some() == fits);
            check!(b.is_some() == fits);
            if let (Some(a), Some(b)) = (a, b) {
                i = a;
                j = b;
                let mut c = zeros::<I>(d);
                c.extend_from_slice(&s);
                same_as_built(&i, &c, line!());
            }
        }
        4 => {
            let n = NonZeroUsize::new(choose_of(&[1, 2, 3, 4, 5, 8])).unwrap();
            let (a, b) = (i.ancestor(n), j.ancestor(n));
            check!(a.is_some() == (n.get() <= d));
            check!(b.is_some() == (n.get() <= d));
            if let (Some(a), Some(b)) = (a, b) {
                i = a;
                j = b;
                same_as_built(&i, &zeros::<I>(d - n.get()), line!());
            }
        }
        5 => {
            i = i.inverted();
            j = j.inverted();
            same_as_built(&i, &zeros::<I>(d), line!());
        }
        6 => {
            // compared with others
            let k = choose_of(&[0, 1, d, d + 1]).min(if I::KIND == Kind::Dynamic { d + 1 } else { I::CAP });
            let o = ok(I::build(&syms::<I::C>(k)));
            check!((i == o) == (j == o));
            check!(i.cmp(&o) == j.cmp(&o));
            check!(o.cmp(&i) == o.cmp(&j));
        }
        7 => {
            i = i.clone();
            let n = choose_of(&[0, 1, d / 2, d.saturating_sub(1), d, d + 1]);
            let (a, b) = (i.with_depth(n), j.with_depth(n));
            check!(a.is_some() == (n <= d));
            check!(b.is_some() == (n <= d));
            if let (Some(a), Some(b)) = (a, b) {
                i = a;
                j = b;
                same_as_built(&i, &zeros::<I>(n), line!());
            }
        }
        _ => {
            if d <= 32 {
                let a = i.to_string(MortonIndexNaming::CellConcatenationWithRoot);
                let b = j.to_string(MortonIndexNaming::CellConcatenationWithRoot);
                check!(a == b);
                check!(a.len() == d + 1);
            }
        }
    }
    check!(i == j);
    check!(i.cmp(&j) == std::cmp::Ordering::Equal);
    let (x, y) = (hash_bytes(&i), hash_bytes(&j));
    check!(x.len() == y.len());
    for k in 0..x.len() {
        check!(x[k] == y[k]);
    }
}

/// every node is a descendant of the root
fn reach<I: VarIx>() {
    let d = any_depth::<I>();
    let c = syms::<I::C>(d);
    let i = I::default().desc(&c).unwrap();
    same_as_built(&i, &c, line!());
    if d > 0 {
        let k = choose_of(&[1, d]);
        let a = i.ancestor(NonZeroUsize::new(k).unwrap()).unwrap();
        if k == d {
            check!(a == I::default());
        }
    }
}

/// a zeroed index converted to the other flavours
fn converted<A: Fam>() {
    let d = choose(A::CAP);
    let z = vec![A::C::zero(); d];
    let full = vec![A::C::zero(); A::CAP];
    let s = A::S::zeros(d).unwrap();
    let y = A::D::zeros(d).unwrap();
    same_as_built(&A::s2d(s.clone()), &z, line!());
    same_as_built(&A::s2f(s), &full, line!());
    same_as_built(&ok(A::d2s(y.clone())), &z, line!());
    same_as_built(&ok(A::d2f(y)), &full, line!());
    check!(A::f2s(A::F::default()) == A::S::zeros(A::CAP).unwrap());
    check!(A::f2d(A::F::default()) == A::D::zeros(A::CAP).unwrap());
}

/// indices of many thousand levels
fn huge<I: VarIx>() {
    let d = choose_of(huge::HUGE) - choose(2);
    let z = huge::some(I::zeros(d));
    huge::agrees(&z, d, &[], line!());
    let top = huge::some(I::default().desc(&vec![I::C::zero(); 5]));
    check!(z.with_depth(5) == Some(top));
    check!(z.parent() == I::zeros(d - 1));
    check!(z.kid(I::C::zero()) == I::zeros(d + 1));
    check!(z.clone() == z);
}

/// and the whole of it against the index built from zero cells
fn huge_built<I: VarIx>() {
    let d = choose_of(&[300, 515, 683, 1025, 2052, 2731, 4097, 8193, 10923, 10924, 16385, 21846, 21847, 32768, 32769, 43692, 65536, 65537]);
    let b = ok(I::build(&vec![I::C::zero(); d]));
    check!(I::zeros(d) == Some(b));
}

pub fn table(v: &mut Table) {
    dynm!(v, "c22_huge", I => huge::<I>());
    dynm!(v, "c22_hugebuilt", I => huge_built::<I>());
    all!(v, "c22_defaults", I => defaults::<I>());
    vari!(v, "c22_zeroed", I => zeroed::<I>());
    vari!(v, "c22_further", I => further::<I>());
    vari!(v, "c22_reach", I => reach::<I>());
    fams!(v, "c22_converted", A => converted::<A>());
}
