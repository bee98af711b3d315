//! C10: descending appends cells; the parent of a child is the original.
use crate::huge;
use crate::ix::*;
use crate::sx::*;
use std::num::NonZeroUsize;

/// a depth and a number of cells to append
fn sizes<I: Ix>() -> (usize, usize) {
    if I::KIND == Kind::Dynamic {
        let lens = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 64, 256];
        if tier() == 0 {
            let d = choose_of(DYN);
            if d > 34 {
                return (d, choose_of(&[0, 1, 2, 3, 5, 8, 17, 64]));
            }
            return (d, choose_of(&lens));
        }
        return (choose_of(DYN_T), choose_of(&lens));
    }
    let d = choose(I::CAP);
    (d, choose(I::CAP - d + 2))
}

fn append<I: VarIx>() {
    let (d, n) = sizes::<I>();
    let (i, c) = any_index_of::<I>(d);
    let e = syms::<I::C>(n);
    let r = i.desc(&e);
    let fits = I::KIND == Kind::Dynamic || d + n <= I::CAP;
    check!(r.is_some() == fits);
    if let Some(x) = r {
        let mut f = c.clone();
        f.extend_from_slice(&e);
        same_as_built(&x, &f, line!());
        if n == 0 {
            check!(x == i);
        } else {
            check!(x.ancestor(NonZeroUsize::new(n).unwrap()).unwrap() == i);
        }
        cell_obs(&x);
    }
    same_cells(&i, &c, line!());
}

/// far more cells than fit, also where a narrow sum of depths would wrap
fn far<I: VarIx>() {
    let d = choose(I::CAP);
    let (i, c) = any_index_of::<I>(d);
    let n = choose_of(&[192 - d, 254 - d, 255 - d, 256 - d, 257 - d, 256 + I::CAP - d, 255, 256, 257, 512, 512 - d, 65535 - d, 65536 - d, 65536]);
    check!(n > I::CAP - d);
    let mut e = vec![I::C::mk(!0); n];
    for l in 0..3 {
        e[l] = I::C::sym();
    }
    check!(i.desc(&e).is_none());
    same_cells(&i, &c, line!());
}

fn child<I: VarIx>() {
    let (i, c) = any_index::<I>();
    let x = I::C::sym();
    let r = i.kid(x);
    let fits = I::KIND == Kind::Dynamic || c.len() < I::CAP;
    check!(r.is_some() == fits);
    let s = i.desc(&[x]);
    check!(s.is_some() == fits);
    if let Some(k) = r {
        let mut f = c.clone();
        f.push(x);
        same_as_built(&k, &f, line!());
        check!(k == s.unwrap());
        let p = k.parent().unwrap();
        check!(p == i);
        same_cells(&p, &c, line!());
    }
    same_cells(&i, &c, line!());
}

fn two_steps<I: VarIx>() {
    let cap = I::CAP.min(if tier() == 0 { 11 } else { 24 });
    let d = choose(cap);
    let a = choose(cap - d);
    let b = choose_of(&[0, 1, 2, cap - d - a]);
    if d + a + b > I::CAP {
        return;
    }
    let (i, _) = any_index_of::<I>(d);
    let e = syms::<I::C>(a);
    let f = syms::<I::C>(b);
    let mut g = e.clone();
    g.extend_from_slice(&f);
    let x = i.desc(&e).unwrap().desc(&f).unwrap();
    let y = i.desc(&g).unwrap();
    check!(x == y);
    check!(x.depth() == d + a + b);
}

/// indices of many thousand levels
fn huge<I: VarIx>() {
    let d = choose_of(huge::HUGE) - choose(1);
    let (i, mut m) = huge::huge::<I>(d);
    let k = choose_of(&[0, 1, 2, 3, 4, 5, 9]);
    let c = syms::<I::C>(k);
    let r = if k == 1 { i.kid(c[0]) } else { i.desc(&c) };
    check!(r.is_some());
    if let Some(a) = r {
        for j in 0..k {
            m.push((d + j, c[j]));
        }
        huge::agrees(&a, d + k, &m, line!());
        check!(a == huge::make::<I>(d + k, &m));
        if k == 1 {
            check!(a.parent() == Some(i.clone()));
        }
    }
    m.truncate(m.len() - k);
    huge::agrees(&i, d, &m, line!());
}

pub fn table(v: &mut Table) {
    dynm!(v, "c10_huge", I => huge::<I>());
    vari!(v, "c10_append", I => append::<I>());
    stat!(v, "c10_far", I => far::<I>());
    vari!(v, "c10_child", I => child::<I>());
    vari!(v, "c10_twosteps", I => two_steps::<I>());
}
