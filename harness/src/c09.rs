//! C09: ancestors are exactly the prefixes of an index.
use crate::huge;
use crate::ix::*;
use crate::sx::*;
use std::num::NonZeroUsize;

/// which ancestor of an index of depth d: every one when there are few, otherwise around both ends and the middle
fn generations(d: usize) -> usize {
    if d <= 34 || tier() != 0 {
        1 + choose(d + 1)
    } else {
        choose_of(&[1, 2, 3, 4, 5, 7, 8, d / 2, d / 2 + 1, d - 4, d - 3, d - 2, d - 1, d, d + 1, d + 2])
    }
}

fn verify<I: VarIx>(i: &I, c: &[I::C], r: Option<I>, n: usize, line: u32) {
    let d = c.len();
    assert(r.is_some() == (n <= d), line);
    if let Some(a) = r {
        same_as_built(&a, &c[..d - n], line);
        cell_obs(&a);
    }
    same_cells(i, c, line);
}

fn ancestor<I: VarIx>() {
    let (i, c) = any_index::<I>();
    let n = generations(c.len());
    let r = i.ancestor(NonZeroUsize::new(n).unwrap());
    verify(&i, &c, r, n, line!());
}

/// every other number of generations up to the largest: no ancestor
fn beyond<I: VarIx>() {
    let (i, c) = any_index::<I>();
    let n = sym(64) as usize;
    assume(n > c.len());
    check!(i.ancestor(NonZeroUsize::new(n).unwrap()).is_none());
    let k = sym(64) as usize;
    assume(k > c.len());
    check!(i.with_depth(k).is_none());
    same_cells(&i, &c, line!());
}

fn parent<I: VarIx>() {
    let (i, c) = any_index::<I>();
    verify(&i, &c, i.parent(), 1, line!());
}

fn with_depth<I: VarIx>() {
    let (i, c) = any_index::<I>();
    let d = c.len();
    let k = if d <= 34 || tier() != 0 {
        choose(d)
    } else {
        choose_of(&[0, 1, 2, 3, 4, 5, 7, 8, 9, d / 2, d - 2, d - 1, d])
    };
    let r = i.with_depth(k);
    verify(&i, &c, r, d - k, line!());
}

/// ancestors of indices that are themselves ancestors, descendants or changed in place
fn chained<I: VarIx>() {
    let cap = I::CAP.min(9);
    let d = choose(cap);
    let (mut i, mut c) = any_index_of::<I>(d);
    match choose(2) {
        0 => {
            if d > 0 {
                let l = choose(d - 1);
                let x = I::C::sym();
                i.set(l, x);
                c[l] = x;
            }
        }
        1 => {
            let k = choose(d);
            i = i.with_depth(k).unwrap();
            c.truncate(k);
        }
        _ => {
            let e = syms::<I::C>(cap - d);
            i = i.desc(&e).unwrap();
            c.extend(e);
        }
    }
    let n = 1 + choose(cap);
    let r = i.ancestor(NonZeroUsize::new(n).unwrap());
    verify(&i, &c, r, n, line!());
}

/// indices of many thousand levels
fn huge<I: VarIx>() {
    let d = choose_of(huge::HUGE);
    let (i, m) = huge::huge::<I>(d);
    let n = choose_of(&[1, 2, 3, 4, 5, 8, 255, 256, 257, 32768, 32769, 65536, 65537, d / 2, d - 3, d - 1, d, d + 1]);
    let (r, q) = (i.ancestor(NonZeroUsize::new(n).unwrap()), i.with_depth(d.wrapping_sub(n)));
    check!(r.is_some() == (n <= d));
    check!(q.is_some() == (n <= d));
    if let (Some(a), Some(b)) = (r, q) {
        huge::agrees(&a, d - n, &m, line!());
        let e = huge::make::<I>(d - n, &m);
        check!(a == e);
        check!(b == e);
    }
    huge::agrees(&i, d, &m, line!());
}

pub fn table(v: &mut Table) {
    dynm!(v, "c09_huge", I => huge::<I>());
    vari!(v, "c09_ancestor", I => ancestor::<I>());
    vari!(v, "c09_beyond", I => beyond::<I>());
    vari!(v, "c09_parent", I => parent::<I>());
    vari!(v, "c09_withdepth", I => with_depth::<I>());
    vari!(v, "c09_chained", I => chained::<I>());
}
