//! C23: any history of operations behaves like a list of cells.
use crate::huge;
use crate::ix::*;
use crate::sx::*;
use std::num::NonZeroUsize;

/// one operation on the index and on the list; both must agree whether it succeeds
fn step<I: VarIx>(i: &mut I, c: &mut Vec<I::C>, cap: usize, rich: bool) {
    let d = c.len();
    match choose(7) {
        0 => {
            let x = I::C::sym();
            let r = i.kid(x);
            check!(r.is_some() == (d < cap));
            if let Some(r) = r {
                c.push(x);
                *i = r;
            }
        }
        1 => {
            let r = i.parent();
            check!(r.is_some() == (d > 0));
            if let Some(r) = r {
                c.pop();
                *i = r;
            }
        }
        2 => {
            let n = if rich { choose_of(&[0, 2, 3, 5, 8]) } else { choose_of(&[2, 5]) };
            let s = syms::<I::C>(n);
            let r = i.desc(&s);
            check!(r.is_some() == (n <= cap - d));
            if let Some(r) = r {
                c.extend_from_slice(&s);
                *i = r;
            }
        }
        3 => {
            let n = if rich { choose_of(&[2, 3, 4, 5, 9]) } else { choose_of(&[2, 3]) };
            let r = i.ancestor(NonZeroUsize::new(n).unwrap());
            check!(r.is_some() == (n <= d));
            if let Some(r) = r {
                c.truncate(d - n);
                *i = r;
            }
        }
        4 => {
            if d > 0 {
                let l = match choose(if rich { 3 } else { 1 }) {
                    0 => 0,
                    1 => d - 1,
                    2 => d / 2,
                    _ => (d - 1) / 3,
                };
                let x = I::C::sym();
                i.set(l, x);
                c[l] = x;
            }
        }
        5 => {
            let n = match choose(if rich { 4 } else { 1 }) {
                0 => d / 2,
                1 => d + 1,
                2 => d,
                3 => 0,
                _ => d.saturating_sub(2),
            };
            let r = i.with_depth(n);
            check!(r.is_some() == (n <= d));
            if let Some(r) = r {
                c.truncate(n);
                *i = r;
            }
        }
        6 => {
            *i = i.inverted();
            c.reverse();
        }
        _ => {
            // go on with the clone; what is done to the original does not matter
            let mut k = i.clone();
            if d > 0 {
                k.set(d - 1, I::C::sym());
            }
            let k2 = i.clone();
            *i = k2;
        }
    }
    check!(i.depth() == c.len());
    for l in 0..c.len() {
        check!(i.get(l).ix() == c[l].ix());
    }
}

fn start<I: VarIx>(tab: &[usize]) -> (I, Vec<I::C>) {
    let n = choose_of(tab).min(I::CAP);
    if n == 0 {
        return (I::default(), Vec::new());
    }
    let c = syms::<I::C>(n);
    (ok(I::build(&c)), c)
}

/// after the history: equal to, hashes like, and orders like the index built directly
fn compare<I: VarIx>(i: &I, c: &[I::C], full: bool) {
    same_as_built(i, c, line!());
    if full {
        // ordering against an arbitrary other index
        let n = match choose(2) {
            0 => c.len(),
            1 => c.len().saturating_sub(1),
            _ => (c.len() + 1).min(I::CAP),
        };
        let e = syms::<I::C>(n);
        let o = ok(I::build(&e));
        let want = lex(c, &e);
        check!(i.cmp(&o) == want);
        check!(o.cmp(i) == want.reverse());
        check!((*i == o) == (want == std::cmp::Ordering::Equal));
    }
}

fn history<I: VarIx>(steps: usize, rich: bool, tab: &[usize]) {
    let (mut i, mut c) = start::<I>(tab);
    for _ in 0..steps {
        step::<I>(&mut i, &mut c, I::CAP, rich);
    }
    compare::<I>(&i, &c, false);
    cell_obs(&i);
}

fn ordered<I: VarIx>() {
    let (mut i, mut c) = start::<I>(&[0, 3, 5]);
    for _ in 0..2 {
        step::<I>(&mut i, &mut c, I::CAP, false);
    }
    compare::<I>(&i, &c, true);
}

/// two operations, all variants, from small, middle and nearly full indices
fn two<I: VarIx>() {
    if I::KIND == Kind::Dynamic {
        history::<I>(2, true, &[0, 1, 3, 4, 7, 8, 9, 16, 21]);
    } else {
        history::<I>(2, true, &[0, 1, 4, 7, I::CAP / 2, I::CAP - 1, I::CAP]);
    }
}
fn three<I: VarIx>() {
    if I::KIND == Kind::Dynamic {
        history::<I>(3, tier() != 0, &[0, 4, 8, 11]);
    } else {
        history::<I>(3, tier() != 0, &[0, 3, I::CAP - 1]);
    }
}
/// longer histories from the root
fn four<I: VarIx>() {
    history::<I>(4, false, &[0]);
}
fn five<I: VarIx>() {
    if tier() == 0 {
        history::<I>(3, false, &[2]);
    } else {
        history::<I>(5, false, &[2]);
    }
}

/// histories on indices of many thousand levels; the last levels are compared
fn deep<I: VarIx>() {
    let mut d = choose_of(&[255, 1024, 10922, 16384, 21845, 65536]);
    let mut i = huge::some(I::zeros(d));
    // the cells of the levels from `low` on
    let low = d - 12;
    let mut c = syms::<I::C>(12);
    for k in 0..12 {
        i.set(low + k, c[k]);
    }
    for _ in 0..2 {
        match choose(5) {
            0 => {
                let x = I::C::sym();
                i = huge::some(i.kid(x));
                c.push(x);
                d += 1;
            }
            1 => {
                i = huge::some(i.parent());
                c.pop();
                d -= 1;
            }
            2 => {
                let s = syms::<I::C>(choose_of(&[2, 5]));
                i = huge::some(i.desc(&s));
                c.extend_from_slice(&s);
                d += s.len();
            }
            3 => {
                let n = choose_of(&[2, 3]);
                i = huge::some(i.ancestor(NonZeroUsize::new(n).unwrap()));
                d -= n;
                c.truncate(d - low);
            }
            4 => {
                let l = d - choose_of(&[1, 3]);
                let x = I::C::sym();
                i.set(l, x);
                c[l - low] = x;
            }
            _ => {
                d -= choose_of(&[0, 1]);
                i = huge::some(i.with_depth(d));
                c.truncate(d - low);
            }
        }
        check!(i.depth() == d);
        for k in 0..c.len() {
            check!(i.get(low + k).ix() == c[k].ix());
        }
        check!(i.get(low - 1).ix() == 0);
    }
    let mut j = huge::some(I::zeros(d));
    for k in 0..c.len() {
        j.set(low + k, c[k]);
    }
    check!(i == j);
    check!(d > 2000 || i.cmp(&j) == std::cmp::Ordering::Equal);
}

pub fn table(v: &mut Table) {
    dynm!(v, "c23_huge", I => deep::<I>());
    vari!(v, "c23_two", I => two::<I>());
    vari!(v, "c23_three", I => three::<I>());
    on!(v, "c23_ordered", I => ordered::<I>();
        "s2_8": S2<u8>, "s2_32": S2<u32>, "s2_128": S2<u128>, "d2": D2,
        "s3_8": S3<u8>, "s3_32": S3<u32>, "s3_128": S3<u128>, "d3": D3);
    on!(v, "c23_four", I => four::<I>();
        "s2_8": S2<u8>, "s2_64": S2<u64>, "d2": D2, "s3_16": S3<u16>, "s3_64": S3<u64>, "d3": D3);
    on!(v, "c23_five", I => five::<I>();
        "s2_8": S2<u8>, "s2_64": S2<u64>, "d2": D2, "s3_16": S3<u16>, "s3_64": S3<u64>, "d3": D3);
}
