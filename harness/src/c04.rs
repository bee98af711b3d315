//! C04: accessing a level at or beyond the depth panics, below it never does.
use crate::huge;
use crate::ix::*;
use crate::sx::*;

fn beyond_get<I: Ix>() {
    let (mut i, c) = any_index::<I>();
    let l = sym(64) as usize;
    assume(l >= c.len());
    must_panic(&mut i, line!(), |i| {
        let _ = i.get(l);
    });
}

fn beyond_set<I: Ix>() {
    let (mut i, c) = any_index::<I>();
    let l = sym(64) as usize;
    assume(l >= c.len());
    let x = I::C::sym();
    must_panic(&mut i, line!(), |i| i.set(l, x));
}

/// the same for indices that did not come straight from a list
fn beyond_made<I: VarIx>() {
    let (i, c) = any_index_of::<I>(if I::CAP < 4 { I::CAP } else { 4 });
    let (mut i, d) = match choose(4) {
        0 => (i.parent().unwrap(), c.len() - 1),
        1 => (i.with_depth(1).unwrap(), 1),
        2 => (i.inverted(), c.len()),
        3 => (I::default(), 0),
        _ => {
            let z = choose(I::CAP.min(9));
            (I::zeros(z).unwrap(), z)
        }
    };
    let l = sym(64) as usize;
    assume(l >= d);
    let x = I::C::sym();
    if flag() {
        must_panic(&mut i, line!(), |i| {
            let _ = i.get(l);
        });
    } else {
        must_panic(&mut i, line!(), |i| i.set(l, x));
    }
}

fn below<I: Ix>() {
    let (mut i, c) = any_index::<I>();
    if c.is_empty() {
        return;
    }
    let x = I::C::sym();
    if I::KIND == Kind::Dynamic {
        for l in 0..c.len() {
            check!(i.get(l).ix() == c[l].ix());
            i.set(l, x);
            check!(i.get(l).ix() == x.ix());
        }
        return;
    }
    let l = upto(c.len() - 1);
    let _ = i.get(l);
    i.set(l, x);
    check!(i.get(l).ix() == x.ix());
    cell_obs(&i);
}

/// indices of many thousand levels
fn huge<I: VarIx>() {
    let d = choose_of(huge::HUGE_BYTES);
    let (mut i, m) = huge::huge::<I>(d);
    let l = sym(64) as usize;
    assume(l >= d);
    let x = I::C::sym();
    match choose(2) {
        0 => must_panic(&mut i, line!(), |i| {
            let _ = i.get(l);
        }),
        1 => must_panic(&mut i, line!(), |i| i.set(l, x)),
        _ => huge::agrees(&i, d, &m, line!()),
    }
}

pub fn table(v: &mut Table) {
    all!(v, "c04_get", I => beyond_get::<I>());
    all!(v, "c04_set", I => beyond_set::<I>());
    dynm!(v, "c04_huge", I => huge::<I>());
    vari!(v, "c04_made", I => beyond_made::<I>());
    all!(v, "c04_below", I => below::<I>());
}
