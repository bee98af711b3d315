//! C03: setting one cell changes that cell and nothing else.
use crate::huge;
use crate::ix::*;
use crate::sx::*;

fn verify<I: Ix>(mut i: I, c: Vec<I::C>, l: usize, x: I::C, unchecked: bool) {
    let before = i.clone();
    if unchecked {
        unsafe { i.set_raw(l, x) }
    } else {
        i.set(l, x);
    }
    check!(i.depth() == c.len());
    let mut e = c.clone();
    for k in 0..c.len() {
        let want = if k == l { x.ix() } else { c[k].ix() };
        check!(i.get(k).ix() == want);
        if k == l {
            e[k] = x;
        }
    }
    check!(i.get(l).ix() == x.ix());
    // equal to the index built from the updated list
    let b = ok(I::build(&e));
    check!(i == b);
    check!(i.cmp(&b) == std::cmp::Ordering::Equal);
    // the clone taken before is unaffected
    same_cells(&before, &c, line!());
    cell_obs(&i);
}

/// level by case split
fn set<I: Ix>() {
    let d = any_depth::<I>();
    if d == 0 {
        return;
    }
    let l = level::<I>(d);
    let (i, c) = any_index_of::<I>(d);
    let x = I::C::sym();
    let unchecked = choose(1) == 1;
    verify(i, c, l, x, unchecked);
}

/// levels: all of them for bounded types and for dynamic ones of up to 34 levels
fn level<I: Ix>(d: usize) -> usize {
    if d <= 34 || tier() != 0 || I::KIND != Kind::Dynamic {
        choose(d - 1)
    } else {
        choose_of(&[0, 1, 2, d / 2, d / 2 + 1, d - 3, d - 2, d - 1])
    }
}

/// level as a solver variable
fn set_symbolic<I: Ix>() {
    let d = any_depth::<I>();
    if d == 0 {
        return;
    }
    let l = upto(d - 1);
    let (mut i, c) = any_index_of::<I>(d);
    let x = I::C::sym();
    i.set(l, x);
    check!(i.depth() == d);
    for k in 0..d {
        let want = if k == l { x.ix() } else { c[k].ix() };
        check!(i.get(k).ix() == want);
    }
}

/// several writes one after the other: the last write to a level wins
fn repeated<I: Ix>() {
    let d = match I::KIND {
        Kind::Fixed => I::CAP,
        _ => {
            if I::CAP < 5 {
                I::CAP
            } else {
                choose_of(&[3, 5])
            }
        }
    };
    let (mut i, mut c) = any_index_of::<I>(d);
    for _ in 0..3 {
        let l = if d <= 5 { choose(d - 1) } else { choose_of(&[0, d / 2, d - 1]) };
        let x = I::C::sym();
        i.set(l, x);
        c[l] = x;
    }
    same_as_built(&i, &c, line!());
}

/// writes in indices of many thousand levels
fn huge<I: VarIx>() {
    let d = choose_of(huge::HUGE_BYTES);
    let (mut i, mut m) = huge::huge::<I>(d);
    let before = i.clone();
    for k in 0..m.len() {
        let x = I::C::sym();
        i.set(m[k].0, x);
        let old = m[k].1;
        m[k].1 = x;
        if k % 8 == 3 {
            huge::agrees(&i, d, &m, line!());
            // the clone still has what was there
            check!(before.get(m[k].0).ix() == old.ix());
        }
    }
    huge::agrees(&i, d, &m, line!());
    check!(before.depth() == d);
}

pub fn table(v: &mut Table) {
    all!(v, "c03_set", I => set::<I>());
    fixed!(v, "c03_symlevel", I => set_symbolic::<I>());
    stat!(v, "c03_symlevel", I => set_symbolic::<I>());
    dynm!(v, "c03_huge", I => huge::<I>());
    all!(v, "c03_repeated", I => repeated::<I>());
}
