//! C12: inverting reverses the cells and is its own inverse.
use crate::huge;
use crate::ix::*;
use crate::sx::*;

fn invert<I: Ix>() {
    let (i, c) = any_index::<I>();
    let v = i.inverted();
    let mut e = c.clone();
    e.reverse();
    same_as_built(&v, &e, line!());
    let w = v.inverted();
    check!(w == i);
    same_cells(&w, &c, line!());
    same_cells(&i, &c, line!());
    same_cells(&v, &e, line!());
    cell_obs(&v);
}

/// indices not built straight from a list
fn derived<I: VarIx>() {
    let d = choose(I::CAP.min(9));
    let (i, c) = any_index_of::<I>(d);
    let k = choose(d);
    let mut e = c[..k].to_vec();
    e.reverse();
    same_as_built(&i.with_depth(k).unwrap().inverted(), &e, line!());
    let z = I::zeros(d).unwrap();
    check!(z.inverted() == z);
    check!(I::default().inverted() == I::default());
}

/// indices of many thousand levels
fn huge<I: VarIx>() {
    let d = choose_of(&[300, 515, 683, 1025, 2731, 4097, 10924, 16385, 21847, 32769, 65537]);
    let (i, m) = huge::huge::<I>(d);
    let r = i.inverted();
    let mut n = Vec::new();
    for &(l, c) in &m {
        n.push((d - 1 - l, c));
    }
    huge::agrees(&r, d, &n, line!());
    check!(r == huge::make::<I>(d, &n));
    huge::agrees(&i, d, &m, line!());
}

pub fn table(v: &mut Table) {
    dynm!(v, "c12_huge", I => huge::<I>());
    all!(v, "c12_invert", I => invert::<I>());
    vari!(v, "c12_derived", I => derived::<I>());
}
