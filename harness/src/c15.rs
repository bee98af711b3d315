//! C15: cell numbering and cell orderings are consistent bijections.
use crate::ix::*;
use crate::sx::*;
use morton_index::dimensions::{Dim2D, Dim3D, Dimension, OctantOrdering, QuadrantOrdering};
use std::convert::TryFrom;

trait Num: Cell + std::hash::Hash + TryFrom<usize, Error = Error> + Into<usize> {
    fn index_of(&self) -> usize;
    fn ref_into(&self) -> usize;
}
impl Num for Quadrant {
    fn index_of(&self) -> usize {
        self.index()
    }
    fn ref_into(&self) -> usize {
        self.into()
    }
}
impl Num for Octant {
    fn index_of(&self) -> usize {
        self.index()
    }
    fn ref_into(&self) -> usize {
        self.into()
    }
}

fn numbering<C: Num>() {
    let v = sym(64) as usize;
    match C::try_from(v) {
        Ok(c) => {
            check!(v < 1 << C::D);
            check!(c.ix() as usize == v);
            check!(c.index_of() == v);
            check!(c.ref_into() == v);
            let w: usize = c.into();
            check!(w == v);
        }
        Err(e) => {
            check!(v >= 1 << C::D);
            check!(matches!(e, Error::CellIndexOutOfRange));
        }
    }
    let c = C::sym();
    check!(c.index_of() == c.ix() as usize);
    check!(ok(C::try_from(c.index_of())) == c);
    observe(c.index_of() as u64);
}

fn order<C: Num>() {
    let (a, b) = (C::sym(), C::sym());
    check!(a.cmp(&b) == a.ix().cmp(&b.ix()));
    check!(a.partial_cmp(&b) == Some(a.ix().cmp(&b.ix())));
    check!((a == b) == (a.ix() == b.ix()));
    check!((a < b) == (a.ix() < b.ix()));
    check!((a <= b) == (a.ix() <= b.ix()));
    check!(a.clone() == a);
    if a == b {
        let (h, k) = (hash_bytes(&a), hash_bytes(&b));
        check!(h.len() == k.len());
        for n in 0..h.len() {
            check!(h[n] == k[n]);
        }
    }
}

fn to_index2() {
    let ord = choose(1);
    let c = Quadrant::sym();
    let p = g2::ordering(ord).to_index(c);
    check!(p.x <= 1);
    check!(p.y <= 1);
    check!(cell_at(2, ord, [p.x, p.y, 0]) == c.ix());
    // one-to-one
    let e = Quadrant::sym();
    let q = g2::ordering(ord).to_index(e);
    check!((p == q) == (c == e));
    observe((p.x + 2 * p.y) as u64);
}

fn to_index3() {
    let ord = choose(5);
    let c = Octant::sym();
    let p = g3::ordering(ord).to_index(c);
    check!(p.x <= 1);
    check!(p.y <= 1);
    check!(p.z <= 1);
    check!(cell_at(3, ord, [p.x, p.y, p.z]) == c.ix());
    let e = Octant::sym();
    let q = g3::ordering(ord).to_index(e);
    check!((p == q) == (c == e));
    observe((p.x + 2 * p.y + 4 * p.z) as u64);
}

/// the per-axis shifts describe the mapping
fn shifts() {
    let ord = choose(5);
    let o = g3::ordering(ord);
    let (x, y, z) = o.get_bit_shifts_for_xyz();
    check!(x == axis_bit(3, ord, 0));
    check!(y == axis_bit(3, ord, 1));
    check!(z == axis_bit(3, ord, 2));
    let c = Octant::sym();
    let p = o.to_index(c);
    check!((p.x << x) | (p.y << y) | (p.z << z) == c.index());
    let copy = o;
    check!(copy.to_index(c) == o.to_index(c));
}

/// the defaults are XY and XYZ, also through the Dimension trait
fn defaults() {
    let c = Quadrant::sym();
    let p = QuadrantOrdering::default().to_index(c);
    check!(p.x == (c.ix() & 1) as usize);
    check!(p.y == (c.ix() >> 1) as usize);
    let c = Octant::sym();
    let p = OctantOrdering::default().to_index(c);
    check!(p.x == (c.ix() & 1) as usize);
    check!(p.y == (c.ix() >> 1 & 1) as usize);
    check!(p.z == (c.ix() >> 2) as usize);
    let p = <Dim3D as Dimension>::CellOrdering::default().to_index(c);
    check!(p.y == (c.ix() >> 1 & 1) as usize);
    check!(<Dim2D as Dimension>::DIMENSIONALITY == 2);
    check!(<Dim3D as Dimension>::DIMENSIONALITY == 3);
}

pub fn table(v: &mut Table) {
    h!(v, "c15_numbering_2", numbering::<Quadrant>());
    h!(v, "c15_numbering_3", numbering::<Octant>());
    h!(v, "c15_order_2", order::<Quadrant>());
    h!(v, "c15_order_3", order::<Octant>());
    h!(v, "c15_toindex_2", to_index2());
    h!(v, "c15_toindex_3", to_index3());
    h!(v, "c15_shifts", shifts());
    h!(v, "c15_defaults", defaults());
}
