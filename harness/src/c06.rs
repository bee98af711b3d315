//! C06: an index maps to the grid position of its cell, and the mapping inverts.
use crate::ix::*;
use crate::sx::*;

/// depths up to the machine word
fn depth<I: Ix>() -> usize {
    match I::KIND {
        Kind::Fixed => I::CAP,
        Kind::Static => choose(I::CAP),
        Kind::Dynamic => choose(64),
    }
}

fn expected<C: Cell>(c: &[C], ord: usize) -> [usize; 3] {
    let d = c.len();
    let mut e = [0usize; 3];
    for a in 0..C::D {
        let b = axis_bit(C::D, ord, a);
        for l in 0..d {
            let bit = (c[l].ix() >> b) & 1;
            e[a] |= (bit as usize) << (d - 1 - l);
        }
    }
    e
}

fn position<I: Ix>() {
    let d = depth::<I>();
    let ord = choose(I::NORD - 1);
    let (i, c) = any_index_of::<I>(d);
    let g = i.to_grid(ord);
    let e = expected(&c, ord);
    for a in 0..I::C::D {
        check!(g[a] == e[a]);
        if d < 64 {
            check!(g[a] >> d == 0);
        }
        observe(g[a] as u64);
    }
    same_cells(&i, &c, line!());
}

/// index -> coordinates -> index
fn back<I: Ix>() {
    let d = if I::KIND == Kind::Dynamic { choose(I::GMAX) } else { depth::<I>() };
    let ord = choose(I::NORD - 1);
    let (i, c) = any_index_of::<I>(d);
    let j = ok(I::from_grid(i.to_grid(ord), d, ord));
    check!(i == j);
    same_cells(&j, &c, line!());
}

/// coordinates -> index -> coordinates
fn forth<I: Ix>() {
    let d = if I::KIND == Kind::Dynamic { choose(I::GMAX) } else { depth::<I>() };
    let ord = choose(I::NORD - 1);
    let mut co = [0; 3];
    for a in 0..I::C::D {
        co[a] = sym(64) as usize;
    }
    let g = ok(I::from_grid(co, d, ord)).to_grid(ord);
    for a in 0..I::C::D {
        let m = if d < 64 { (1usize << d) - 1 } else { usize::MAX };
        check!(g[a] == co[a] & m);
    }
}

pub fn table(v: &mut Table) {
    all!(v, "c06_position", I => position::<I>());
    all!(v, "c06_back", I => back::<I>());
    all!(v, "c06_forth", I => forth::<I>());
}
