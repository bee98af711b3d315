//! C05: grid coordinates map to the index whose cells interleave their bits.
use crate::ix::*;
use crate::sx::*;

pub fn sym_coords<I: Ix>() -> [usize; 3] {
    let mut co = [0; 3];
    for a in 0..I::C::D {
        co[a] = sym(64) as usize;
    }
    co
}

pub fn grid_depth<I: Ix>() -> usize {
    if I::KIND == Kind::Fixed {
        I::CAP
    } else {
        choose(I::GMAX)
    }
}

fn grid<I: Ix>() {
    let d = grid_depth::<I>();
    let ord = choose(I::NORD - 1);
    let co = sym_coords::<I>();
    let i = ok(I::from_grid(co, d, ord));
    let c = interleaved::<I>(co, d, ord);
    check!(i.depth() == d);
    for l in 0..d {
        check!(i.get(l).ix() == c[l].ix());
    }
    check!(i == ok(I::build(&c)));
    cell_obs(&i);
}

/// coordinate bits at or above the depth make no difference
fn ignored<I: Ix>() {
    let d = grid_depth::<I>();
    let ord = choose(I::NORD - 1);
    let co = sym_coords::<I>();
    let mut lo = co;
    for a in 0..I::C::D {
        if d < 64 {
            lo[a] &= (1usize << d) - 1;
        }
    }
    let i = ok(I::from_grid(co, d, ord));
    let j = ok(I::from_grid(lo, d, ord));
    check!(i == j);
}

pub fn table(v: &mut Table) {
    all!(v, "c05_grid", I => grid::<I>());
    all!(v, "c05_ignored", I => ignored::<I>());
}
