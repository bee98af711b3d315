//! C26: grid positions nest along the hierarchy.
use crate::ix::*;
use crate::sx::*;
use std::num::NonZeroUsize;

fn depth<I: VarIx>(max: usize) -> usize {
    if I::KIND == Kind::Dynamic {
        if tier() == 0 && max > 32 {
            return choose_of(&[0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 21, 22, 31, 32, 33, 48, 63, 64]).min(max);
        }
        return choose(max);
    }
    choose(I::CAP.min(max))
}

fn gens(d: usize) -> usize {
    if tier() != 0 || d <= 8 {
        return 1 + choose(d - 1);
    }
    choose_of(&[1, 2, 3, 4, 7, 8, d / 2, d - 2, d - 1, d])
}

/// the position of an ancestor is the position halved once per generation
fn ancestor<I: VarIx>() {
    let d = depth::<I>(64);
    let (i, _) = any_index_of::<I>(d);
    let ord = choose(I::NORD - 1);
    let g = i.to_grid(ord);
    if d == 0 {
        check!(g == [0, 0, 0]);
        return;
    }
    let n = gens(d);
    let a = i.ancestor(NonZeroUsize::new(n).unwrap()).unwrap().to_grid(ord);
    let b = i.with_depth(d - n).unwrap().to_grid(ord);
    let p = i.parent().unwrap().to_grid(ord);
    for k in 0..3 {
        check!(a[k] == if n < 64 { g[k] >> n } else { 0 });
        check!(b[k] == a[k]);
        check!(p[k] == g[k] >> 1);
        observe(g[k] as u64);
    }
}

/// a child lies in the half of its parent's doubled position that its cell names
fn child<I: VarIx>() {
    let d = depth::<I>(63);
    if d >= I::CAP {
        return;
    }
    let (i, _) = any_index_of::<I>(d);
    let ord = choose(I::NORD - 1);
    let c = I::C::sym();
    let g = i.to_grid(ord);
    let k = i.kid(c).unwrap().to_grid(ord);
    let mut n = 0u8;
    for a in 0..I::C::D {
        check!(k[a] >> 1 == g[a]);
        n |= ((k[a] & 1) as u8) << axis_bit(I::C::D, ord, a);
        observe(k[a] as u64);
    }
    check!(n == c.ix());
    // a descendant, back at its ancestor
    let m = 1 + choose(3.min(I::CAP - d).min(64 - d) - 1);
    let e = i.desc(&syms::<I::C>(m)).unwrap().to_grid(ord);
    for a in 0..I::C::D {
        check!(e[a] >> m == g[a]);
    }
}

/// a coarser grid index is the ancestor of a finer one, and a finer one starts at the first descendant
fn coarse<I: VarIx>() {
    let d = depth::<I>(I::GMAX.min(64));
    let ord = choose(I::NORD - 1);
    let mut co = [0; 3];
    for a in 0..I::C::D {
        co[a] = sym(64) as usize;
        if d < 64 {
            assume(co[a] >> d == 0);
        }
    }
    let i = ok(I::from_grid(co, d, ord));
    if d > 0 {
        let n = gens(d);
        let mut h = co;
        for a in 0..3 {
            h[a] = if n < 64 { co[a] >> n } else { 0 };
        }
        let a = ok(I::from_grid(h, d - n, ord));
        check!(i.ancestor(NonZeroUsize::new(n).unwrap()) == Some(a));
    }
    if d < I::GMAX.min(I::CAP).min(63) {
        let mut h = co;
        for a in 0..3 {
            h[a] = co[a] << 1;
        }
        check!(i.kid(I::C::zero()) == Some(ok(I::from_grid(h, d + 1, ord))));
    }
    cell_obs(&i);
}

/// exchanging the ordering exchanges the axes
fn axes<I: Ix>() {
    let d = match I::KIND {
        Kind::Fixed => I::CAP,
        Kind::Static => choose(I::CAP),
        Kind::Dynamic => choose(I::GMAX),
    };
    let (i, _) = any_index_of::<I>(d);
    let (p, q) = (choose(I::NORD - 1), choose(I::NORD - 1));
    let g = i.to_grid(p);
    let h = i.to_grid(q);
    let mut m = [0; 3];
    for a in 0..I::C::D {
        for b in 0..I::C::D {
            if axis_bit(I::C::D, p, a) == axis_bit(I::C::D, q, b) {
                check!(g[a] == h[b]);
                m[b] = g[a];
            }
        }
    }
    check!(ok(I::from_grid(m, d, q)) == i);
    observe(g[0] as u64);
}

/// at one depth the walk order is that of the interleaved coordinates: it agrees along each axis
fn order<I: Ix>() {
    let d = match I::KIND {
        Kind::Fixed => I::CAP,
        Kind::Static => choose(I::CAP),
        Kind::Dynamic => choose_of(&[0, 1, 2, 3, 5, 8, 9, 16, 21, 32]),
    };
    let ord = choose(I::NORD - 1);
    let mut co = [0; 3];
    for a in 0..I::C::D {
        co[a] = sym(64) as usize;
        if d < 64 {
            assume(co[a] >> d == 0);
        }
    }
    let a = choose(I::C::D - 1);
    let mut h = co;
    h[a] = sym(64) as usize;
    if d < 64 {
        assume(h[a] >> d == 0);
    }
    let x = ok(I::from_grid(co, d, ord));
    let y = ok(I::from_grid(h, d, ord));
    let r = x.cmp(&y);
    check!((r == std::cmp::Ordering::Less) == (co[a] < h[a]));
    check!((r == std::cmp::Ordering::Equal) == (co[a] == h[a]));
    check!((x == y) == (co[a] == h[a]));
    cell_obs(&x);
}

pub fn table(v: &mut Table) {
    vari!(v, "c26_ancestor", I => ancestor::<I>());
    vari!(v, "c26_child", I => child::<I>());
    vari!(v, "c26_coarse", I => coarse::<I>());
    all!(v, "c26_axes", I => axes::<I>());
    all!(v, "c26_order", I => order::<I>());
}
