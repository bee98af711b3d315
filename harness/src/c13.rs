//! C13: names are the documented spelling of the cells or the grid position.
use crate::huge;
use crate::ix::*;
use crate::sx::*;

fn digits<I: Ix>(s: &[u8], c: &[I::C], line: u32) {
    assert(s.len() == c.len(), line);
    for l in 0..c.len() {
        assert(s[l] == b'0' + c[l].ix(), line);
    }
}

fn cells<I: Ix>() {
    let (i, c) = any_index::<I>();
    let n = i.to_string(MortonIndexNaming::CellConcatenation);
    digits::<I>(n.as_bytes(), &c, line!());
    for b in n.as_bytes().iter().take(8) {
        observe(*b as u64);
    }
    same_cells(&i, &c, line!());
}

fn rooted<I: Ix>() {
    let (i, c) = any_index::<I>();
    let n = i.to_string(MortonIndexNaming::CellConcatenationWithRoot);
    let b = n.as_bytes();
    check!(b.len() == c.len() + 1);
    check!(b[0] == b'r');
    digits::<I>(&b[1..], &c, line!());
    for b in n.as_bytes().iter().take(8) {
        observe(*b as u64);
    }
}

/// the same for a few fixed nodes of every depth, decided quickly whatever the spelling goes through
fn bare<I: Ix>() {
    let d = any_depth::<I>();
    let m = (1u64 << I::C::D) - 1;
    let mut c: Vec<I::C> = match choose(2) {
        0 => (0..d as u64).map(|l| I::C::mk((l * l + 3 * l + 1) >> 1 & m)).collect(),
        1 => (0..d).map(|l| I::C::mk(if l < d / 2 { 0 } else { m })).collect(),
        _ => vec![I::C::mk(m); d],
    };
    if d > 0 && flag() {
        c[0] = I::C::mk(choose_of(&[0, 1, m as usize]) as u64);
    }
    let i = ok(I::build(&c));
    let n = i.to_string(MortonIndexNaming::CellConcatenation);
    digits::<I>(n.as_bytes(), &c, line!());
    let n = i.to_string(MortonIndexNaming::CellConcatenationWithRoot);
    check!(n.as_bytes()[0] == b'r');
    digits::<I>(&n.as_bytes()[1..], &c, line!());
    for b in n.as_bytes().iter().take(8) {
        observe(*b as u64);
    }
    if d <= 64 {
        name_is(&i, &c, reference(&c), line!());
    }
}

fn put(v: &mut Vec<u8>, mut x: usize) {
    // decimal without padding, by repeated division
    let mut t = [0u8; 20];
    let mut n = 0;
    loop {
        t[n] = b'0' + (x % 10) as u8;
        n += 1;
        x /= 10;
        if x == 0 {
            break;
        }
    }
    while n > 0 {
        n -= 1;
        v.push(t[n]);
    }
}

fn reference<C: Cell>(c: &[C]) -> [usize; 3] {
    let d = c.len();
    let mut e = [0usize; 3];
    for a in 0..C::D {
        for l in 0..d {
            e[a] |= (((c[l].ix() >> a) & 1) as usize) << (d - 1 - l);
        }
    }
    e
}

fn name_is<I: Ix>(i: &I, c: &[I::C], e: [usize; 3], line: u32) {
    let n = i.to_string(MortonIndexNaming::GridIndex);
    let mut w = Vec::with_capacity(96);
    put(&mut w, c.len());
    for a in 0..I::C::D {
        w.push(b'-');
        put(&mut w, e[a]);
    }
    let b = n.as_bytes();
    assert(b.len() == w.len(), line);
    for k in 0..w.len() {
        assert(b[k] == w[k], line);
    }
    for b in b.iter().take(24) {
        observe(*b as u64);
    }
}

/// every node up to a depth, completely symbolic
fn grid<I: Ix>() {
    let d = match I::KIND {
        Kind::Fixed => I::CAP,
        _ => choose(I::CAP.min(if tier() == 0 { 5 } else { 7 })),
    };
    let m = d.min(if tier() == 0 { 5 } else { 7 });
    // fixed-depth types: the last m levels
    let mut c = vec![I::C::zero(); d];
    for l in d - m..d {
        c[l] = I::C::sym();
    }
    let i = ok(I::build(&c));
    name_is(&i, &c, reference(&c), line!());
}

/// deep nodes: one symbolic cell at any level, the rest a fixed pattern
fn deep<I: Ix>() {
    let d = match I::KIND {
        Kind::Fixed => I::CAP,
        Kind::Static => {
            if tier() == 0 {
                choose_of(&[I::CAP / 2, I::CAP - 1, I::CAP])
            } else {
                choose(I::CAP)
            }
        }
        Kind::Dynamic => {
            if tier() == 0 {
                choose_of(&[10, 31, 32, 33, 63, 64])
            } else {
                choose(64)
            }
        }
    };
    if d == 0 {
        return;
    }
    let p = choose(2) as u64;
    let mut c = vec![I::C::mk(if p == 0 { 0 } else { !0 }); d];
    if p == 2 {
        for l in 0..d {
            c[l] = I::C::mk((l * 5 + l / 3) as u64);
        }
    }
    let l = if tier() == 0 { choose_of(&[0, d / 3, d / 2, d - 1]) } else { choose(d - 1) };
    // the one free cell, by case split: the decimal digits are then concrete
    let x = choose((1 << I::C::D) - 1) as u64;
    c[l] = I::C::mk(x);
    let i = ok(I::build(&c));
    name_is(&i, &c, reference(&c), line!());
}

/// the last levels symbolic at any depth: the coordinates are spelled like the standard library spells them
fn wide<I: Ix>() {
    let two = I::C::D == 2;
    let lim = if tier() == 0 {
        if two { 12 } else { 7 }
    } else if two {
        20
    } else {
        14
    };
    let d = match I::KIND {
        Kind::Fixed => I::CAP,
        _ => choose_of(&[I::CAP.min(6), I::CAP.min(lim), I::CAP.min(if two { 64 } else { 42 })]),
    };
    let mut c = padded(&[], d.saturating_sub(lim));
    c.extend(syms::<I::C>(d.min(lim)));
    let i = ok(I::build(&c));
    let n = i.to_string(MortonIndexNaming::GridIndex);
    let g = i.to_grid(0);
    let w = if I::C::D == 2 {
        format!("{}-{}-{}", d, g[0], g[1])
    } else {
        format!("{}-{}-{}-{}", d, g[0], g[1], g[2])
    };
    check!(n.len() == w.len());
    for k in 0..w.len() {
        check!(n.as_bytes()[k] == w.as_bytes()[k]);
    }
}

/// distinct nodes have distinct names (the three namings), equal ones equal names
fn distinct<I: Ix>() {
    let cap = I::CAP.min(if tier() == 0 { 3 } else { 4 });
    let (a, b) = match I::KIND {
        Kind::Fixed => (cap, cap),
        _ => (choose(cap), choose(cap)),
    };
    let (mut c, mut e) = (syms::<I::C>(a), syms::<I::C>(b));
    if I::KIND == Kind::Fixed {
        // the last levels vary
        let z = I::CAP - cap;
        c = padded(&[], z).into_iter().chain(c).collect();
        e = padded(&[], z).into_iter().chain(e).collect();
    }
    let (x, y) = (ok(I::build(&c)), ok(I::build(&e)));
    let k = choose(2);
    let nm = || match k {
        0 => MortonIndexNaming::CellConcatenation,
        1 => MortonIndexNaming::CellConcatenationWithRoot,
        _ => MortonIndexNaming::GridIndex,
    };
    let (s, t) = (x.to_string(nm()), y.to_string(nm()));
    let mut same = s.len() == t.len();
    for k in 0..s.len().min(t.len()) {
        same &= s.as_bytes()[k] == t.as_bytes()[k];
    }
    let mut nodes = c.len() == e.len();
    for l in 0..c.len().min(e.len()) {
        nodes &= c[l].ix() == e[l].ix();
    }
    check!(same == nodes);
}

/// cell names of indices of many hundred levels
fn huge<I: VarIx>() {
    let d = choose_of(&[300, 515, 683, 1025, 2731, 4097, 8193, 10924, 16385, 21847]);
    let (i, m) = huge::huge::<I>(d);
    let r = choose(1);
    let t = i.to_string(if r == 0 { MortonIndexNaming::CellConcatenation } else { MortonIndexNaming::CellConcatenationWithRoot });
    let t = t.as_bytes();
    check!(t.len() == d + r);
    if r == 1 {
        check!(t[0] == b'r');
    }
    for l in 0..d {
        check!(t[l + r] == b'0' + huge::at(&m, l));
    }
}

pub fn table(v: &mut Table) {
    dynm!(v, "c13_huge", I => huge::<I>());
    all!(v, "c13_bare", I => bare::<I>());
    all!(v, "c13_cells", I => cells::<I>());
    all!(v, "c13_rooted", I => rooted::<I>());
    all!(v, "c13_grid", I => grid::<I>());
    all!(v, "c13_deep", I => deep::<I>());
    all!(v, "c13_wide", I => wide::<I>());
    all!(v, "c13_distinct", I => distinct::<I>());
}
