//! Uniform view of all index types, and the reference model (a plain list of cells).
#![allow(dead_code)]
use crate::sx::*;
use morton_index::dimensions::*;
pub use morton_index::dimensions::{Octant, Quadrant};
pub use morton_index::number::*;
pub use morton_index::*;
use std::hash::{Hash, Hasher};

pub trait Cell: Copy + Eq + Ord + std::fmt::Debug + 'static {
    const D: usize;
    fn mk(i: u64) -> Self;
    fn ix(self) -> u8;
    fn sym() -> Self {
        Self::mk(sym(Self::D as u32))
    }
    fn zero() -> Self {
        Self::mk(0)
    }
}
impl Cell for Quadrant {
    const D: usize = 2;
    fn mk(i: u64) -> Self {
        match i & 3 {
            0 => Quadrant::Zero,
            1 => Quadrant::One,
            2 => Quadrant::Two,
            _ => Quadrant::Three,
        }
    }
    fn ix(self) -> u8 {
        match self {
            Quadrant::Zero => 0,
            Quadrant::One => 1,
            Quadrant::Two => 2,
            Quadrant::Three => 3,
        }
    }
}
impl Cell for Octant {
    const D: usize = 3;
    fn mk(i: u64) -> Self {
        match i & 7 {
            0 => Octant::Zero,
            1 => Octant::One,
            2 => Octant::Two,
            3 => Octant::Three,
            4 => Octant::Four,
            5 => Octant::Five,
            6 => Octant::Six,
            _ => Octant::Seven,
        }
    }
    fn ix(self) -> u8 {
        match self {
            Octant::Zero => 0,
            Octant::One => 1,
            Octant::Two => 2,
            Octant::Three => 3,
            Octant::Four => 4,
            Octant::Five => 5,
            Octant::Six => 6,
            Octant::Seven => 7,
        }
    }
}

pub type R<T> = std::result::Result<T, Error>;

#[derive(Copy, Clone, PartialEq, Eq)]
pub enum Kind {
    Fixed,
    Static,
    Dynamic,
}

/// every Morton index type
pub trait Ix: MortonIndex + Sized + Clone + Default {
    type C: Cell;
    const KIND: Kind;
    /// levels the type can hold: floor(bits / dimensions)
    const CAP: usize;
    /// coordinates supported by from_grid_index
    const GMAX: usize;
    /// number of cell orderings
    const NORD: usize;
    fn build(c: &[Self::C]) -> R<Self>;
    fn build_array<const N: usize>(c: [Self::C; N]) -> R<Self>;
    /// grid coordinates (z = 0 in 2D); fixed-depth types ignore the depth
    fn from_grid(co: [usize; 3], depth: usize, ord: usize) -> R<Self>;
    fn to_grid(&self, ord: usize) -> [usize; 3];
    fn get(&self, l: usize) -> Self::C;
    fn set(&mut self, l: usize, c: Self::C);
    /// the unchecked write; the level must be below the depth
    unsafe fn set_raw(&mut self, l: usize, c: Self::C);
    unsafe fn get_raw(&self, l: usize) -> Self::C;
    fn iter_cells(&self, f: &mut dyn FnMut(Self::C));
    fn max_depth() -> Option<usize>;
    /// the contract of the cell iterator, against the list of cells
    fn iter_check(&self, c: &[Self::C]);
}

pub trait VarIx: Ix + VariableDepthMortonIndex {
    fn desc(&self, c: &[Self::C]) -> Option<Self>;
    fn kid(&self, c: Self::C) -> Option<Self>;
    fn zeros(depth: usize) -> Option<Self>;
}

macro_rules! common {
    ($idx:ident, $st:ty, $cell:ty, $dim:ty, $d:expr, $gi:ident) => {
        type C = $cell;
        const NORD: usize = if $d == 2 { 2 } else { 6 };
        fn build(c: &[Self::C]) -> R<Self> {
            Self::try_from(c)
        }
        fn build_array<const N: usize>(c: [Self::C; N]) -> R<Self> {
            Self::try_from(c)
        }
        fn to_grid(&self, ord: usize) -> [usize; 3] {
            let g = self.to_grid_index($gi::ordering(ord));
            $gi::unpack(g)
        }
        fn get(&self, l: usize) -> Self::C {
            self.get_cell_at_level(l)
        }
        fn set(&mut self, l: usize, c: Self::C) {
            self.set_cell_at_level(l, c)
        }
        unsafe fn set_raw(&mut self, l: usize, c: Self::C) {
            self.set_cell_at_level_unchecked(l, c)
        }
        unsafe fn get_raw(&self, l: usize) -> Self::C {
            self.get_cell_at_level_unchecked(l)
        }
        fn iter_cells(&self, f: &mut dyn FnMut(Self::C)) {
            for c in self.cells() {
                f(c)
            }
        }
        fn max_depth() -> Option<usize> {
            <$st as Storage<$dim>>::max_depth()
        }
        fn iter_check(&self, c: &[Self::C]) {
            iter_contract(|| self.cells(), c)
        }
    };
}

pub mod g2 {
    use super::*;
    pub fn ordering(i: usize) -> QuadrantOrdering {
        match i {
            0 => QuadrantOrdering::XY,
            _ => QuadrantOrdering::YX,
        }
    }
    pub fn pack(c: [usize; 3]) -> nalgebra::Vector2<usize> {
        nalgebra::Vector2::new(c[0], c[1])
    }
    pub fn unpack(v: nalgebra::Vector2<usize>) -> [usize; 3] {
        [v.x, v.y, 0]
    }
}
pub mod g3 {
    use super::*;
    pub fn ordering(i: usize) -> OctantOrdering {
        match i {
            0 => OctantOrdering::XYZ,
            1 => OctantOrdering::XZY,
            2 => OctantOrdering::YXZ,
            3 => OctantOrdering::YZX,
            4 => OctantOrdering::ZXY,
            _ => OctantOrdering::ZYX,
        }
    }
    pub fn pack(c: [usize; 3]) -> nalgebra::Vector3<usize> {
        nalgebra::Vector3::new(c[0], c[1], c[2])
    }
    pub fn unpack(v: nalgebra::Vector3<usize>) -> [usize; 3] {
        [v.x, v.y, v.z]
    }
}

/// reference: the bit of a cell number that holds the given axis (0 = x), the first-named axis being the lowest
pub fn axis_bit(d: usize, ord: usize, axis: usize) -> usize {
    let names: [usize; 3] = if d == 2 {
        [[0, 1, 2], [1, 0, 2]][ord]
    } else {
        [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][ord]
    };
    let mut b = 0;
    while names[b] != axis {
        b += 1;
    }
    b
}

/// reference: the number of the cell at position (x, y, z), each 0 or 1
pub fn cell_at(d: usize, ord: usize, pos: [usize; 3]) -> u8 {
    let mut r = 0u8;
    for a in 0..d {
        r |= (pos[a] as u8) << axis_bit(d, ord, a);
    }
    r
}

macro_rules! imp {
    ($idx:ident, $fixed:ident, $stat:ident, $dynm:ident, $cell:ty, $dim:ty, $d:expr, $gi:ident, $fam:ident) => {
        impl<B: FixedStorageType + 'static> Ix for $idx<$fixed<B>> {
            const KIND: Kind = Kind::Fixed;
            const CAP: usize = B::BITS / $d;
            const GMAX: usize = B::BITS / $d;
            common!($idx, $fixed<B>, $cell, $dim, $d, $gi);
            fn from_grid(co: [usize; 3], _d: usize, ord: usize) -> R<Self> {
                Ok(Self::from_grid_index($gi::pack(co), $gi::ordering(ord)))
            }
        }
        impl<B: FixedStorageType + 'static> Ix for $idx<$stat<B>> {
            const KIND: Kind = Kind::Static;
            const CAP: usize = B::BITS / $d;
            const GMAX: usize = B::BITS / $d;
            common!($idx, $stat<B>, $cell, $dim, $d, $gi);
            fn from_grid(co: [usize; 3], d: usize, ord: usize) -> R<Self> {
                Self::from_grid_index($gi::pack(co), d, $gi::ordering(ord))
            }
        }
        impl Ix for $idx<$dynm> {
            const KIND: Kind = Kind::Dynamic;
            const CAP: usize = usize::MAX;
            const GMAX: usize = 32;
            common!($idx, $dynm, $cell, $dim, $d, $gi);
            fn from_grid(co: [usize; 3], d: usize, ord: usize) -> R<Self> {
                Ok(Self::from_grid_index($gi::pack(co), d, $gi::ordering(ord)))
            }
        }
        impl<B: FixedStorageType + 'static> VarIx for $idx<$stat<B>> {
            fn desc(&self, c: &[$cell]) -> Option<Self> {
                self.descendant(c)
            }
            fn kid(&self, c: $cell) -> Option<Self> {
                self.child(c)
            }
            fn zeros(depth: usize) -> Option<Self> {
                Self::zeroed(depth as u8)
            }
        }
        impl VarIx for $idx<$dynm> {
            fn desc(&self, c: &[$cell]) -> Option<Self> {
                self.descendant(c)
            }
            fn kid(&self, c: $cell) -> Option<Self> {
                self.child(c)
            }
            fn zeros(depth: usize) -> Option<Self> {
                Some(Self::zeroed(depth))
            }
        }
        pub struct $fam<B>(std::marker::PhantomData<B>);
        impl<B: FixedStorageType + 'static> Fam for $fam<B> {
            type C = $cell;
            type F = $idx<$fixed<B>>;
            type S = $idx<$stat<B>>;
            type D = $idx<$dynm>;
            const CAP: usize = B::BITS / $d;
            fn f2s(x: Self::F) -> Self::S {
                x.into()
            }
            fn f2d(x: Self::F) -> Self::D {
                x.into()
            }
            fn s2f(x: Self::S) -> Self::F {
                x.into()
            }
            fn s2d(x: Self::S) -> Self::D {
                x.into()
            }
            fn d2f(x: Self::D) -> R<Self::F> {
                x.try_into()
            }
            fn d2s(x: Self::D) -> R<Self::S> {
                x.try_into()
            }
        }
    };
}
/// the three flavours of one dimension and width, and the conversions between them
pub trait Fam {
    type C: Cell;
    type F: Ix<C = Self::C>;
    type S: VarIx<C = Self::C>;
    type D: VarIx<C = Self::C>;
    const CAP: usize;
    fn f2s(x: Self::F) -> Self::S;
    fn f2d(x: Self::F) -> Self::D;
    fn s2f(x: Self::S) -> Self::F;
    fn s2d(x: Self::S) -> Self::D;
    fn d2f(x: Self::D) -> R<Self::F>;
    fn d2s(x: Self::D) -> R<Self::S>;
}
imp!(MortonIndex2D, FixedDepthStorage2D, StaticStorage2D, DynamicStorage2D, Quadrant, Dim2D, 2, g2, Fam2);
imp!(MortonIndex3D, FixedDepthStorage3D, StaticStorage3D, DynamicStorage3D, Octant, Dim3D, 3, g3, Fam3);

pub type F2<B> = MortonIndex2D<FixedDepthStorage2D<B>>;
pub type S2<B> = MortonIndex2D<StaticStorage2D<B>>;
pub type D2 = MortonIndex2D<DynamicStorage2D>;
pub type F3<B> = MortonIndex3D<FixedDepthStorage3D<B>>;
pub type S3<B> = MortonIndex3D<StaticStorage3D<B>>;
pub type D3 = MortonIndex3D<DynamicStorage3D>;

/// n symbolic cells
pub fn syms<C: Cell>(n: usize) -> Vec<C> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(C::sym());
    }
    v
}

/// depths explored for dynamic indices: all small ones, then around byte, word and counter boundaries
pub const DYN: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29,
    30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57,
    58, 59, 60, 61, 62, 63, 64, 65, 66, 80, 85, 86, 96, 127, 128, 129, 130, 171, 172, 255, 256, 257, 258,
];
pub const DYN_T: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29,
    30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57,
    58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85,
    86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110,
    111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132,
    133, 134, 135, 136, 137, 138, 139, 140, 159, 160, 161, 170, 171, 172, 191, 192, 193, 255, 256, 257, 258, 300,
    341, 342, 343, 511, 512, 513, 600,
];

/// a depth the type can hold: every one for bounded types, the table for dynamic ones
pub fn any_depth<I: Ix>() -> usize {
    match I::KIND {
        Kind::Fixed => I::CAP,
        Kind::Static => choose(I::CAP),
        Kind::Dynamic => {
            if tier() == 0 {
                choose_of(DYN)
            } else {
                choose_of(DYN_T)
            }
        }
    }
}

/// an arbitrary index together with its list of cells
pub fn any_index<I: Ix>() -> (I, Vec<I::C>) {
    let d = any_depth::<I>();
    any_index_of(d)
}
pub fn any_index_of<I: Ix>(d: usize) -> (I, Vec<I::C>) {
    let c = syms::<I::C>(d);
    let i = ok(I::build(&c));
    (i, c)
}

pub fn ok<T>(r: R<T>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => panic!("unexpected error"),
    }
}

/// `i` has exactly the cells `c` (through depth and checked reads)
pub fn same_cells<I: Ix>(i: &I, c: &[I::C], line: u32) {
    assert(i.depth() == c.len(), line);
    for l in 0..c.len() {
        assert(i.get(l).ix() == c[l].ix(), line);
    }
}

/// an iterator made by `mk` yields `c`, whichever way it is driven
pub fn iter_contract<C: Cell, I: Iterator<Item = C>, F: Fn() -> I>(mk: F, c: &[C]) {
    let d = c.len();
    let at = |k: usize| if k < d { Some(c[k]) } else { None };
    let hint = |it: &I, left: usize| {
        let (lo, hi) = it.size_hint();
        check!(lo <= left);
        check!(hi.map_or(true, |h| h >= left));
    };
    match choose(6) {
        0 => {
            // some steps, then a jump, then a step
            let a = choose(d.min(4));
            let n = choose_of(&[0, 1, 2, 3, 7, d.saturating_sub(1), d, d + 1, 300]);
            let mut it = mk();
            for k in 0..a {
                check!(it.next() == at(k));
            }
            hint(&it, d - a);
            check!(it.nth(n) == at(a + n));
            hint(&it, d.saturating_sub(a + n + 1));
            check!(it.next() == at(a + n + 1));
            check!(it.nth(0) == at(a + n + 2));
        }
        1 => {
            let a = choose(d.min(2));
            let mut it = mk();
            for k in 0..a {
                check!(it.next() == at(k));
            }
            check!(it.count() == d - a);
        }
        2 => {
            let a = choose(d.min(2));
            let mut it = mk();
            for k in 0..a {
                check!(it.next() == at(k));
            }
            check!(it.last() == if a < d { at(d - 1) } else { None });
        }
        3 => {
            let v: Vec<C> = mk().collect();
            check!(v.len() == d);
            for k in 0..d {
                check!(v[k] == c[k]);
            }
            // it stays exhausted
            let mut it = mk();
            for _ in 0..d {
                it.next();
            }
            hint(&it, 0);
            check!(it.next().is_none());
            check!(it.next().is_none());
            check!(it.nth(0).is_none());
        }
        4 => {
            let s = choose(d.min(3));
            let v: Vec<C> = mk().skip(s).collect();
            check!(v.len() == d - s);
            for k in 0..v.len() {
                check!(v[k] == c[s + k]);
            }
        }
        5 => {
            let mut k = 0;
            for x in mk().step_by(2) {
                check!(at(2 * k) == Some(x));
                k += 1;
            }
            check!(k == (d + 1) / 2);
        }
        _ => {
            let mut it = mk();
            let f = it.next();
            check!(f == at(0));
            let k = it.fold(f.is_some() as usize, |k, x| {
                check!(at(k) == Some(x));
                k + 1
            });
            check!(k == d);
        }
    }
}

/// records what is fed to a hasher
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        // keep the boundaries between writes
        self.0.push(b.len() as u8);
    }
}
pub fn hash_bytes<T: Hash>(x: &T) -> Vec<u8> {
    let mut r = Rec(Vec::with_capacity(256));
    x.hash(&mut r);
    r.0
}

/// lexicographic order of cell lists, prefixes first (the reference order)
pub fn lex<C: Cell>(a: &[C], b: &[C]) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    let mut lt = false;
    let mut gt = false;
    for l in 0..n {
        let (x, y) = (a[l].ix(), b[l].ix());
        let und = !lt & !gt;
        lt |= und & (x < y);
        gt |= und & (x > y);
    }
    if lt {
        Less
    } else if gt {
        Greater
    } else {
        a.len().cmp(&b.len())
    }
}

/// the cells of an index, read through the public interface
pub fn cells_of<I: Ix>(i: &I) -> Vec<I::C> {
    let mut v = Vec::with_capacity(i.depth());
    for l in 0..i.depth() {
        v.push(i.get(l));
    }
    v
}

/// `i` is the index built directly from `c`: same cells, equal, same hash, neither before nor after
pub fn same_as_built<I: Ix>(i: &I, c: &[I::C], line: u32) {
    same_cells(i, c, line);
    let b = ok(I::build(c));
    assert(*i == b, line);
    assert(b == *i, line);
    assert(!(*i != b), line);
    assert(i.cmp(&b) == std::cmp::Ordering::Equal, line);
    let (x, y) = (hash_bytes(i), hash_bytes(&b));
    assert(x.len() == y.len(), line);
    for k in 0..x.len() {
        assert(x[k] == y[k], line);
    }
}

/// list of cells of a fixed-depth index: `c` padded with zero cells
pub fn padded<C: Cell>(c: &[C], n: usize) -> Vec<C> {
    let mut v = c.to_vec();
    while v.len() < n {
        v.push(C::zero());
    }
    v
}

pub fn cell_obs<I: Ix>(i: &I) {
    observe(i.depth() as u64);
    let mut h: u64 = 0;
    for l in 0..i.depth() {
        h = h.rotate_left(5) ^ i.get(l).ix() as u64;
    }
    observe(h);
}

/// two depths: all pairs for small capacities (all of them in the thorough tier), otherwise equal,
/// neighbouring and far-apart depths
pub fn depth_pairs<I: Ix>() -> (usize, usize) {
    match I::KIND {
        Kind::Fixed => (I::CAP, I::CAP),
        Kind::Static => {
            let a = choose(I::CAP);
            let b = if I::CAP <= 21 || tier() != 0 {
                choose(I::CAP)
            } else {
                other_depth(a, I::CAP)
            };
            (a, b)
        }
        Kind::Dynamic => {
            if tier() == 0 {
                let t = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 21, 33, 65];
                (choose_of(t), choose_of(t))
            } else {
                let a = any_depth::<I>();
                (a, other_depth(a, 300))
            }
        }
    }
}
pub fn other_depth(a: usize, cap: usize) -> usize {
    match choose(7) {
        0 => a,
        1 => {
            if a < cap {
                a + 1
            } else {
                a
            }
        }
        2 => a.saturating_sub(1),
        3 => a / 2,
        4 => cap,
        5 => 0,
        6 => cap / 2,
        _ => 1,
    }
}

/// the cells the coordinates stand for at depth d
pub fn interleaved<I: Ix>(co: [usize; 3], d: usize, ord: usize) -> Vec<I::C> {
    let mut v = Vec::with_capacity(d);
    for l in 0..d {
        let s = d - 1 - l;
        let mut pos = [0; 3];
        for a in 0..I::C::D {
            pos[a] = (co[a] >> s) & 1;
        }
        v.push(I::C::mk(cell_at(I::C::D, ord, pos) as u64));
    }
    v
}
