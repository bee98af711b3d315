//! C24: the storage types alone obey the same contract as the indices.
use crate::huge;
use crate::ix::*;
use crate::sx::*;
use morton_index::dimensions::{Dim2D, Dim3D, Dimension};
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::hash::Hash;
use std::num::NonZeroUsize;

/// a storage, next to the index type that wraps it
trait Sto: Sized + Clone + Default + Ord + Hash + std::fmt::Debug {
    type C: Cell;
    type I: Ix<C = Self::C>;
    fn build(c: &[Self::C]) -> R<Self>;
    fn build_array<const N: usize>(c: [Self::C; N]) -> R<Self>;
    fn deep(&self) -> usize;
    fn get(&self, l: usize) -> Self::C;
    fn set(&mut self, l: usize, c: Self::C);
    fn each(&self, f: &mut dyn FnMut(Self::C));
    fn maximum() -> Option<usize>;
    fn type_maximum() -> Option<usize>;
    fn levels() -> usize;
    fn dims() -> usize;
    fn iter_check(&self, c: &[Self::C]);
}
trait VarSto: Sto
where
    Self::I: VarIx,
{
    fn up(&self, n: NonZeroUsize) -> Option<Self>;
    fn down(&self, c: &[Self::C]) -> Option<Self>;
}

macro_rules! sto {
    ($st:ty, $idx:ident, $dim:ty, $cell:ty $(, $b:ident)?) => {
        impl$(<$b: FixedStorageType + 'static>)? Sto for $st {
            type C = $cell;
            type I = $idx<$st>;
            fn build(c: &[Self::C]) -> R<Self> {
                Self::try_from(c)
            }
            fn build_array<const N: usize>(c: [Self::C; N]) -> R<Self> {
                Self::try_from(c)
            }
            fn deep(&self) -> usize {
                Storage::<$dim>::depth(self)
            }
            fn get(&self, l: usize) -> Self::C {
                unsafe { Storage::<$dim>::get_cell_at_level_unchecked(self, l) }
            }
            fn set(&mut self, l: usize, c: Self::C) {
                unsafe { Storage::<$dim>::set_cell_at_level_unchecked(self, l, c) }
            }
            fn each(&self, f: &mut dyn FnMut(Self::C)) {
                for c in self {
                    f(c)
                }
            }
            fn iter_check(&self, c: &[Self::C]) {
                iter_contract(|| self.into_iter(), c)
            }
            fn maximum() -> Option<usize> {
                <Self as Storage<$dim>>::max_depth()
            }
            fn type_maximum() -> Option<usize> {
                <<Self as Storage<$dim>>::StorageType as StorageType>::max_depth()
            }
            fn levels() -> usize {
                <<Self as Storage<$dim>>::StorageType as StorageType>::MAX_LEVELS
            }
            fn dims() -> usize {
                check!(<$dim as Dimension>::DIMENSIONALITY == <$cell as Cell>::D);
                <<Self as Storage<$dim>>::StorageType as StorageType>::DIMENSIONALITY
            }
        }
    };
}
macro_rules! var {
    ($st:ty, $dim:ty $(, $b:ident)?) => {
        impl$(<$b: FixedStorageType + 'static>)? VarSto for $st {
            fn up(&self, n: NonZeroUsize) -> Option<Self> {
                VariableDepthStorage::<$dim>::ancestor(self, n)
            }
            fn down(&self, c: &[Self::C]) -> Option<Self> {
                VariableDepthStorage::<$dim>::descendant(self, c)
            }
        }
    };
}
sto!(FixedDepthStorage2D<B>, MortonIndex2D, Dim2D, Quadrant, B);
sto!(StaticStorage2D<B>, MortonIndex2D, Dim2D, Quadrant, B);
sto!(DynamicStorage2D, MortonIndex2D, Dim2D, Quadrant);
sto!(FixedDepthStorage3D<B>, MortonIndex3D, Dim3D, Octant, B);
sto!(StaticStorage3D<B>, MortonIndex3D, Dim3D, Octant, B);
sto!(DynamicStorage3D, MortonIndex3D, Dim3D, Octant);
var!(StaticStorage2D<B>, Dim2D, B);
var!(DynamicStorage2D, Dim2D);
var!(StaticStorage3D<B>, Dim3D, B);
var!(DynamicStorage3D, Dim3D);

fn same<S: Sto>(s: &S, c: &[S::C], line: u32) {
    let d = c.len();
    assert(s.deep() == d, line);
    for l in 0..d {
        assert(s.get(l).ix() == c[l].ix(), line);
    }
    let mut n = 0;
    s.each(&mut |x| {
        assert(n < d, line);
        assert(x.ix() == c[n].ix(), line);
        n += 1;
    });
    assert(n == d, line);
    let b = ok(S::build(c));
    assert(*s == b, line);
    assert(s.cmp(&b) == Ordering::Equal, line);
    let (x, y) = (hash_bytes(s), hash_bytes(&b));
    assert(x.len() == y.len(), line);
    for k in 0..x.len() {
        assert(x[k] == y[k], line);
    }
}

fn want_limit<S: Sto>() -> Option<usize> {
    if <S::I as Ix>::KIND == Kind::Dynamic {
        None
    } else {
        Some(<S::I as Ix>::CAP)
    }
}

fn constants<S: Sto>() {
    check!(S::maximum() == want_limit::<S>());
    check!(S::type_maximum() == want_limit::<S>());
    check!(S::levels() == want_limit::<S>().unwrap_or(0));
    check!(S::dims() == S::C::D);
    let s = S::default();
    let d = if <S::I as Ix>::KIND == Kind::Fixed { <S::I as Ix>::CAP } else { 0 };
    same(&s, &vec![S::C::zero(); d], line!());
    check!(s.deep() == <S::I>::default().depth());
}

/// building, from too long lists too
fn build<S: Sto>() {
    let cap = <S::I as Ix>::CAP;
    let n = if <S::I as Ix>::KIND == Kind::Dynamic {
        any_depth::<S::I>()
    } else {
        let n = choose(cap + 3);
        if n == cap + 3 {
            300
        } else {
            n
        }
    };
    let c = syms::<S::C>(n);
    let r = S::build(&c);
    check!(r.is_ok() == (n <= cap));
    check!(r.is_ok() == S::I::build(&c).is_ok());
    match r {
        Ok(s) => {
            let full = if <S::I as Ix>::KIND == Kind::Fixed { padded(&c, cap) } else { c.clone() };
            same(&s, &full, line!());
            let i = ok(S::I::build(&c));
            check!(i.depth() == s.deep());
            for l in 0..s.deep() {
                check!(i.get(l) == s.get(l));
            }
        }
        Err(e) => check!(matches!(e, Error::DepthLimitedExceeded { max_depth } if max_depth == cap)),
    }
}

fn arr<S: Sto, const N: usize>() {
    let v = syms::<S::C>(N);
    let mut a = [S::C::zero(); N];
    for k in 0..N {
        a[k] = v[k];
    }
    let cap = <S::I as Ix>::CAP;
    match S::build_array(a) {
        Ok(s) => {
            check!(N <= cap);
            let full = if <S::I as Ix>::KIND == Kind::Fixed { padded(&v, cap) } else { v.clone() };
            same(&s, &full, line!());
        }
        Err(e) => {
            check!(N > cap);
            check!(matches!(e, Error::DepthLimitedExceeded { max_depth } if max_depth == cap));
        }
    }
}
fn arrays<S: Sto>() {
    match choose(22) {
        0 => arr::<S, 0>(),
        1 => arr::<S, 1>(),
        2 => arr::<S, 2>(),
        3 => arr::<S, 3>(),
        4 => arr::<S, 4>(),
        5 => arr::<S, 5>(),
        6 => arr::<S, 8>(),
        7 => arr::<S, 9>(),
        8 => arr::<S, 10>(),
        9 => arr::<S, 11>(),
        10 => arr::<S, 17>(),
        11 => arr::<S, 33>(),
        12 => arr::<S, 43>(),
        13 => arr::<S, 65>(),
        14 => arr::<S, 6>(),
        15 => arr::<S, 7>(),
        16 => arr::<S, 21>(),
        17 => arr::<S, 128>(),
        18 => arr::<S, 255>(),
        19 => arr::<S, 256>(),
        20 => arr::<S, 257>(),
        21 => arr::<S, 259>(),
        _ => arr::<S, 300>(),
    }
}

fn write<S: Sto>() {
    let d = any_depth::<S::I>();
    if d == 0 {
        check!(S::build(&[]).is_ok());
        return;
    }
    let mut c = syms::<S::C>(d);
    let mut s = ok(S::build(&c));
    let k = s.clone();
    let l = if tier() == 0 && d > 34 && S::I::KIND == Kind::Dynamic {
        choose_of(&[0, 1, 2, d / 2, d / 2 + 1, d - 3, d - 2, d - 1])
    } else {
        choose(d - 1)
    };
    let x = S::C::sym();
    s.set(l, x);
    for m in 0..d {
        check!(k.get(m).ix() == c[m].ix());
    }
    c[l] = x;
    for m in 0..d {
        check!(s.get(m).ix() == c[m].ix());
    }
    check!(s.deep() == d);
    check!(s == ok(S::build(&c)));
}

fn compare<S: Sto>() {
    let (a, b) = depth_pairs::<S::I>();
    let (c, e) = (syms::<S::C>(a), syms::<S::C>(b));
    let (x, y) = (ok(S::build(&c)), ok(S::build(&e)));
    let want = lex(&c, &e);
    check!(x.cmp(&y) == want);
    check!(x.partial_cmp(&y) == Some(want));
    check!((x == y) == (want == Ordering::Equal));
    check!((x != y) == (want != Ordering::Equal));
    // what the indices say
    let (i, j) = (ok(S::I::build(&c)), ok(S::I::build(&e)));
    check!(i.cmp(&j) == x.cmp(&y));
    check!((i == j) == (x == y));
}

fn ancestors<S: VarSto>()
where
    S::I: VarIx,
{
    let d = any_depth::<S::I>();
    let c = syms::<S::C>(d);
    let s = ok(S::build(&c));
    let n = if tier() == 0 && d > 16 { choose_of(&[1, 2, 3, 4, 5, 8, d / 2, d - 1, d, d + 1, d + 8, 255, 256, 257, usize::MAX]) } else { 1 + choose(d + 1) };
    let n = NonZeroUsize::new(n).unwrap();
    let r = s.up(n);
    check!(r.is_some() == (n.get() <= d));
    check!(r.is_some() == ok(S::I::build(&c)).ancestor(n).is_some());
    if let Some(r) = r {
        same(&r, &c[..d - n.get()], line!());
    }
    check!(s == ok(S::build(&c)));
}

fn descendants<S: VarSto>()
where
    S::I: VarIx,
{
    let cap = <S::I as Ix>::CAP;
    let d = any_depth::<S::I>();
    let c = syms::<S::C>(d);
    let s = ok(S::build(&c));
    let room = if <S::I as Ix>::KIND == Kind::Dynamic { 9 } else { cap - d };
    let mut n = choose_of(&[0, 1, 2, 3, 5, 8, room.saturating_sub(1), room, room + 1, 256]);
    if n == 256 && <S::I as Ix>::KIND != Kind::Dynamic {
        n = choose_of(&[192 - d, 255 - d, 256 - d, 257 - d, 256 + cap - d, 256, 512 - d]);
    }
    let t = syms::<S::C>(n);
    let r = s.down(&t);
    check!(r.is_some() == (n <= cap - d));
    check!(r.is_some() == ok(S::I::build(&c)).desc(&t).is_some());
    let mut e = c.clone();
    e.extend_from_slice(&t);
    if let Some(r) = r {
        same(&r, &e, line!());
    }
    check!(s == ok(S::build(&c)));
}

fn iterator<S: Sto>() {
    let cap = <S::I as Ix>::CAP;
    let d = match <S::I as Ix>::KIND {
        Kind::Fixed => cap,
        Kind::Static => choose_of(&[0, 1, 2, 3, cap - 1, cap]).min(cap),
        Kind::Dynamic => choose_of(&[0, 1, 2, 3, 4, 5, 8, 17, 257]),
    };
    let c = syms::<S::C>(d);
    ok(S::build(&c)).iter_check(&c);
}

fn zeroed2() {
    let d = any_depth::<D2>();
    same(&DynamicStorage2D::zeroed(d), &vec![Quadrant::Zero; d], line!());
}
fn zeroed3() {
    let d = any_depth::<D3>();
    same(&DynamicStorage3D::zeroed(d), &vec![Octant::Zero; d], line!());
}

/// storages of many thousand levels
fn huge<S: VarSto>(zeroed: fn(usize) -> S)
where
    S::I: VarIx,
{
    let mode = choose(3);
    let d = if mode < 2 { choose_of(huge::HUGE) - choose(1) } else { choose_of(&[300, 515, 683, 1025, 2731, 4097, 8193, 10924, 16385]) };
    let mut s = zeroed(d);
    let (i, m) = huge::huge::<S::I>(d);
    for &(l, c) in &m {
        s.set(l, c);
    }
    agrees(&s, &i);
    match mode {
        0 => {
            let n = choose_of(&[1, 2, 5, 256, d / 2, d - 1, d, d + 1]);
            let n = NonZeroUsize::new(n).unwrap();
            let (r, j) = (s.up(n), i.ancestor(n));
            check!(r.is_some() == (n.get() <= d));
            check!(j.is_some() == (n.get() <= d));
            if let (Some(r), Some(j)) = (r, j) {
                agrees(&r, &j);
            }
        }
        1 => {
            let t = syms::<S::C>(choose_of(&[0, 1, 3, 5]));
            let r = huge::some(s.down(&t));
            let j = huge::some(i.desc(&t));
            agrees(&r, &j);
            for k in 0..t.len() {
                check!(r.get(d + k).ix() == t[k].ix());
            }
        }
        2 => {
            let k = s.clone();
            check!(k == s);
            check!(k.cmp(&s) == Ordering::Equal);
            let (x, c) = (S::C::sym(), s.get(d - 1).ix());
            s.set(d - 1, x);
            check!((k == s) == (x.ix() == c));
            check!(k.cmp(&s) == c.cmp(&x.ix()));
        }
        _ => {
            let l = choose_of(&[1, d / 2, d - 1]);
            let mut n = 0;
            s.each(&mut |x| {
                if n == l {
                    check!(x.ix() == huge::at(&m, l));
                }
                n += 1;
            });
            check!(n == d);
        }
    }
}
fn agrees<S: Sto>(s: &S, i: &S::I) {
    let d = s.deep();
    check!(i.depth() == d);
    for l in huge::spots(d) {
        for k in l.saturating_sub(1)..(l + 2).min(d) {
            check!(s.get(k).ix() == i.get(k).ix());
        }
    }
}

macro_rules! stos {
    ($v:ident, $pre:literal, $i:ident => $e:expr) => {
        on!($v, $pre, $i => $e;
            "f2_8": FixedDepthStorage2D<u8>, "f2_16": FixedDepthStorage2D<u16>, "f2_32": FixedDepthStorage2D<u32>,
            "f2_64": FixedDepthStorage2D<u64>, "f2_128": FixedDepthStorage2D<u128>, "f2_us": FixedDepthStorage2D<usize>,
            "f3_8": FixedDepthStorage3D<u8>, "f3_16": FixedDepthStorage3D<u16>, "f3_32": FixedDepthStorage3D<u32>,
            "f3_64": FixedDepthStorage3D<u64>, "f3_128": FixedDepthStorage3D<u128>, "f3_us": FixedDepthStorage3D<usize>);
        vstos!($v, $pre, $i => $e);
    };
}
macro_rules! vstos {
    ($v:ident, $pre:literal, $i:ident => $e:expr) => {
        on!($v, $pre, $i => $e;
            "s2_8": StaticStorage2D<u8>, "s2_16": StaticStorage2D<u16>, "s2_32": StaticStorage2D<u32>,
            "s2_64": StaticStorage2D<u64>, "s2_128": StaticStorage2D<u128>, "s2_us": StaticStorage2D<usize>,
            "s3_8": StaticStorage3D<u8>, "s3_16": StaticStorage3D<u16>, "s3_32": StaticStorage3D<u32>,
            "s3_64": StaticStorage3D<u64>, "s3_128": StaticStorage3D<u128>, "s3_us": StaticStorage3D<usize>,
            "d2": DynamicStorage2D, "d3": DynamicStorage3D);
    };
}

pub fn table(v: &mut Table) {
    stos!(v, "c24_constants", S => constants::<S>());
    stos!(v, "c24_build", S => build::<S>());
    stos!(v, "c24_arrays", S => arrays::<S>());
    stos!(v, "c24_iterator", S => iterator::<S>());
    stos!(v, "c24_write", S => write::<S>());
    stos!(v, "c24_compare", S => compare::<S>());
    vstos!(v, "c24_ancestors", S => ancestors::<S>());
    vstos!(v, "c24_descendants", S => descendants::<S>());
    h!(v, "c24_huge_d2", huge::<DynamicStorage2D>(DynamicStorage2D::zeroed));
    h!(v, "c24_huge_d3", huge::<DynamicStorage3D>(DynamicStorage3D::zeroed));
    h!(v, "c24_zeroed_d2", zeroed2());
    h!(v, "c24_zeroed_d3", zeroed3());
}
