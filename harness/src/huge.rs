//! Dynamic indices of many thousand levels: all cells zero but for symbolic ones around the places where
//! a counter of 8, 16 or 32 bits, of levels, bits or bytes, would wrap.
use crate::ix::*;
use crate::sx::*;

/// depths just beyond 2^k levels, bits (2D and 3D) and bytes
pub const HUGE: &[usize] = &[
    300, 515, 683, 1025, 2052, 2731, 4097, 8193, 10923, 10924, 16385, 21846, 21847, 32768, 32769, 43692, 65536, 65537, 87383,
    131074,
];
/// with the ones where the number of bytes exceeds 2^16
pub const HUGE_BYTES: &[usize] = &[
    300, 515, 683, 1025, 2052, 2731, 4097, 8193, 10923, 10924, 16385, 21846, 21847, 32768, 32769, 43692, 65536, 65537, 87383,
    131074, 174764, 262146,
];

/// levels whose cells are symbolic in an index of depth d
pub fn spots(d: usize) -> Vec<usize> {
    let mut v = Vec::new();
    for &l in &[
        0, 1, 2, 3, 84, 85, 127, 128, 255, 256, 340, 341, 5461, 10922, 16384, 21845, 32767, 32768, 65535, 65536, d / 2, d.wrapping_sub(4), d.wrapping_sub(3),
        d.wrapping_sub(2), d.wrapping_sub(1),
    ] {
        if l < d && !v.contains(&l) {
            v.push(l)
        }
    }
    v
}

/// an index of depth d with symbolic cells at the spots
pub fn huge<I: VarIx>(d: usize) -> (I, Vec<(usize, I::C)>) {
    let mut i = some(I::zeros(d));
    let mut m = Vec::new();
    for l in spots(d) {
        let c = I::C::sym();
        i.set(l, c);
        m.push((l, c));
    }
    (i, m)
}

/// what the sparse model has at level l
pub fn at<C: Cell>(m: &[(usize, C)], l: usize) -> u8 {
    let mut r = 0;
    for &(k, c) in m {
        if k == l {
            r = c.ix();
        }
    }
    r
}

/// the index has depth d, the cells of the model, and zero cells next to them
pub fn agrees<I: Ix>(i: &I, d: usize, m: &[(usize, I::C)], line: u32) {
    assert(i.depth() == d, line);
    for l in spots(d) {
        assert(i.get(l).ix() == at(m, l), line);
        for &k in &[l.wrapping_sub(1), l + 1, l.wrapping_sub(4), l + 4] {
            if k < d {
                assert(i.get(k).ix() == at(m, k), line);
            }
        }
    }
    for &(l, c) in m {
        if l < d {
            assert(i.get(l).ix() == c.ix(), line);
        }
    }
}

/// an index with the cells of the model, made from the zero index
pub fn make<I: VarIx>(d: usize, m: &[(usize, I::C)]) -> I {
    let mut i = some(I::zeros(d));
    for &(l, c) in m {
        if l < d {
            i.set(l, c);
        }
    }
    i
}

pub fn some<T>(o: Option<T>) -> T {
    match o {
        Some(x) => x,
        None => {
            assert(false, line!());
            panic!()
        }
    }
}
