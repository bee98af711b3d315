//! C17: byte-vector bit ranges behave like one long little-endian number.
use crate::ix::*;
use crate::sx::*;

fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(sym(8) as u8);
    }
    v
}
fn bit(v: &[u8], k: usize) -> u8 {
    if k / 8 < v.len() {
        v[k / 8] >> (k % 8) & 1
    } else {
        0
    }
}

/// a vector length and a bit range inside it, by case split
fn range(max: usize) -> (usize, usize, usize) {
    let n = choose(max);
    let a = choose(8 * n);
    let b = a + choose(8 * n - a);
    (n, a, b)
}
/// longer vectors: ranges around byte boundaries, inside one byte, and across many bytes
fn long_range() -> (usize, usize, usize) {
    let n = choose_of(&[4, 5, 8, 9, 12, 16]);
    let a = if tier() == 0 { choose_of(&[0, 1, 3, 7, 8, 9, 13, 8 * n - 9, 8 * n - 1]) } else { choose(8 * n - 1) };
    let len = choose_of(&[0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 72, 100, 128]);
    if a + len <= 8 * n {
        (n, a, a + len)
    } else {
        (n, a, 8 * n)
    }
}

fn check_get(n: usize, a: usize, b: usize) {
    let v = bytes(n);
    let old = v.clone();
    let r = unsafe { v.get_bits(a..b) };
    // exactly the bytes the range needs
    check!(r.len() == (b - a + 7) / 8);
    for k in 0..8 * r.len() {
        let want = if k < b - a { bit(&old, a + k) } else { 0 };
        check!(bit(&r, k) == want);
    }
    for k in 0..n {
        check!(v[k] == old[k]);
    }
    for x in r.iter().take(4) {
        observe(*x as u64);
    }
}

fn check_get_usize(n: usize, a: usize, b: usize) {
    if b - a > 64 {
        return;
    }
    let v = bytes(n);
    let r = unsafe { v.get_bits_as_usize(a..b) };
    for k in 0..64 {
        let want = if k < b - a { bit(&v, a + k) } else { 0 };
        check!((r >> k & 1) as u8 == want);
    }
    observe(r as u64);
}

/// the new value as a byte vector with `extra` bytes more than the range needs
fn check_set(n: usize, a: usize, b: usize, extra: usize) {
    let mut v = bytes(n);
    let old = v.clone();
    let m = (b - a + 7) / 8 + extra;
    let x = bytes(m);
    unsafe { v.set_bits(a..b, x.clone()) };
    check!(v.len() == n);
    for k in 0..8 * n {
        let want = if k >= a && k < b { bit(&x, k - a) } else { bit(&old, k) };
        check!(bit(&v, k) == want);
    }
    for x in v.iter().take(4) {
        observe(*x as u64);
    }
}

fn check_set_usize(n: usize, a: usize, b: usize) {
    if b - a > 64 {
        return;
    }
    let mut v = bytes(n);
    let old = v.clone();
    let x = sym(64) as usize;
    unsafe { v.set_bits_from_usize(a..b, x) };
    check!(v.len() == n);
    for k in 0..8 * n {
        let want = if k >= a && k < b { (x >> (k - a) & 1) as u8 } else { bit(&old, k) };
        check!(bit(&v, k) == want);
    }
    for x in v.iter().take(4) {
        observe(*x as u64);
    }
}

fn small() -> (usize, usize, usize) {
    range(if tier() == 0 { 3 } else { 4 })
}

/// the range taken out and written back, elsewhere or in place
fn roundtrip() {
    let (n, a, b) = small();
    let v = bytes(n);
    let mut w = v.clone();
    let r = unsafe { v.get_bits(a..b) };
    unsafe { w.set_bits(a..b, r) };
    for k in 0..n {
        check!(w[k] == v[k]);
    }
    let x = bytes(n);
    unsafe { w.set_bits(a..b, x.clone()) };
    let r = unsafe { w.get_bits(a..b) };
    for k in 0..b - a {
        check!(bit(&r, k) == bit(&x, k));
    }
}

/// vectors of many bytes, with symbolic ones where counters of bits or bytes would wrap
fn far_bytes(n: usize, around: &[usize]) -> Vec<u8> {
    let mut v = vec![0x5a; n];
    for &m in around {
        for k in m.saturating_sub(2)..(m + 3).min(n) {
            v[k] = sym(8) as u8;
        }
    }
    v
}
/// vector length and range: around a far bit, or a range of many bytes
fn far() -> (usize, usize, usize) {
    if flag() {
        let at = choose_of(&[255, 256, 511, 2047, 2048, 4100, 32767, 32768, 65535, 65536, 524287, 524288, 524293]);
        let n = at / 8 + choose_of(&[12, 37, 300]);
        let a = at - choose_of(&[0, 1, 5, 8]);
        (n, a, a + choose_of(&[1, 2, 3, 8, 9, 13, 17, 33, 64]))
    } else if flag() {
        let at = choose_of(&[255, 256, 511, 2047, 2048, 4100]);
        let a = choose_of(&[0, 1, 3, 8, 11]);
        (at / 8 + choose_of(&[12, 37, 300]), a, at + choose_of(&[0, 1, 4, 8, 9, 15]))
    } else {
        let at = choose_of(&[32768, 65536, 524288]);
        (at / 8 + 5, choose_of(&[0, 3, 8]), at + choose_of(&[0, 9]))
    }
}
fn far_set(n: usize, a: usize, b: usize) {
    let mut v = far_bytes(n, &[0, 4, a / 8, b / 8, n]);
    let old = v.clone();
    let m = (b - a + 7) / 8;
    let x = far_bytes(m, &[0, m]);
    unsafe { v.set_bits(a..b, x.clone()) };
    check!(v.len() == n);
    let bits = |from: usize, to: usize| {
        for k in from..to.min(8 * n) {
            let want = if k >= a && k < b { bit(&x, k - a) } else { bit(&old, k) };
            check!(bit(&v, k) == want);
        }
    };
    bits(0, 40);
    bits(a.saturating_sub(20), a + 80);
    bits(b.saturating_sub(80), b + 40);
    bits(8 * n - 16, 8 * n);
    let r = unsafe { v.get_bits(a..b) };
    check!(r.len() == m);
    for k in (0..m.min(6)).chain(m.saturating_sub(6)..m) {
        let mask = if 8 * (k + 1) > b - a { 0xff >> (8 * (k + 1) - (b - a)) } else { 0xff };
        check!(r[k] == x[k] & mask);
    }
}
fn far_usize(n: usize, a: usize, b: usize) {
    if b - a > 64 {
        return;
    }
    let mut v = far_bytes(n, &[0, 4, a / 8, a / 8 + 4, b / 8, n]);
    let old = v.clone();
    let r = unsafe { v.get_bits_as_usize(a..b) };
    for k in 0..64 {
        let want = if k < b - a { bit(&v, a + k) } else { 0 };
        check!((r >> k & 1) as u8 == want);
    }
    let x = sym(64) as usize;
    unsafe { v.set_bits_from_usize(a..b, x) };
    check!(v.len() == n);
    let bits = |from: usize, to: usize| {
        for k in from..to.min(8 * n) {
            let want = if k >= a && k < b { (x >> (k - a) & 1) as u8 } else { bit(&old, k) };
            check!(bit(&v, k) == want);
        }
    };
    bits(0, 40);
    bits(a.saturating_sub(20), b + 40);
    bits(8 * n - 16, 8 * n);
}

pub fn table(v: &mut Table) {
    h!(v, "c17_get_small", {
        let (n, a, b) = small();
        check_get(n, a, b)
    });
    h!(v, "c17_get_long", {
        let (n, a, b) = long_range();
        check_get(n, a, b)
    });
    h!(v, "c17_getusize_small", {
        let (n, a, b) = small();
        check_get_usize(n, a, b)
    });
    h!(v, "c17_getusize_long", {
        let (n, a, b) = long_range();
        check_get_usize(n, a, b)
    });
    h!(v, "c17_set_small", {
        let (n, a, b) = small();
        check_set(n, a, b, choose(2))
    });
    h!(v, "c17_set_long", {
        let (n, a, b) = long_range();
        check_set(n, a, b, choose(1))
    });
    h!(v, "c17_setusize_small", {
        let (n, a, b) = small();
        check_set_usize(n, a, b)
    });
    h!(v, "c17_setusize_long", {
        let (n, a, b) = long_range();
        check_set_usize(n, a, b)
    });
    h!(v, "c17_roundtrip", roundtrip());
    h!(v, "c17_far_set", {
        let (n, a, b) = far();
        far_set(n, a, b)
    });
    h!(v, "c17_far_usize", {
        let (n, a, b) = far();
        far_usize(n, a, b)
    });
}
