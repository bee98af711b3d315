//! C18: numeric and byte-slice conversions keep the value they can hold.
use crate::ix::*;
use crate::sx::*;

fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(sym(8) as u8);
    }
    v
}

macro_rules! ints {
    ($m:ident, $b:ty, $n:expr) => {
        mod $m {
            use super::*;
            const W: usize = $n / 8;
            const ALL: u128 = if $n == 128 { !0 } else { (1u128 << ($n % 128)) - 1 };
            /// conversions out of and into the type: the low bits survive
            pub fn conv() {
                let full = sym128();
                let x = (full & ALL) as $b;
                let wide = full & ALL;
                check!(<$b as Bits>::BITS == $n);
                check!(x.size() == W);
                unsafe {
                    check!(x.as_u8() as u128 == wide & 0xff);
                    check!(x.as_u16() as u128 == wide & 0xffff);
                    check!(x.as_u32() as u128 == wide & 0xffff_ffff);
                    check!(x.as_u64() as u128 == wide & 0xffff_ffff_ffff_ffff);
                    check!(x.as_usize() as u128 == wide & 0xffff_ffff_ffff_ffff);
                    check!(x.as_u128() == wide);
                    check!(<$b>::from_u8(full as u8) as u128 == full & 0xff & ALL);
                    check!(<$b>::from_u16(full as u16) as u128 == full & 0xffff & ALL);
                    check!(<$b>::from_u32(full as u32) as u128 == full & 0xffff_ffff & ALL);
                    check!(<$b>::from_u64(full as u64) as u128 == full & 0xffff_ffff_ffff_ffff & ALL);
                    check!(<$b>::from_usize(full as usize) as u128 == full & 0xffff_ffff_ffff_ffff & ALL);
                    check!(<$b>::from_u128(full) as u128 == wide);
                }
                observe(x as u64);
            }
            /// the byte view, and back in native order
            pub fn view() {
                let mut x = sym128() as $b;
                let old = x;
                let v: Vec<u8> = unsafe { x.as_u8_slice() }.to_vec();
                check!(v.len() == W);
                for k in 0..W {
                    let p = if cfg!(target_endian = "little") { k } else { W - 1 - k };
                    check!(v[k] == (old as u128 >> (8 * p)) as u8);
                }
                let back = unsafe { <$b>::from_u8_slice(&v, native()) };
                check!(back == old);
                // writing through the mutable view
                let k = choose(W - 1);
                let b = sym(8) as u8;
                unsafe {
                    let s = x.as_u8_slice_mut();
                    check!(s.len() == W);
                    s[k] = b;
                }
                let p = if cfg!(target_endian = "little") { k } else { W - 1 - k };
                check!(x as u128 == (old as u128 & !(0xffu128 << (8 * p))) | (b as u128) << (8 * p));
                observe(x as u64);
            }
            /// any number of bytes, both orders
            pub fn slice() {
                let mut n = choose(if tier() == 0 { W + 4 } else { 2 * W + 9 });
                let mut v;
                if n == if tier() == 0 { W + 4 } else { 2 * W + 9 } {
                    // many more bytes than needed
                    n = choose_of(&[64, 255, 256, 257, 256 + W - 1, 256 + W, 512, 513, 32768, 65535, 65536, 65537, 65536 + W - 1]);
                    v = bytes(W + 2);
                    v.resize(n, 0xa5);
                } else {
                    v = bytes(n);
                }
                let mut le = 0u128;
                let mut be = 0u128;
                for k in 0..W {
                    let b = if k < n { v[k] } else { 0 } as u128;
                    le |= b << (8 * k);
                    be |= b << (8 * (W - 1 - k));
                }
                let l = unsafe { <$b>::from_u8_slice(&v, Endianness::LittleEndian) };
                let b = unsafe { <$b>::from_u8_slice(&v, Endianness::BigEndian) };
                check!(l as u128 == le);
                if W > 1 {
                    check!(b as u128 == be);
                } else {
                    check!(b as u128 == le);
                }
                observe(l as u64);
                observe(b as u64);
            }
            /// through a byte vector and back
            pub fn vector() {
                let x = sym128() as $b;
                let v = unsafe { vec_from(x) };
                check!(v.len() == W);
                check!(v.size() == W);
                for k in 0..W {
                    let p = if cfg!(target_endian = "little") { k } else { W - 1 - k };
                    check!(v[k] == (x as u128 >> (8 * p)) as u8);
                }
                check!(unsafe { vec_as(v.clone()) } == x);
                check!(unsafe { <$b>::from_u8_slice(v.as_u8_slice(), native()) } == x);
                // arbitrary bytes as the number
                let u = bytes(W);
                let y = unsafe { vec_as(u.clone()) };
                for k in 0..W {
                    let p = if cfg!(target_endian = "little") { k } else { W - 1 - k };
                    check!(u[k] == (y as u128 >> (8 * p)) as u8);
                }
                observe(y as u64);
            }
            unsafe fn vec_from(x: $b) -> Vec<u8> {
                From_::go(x)
            }
            unsafe fn vec_as(v: Vec<u8>) -> $b {
                <$b as From_>::back(v)
            }
        }
    };
}
trait From_: Sized {
    unsafe fn go(self) -> Vec<u8>;
    unsafe fn back(v: Vec<u8>) -> Self;
}
macro_rules! fr {
    ($($b:ty, $f:ident, $a:ident;)*) => {
        $(impl From_ for $b {
            unsafe fn go(self) -> Vec<u8> {
                <Vec<u8> as Bits>::$f(self)
            }
            unsafe fn back(v: Vec<u8>) -> Self {
                v.$a()
            }
        })*
    };
}
fr! {
    u8, from_u8, as_u8;
    u16, from_u16, as_u16;
    u32, from_u32, as_u32;
    u64, from_u64, as_u64;
    u128, from_u128, as_u128;
    usize, from_usize, as_usize;
}
fn native() -> Endianness {
    if cfg!(target_endian = "little") {
        Endianness::LittleEndian
    } else {
        Endianness::BigEndian
    }
}

ints!(i8_, u8, 8);
ints!(i16_, u16, 16);
ints!(i32_, u32, 32);
ints!(i64_, u64, 64);
ints!(i128_, u128, 128);
ints!(ius_, usize, 64);

/// byte vectors: viewing, building back, and the foreign order
fn vecs() {
    let n = choose(if tier() == 0 { 20 } else { 64 });
    let mut v = bytes(n);
    let old = v.clone();
    check!(v.size() == n);
    unsafe {
        let s = v.as_u8_slice();
        check!(s.len() == n);
        for k in 0..n {
            check!(s[k] == old[k]);
        }
        let a = Vec::<u8>::from_u8_slice(&v, native());
        check!(a == old);
        let foreign = if cfg!(target_endian = "little") { Endianness::BigEndian } else { Endianness::LittleEndian };
        let r = Vec::<u8>::from_u8_slice(&v, foreign);
        check!(r.len() == n);
        for k in 0..n {
            check!(r[k] == old[n - 1 - k]);
        }
        if n > 0 {
            check!(v.clone().as_u8() == old[0]);
            let k = choose(n - 1);
            let b = sym(8) as u8;
            let s = v.as_u8_slice_mut();
            check!(s.len() == n);
            s[k] = b;
            for l in 0..n {
                check!(v[l] == if l == k { b } else { old[l] });
            }
        }
    }
}

/// long byte vectors, with symbolic bytes at both ends and where a counter would wrap
fn far_vecs() {
    let n = choose_of(&[33, 64, 65, 128, 129, 255, 256, 257, 300, 512, 513, 4099, 32769, 65535, 65536, 65537, 65800]);
    let mut v = vec![0x3c; n];
    let spots = [0, 1, 2, 31, 32, 127, 128, 254, 255, 256, 257, 32767, 32768, 65535, 65536, n - 3, n - 2, n - 1, n / 2];
    for &k in &spots {
        if k < n {
            v[k] = sym(8) as u8;
        }
    }
    let old = v.clone();
    check!(v.size() == n);
    unsafe {
        let s = v.as_u8_slice();
        check!(s.len() == n);
        let a = Vec::<u8>::from_u8_slice(&v, native());
        check!(a.len() == n);
        let foreign = if cfg!(target_endian = "little") { Endianness::BigEndian } else { Endianness::LittleEndian };
        let r = Vec::<u8>::from_u8_slice(&v, foreign);
        check!(r.len() == n);
        let mut at: Vec<usize> = Vec::new();
        for &k in &spots {
            if k < n {
                at.push(k);
                at.push(n - 1 - k);
                at.push((k + 1) % n);
            }
        }
        for &k in &at {
            check!(v.as_u8_slice()[k] == old[k]);
            check!(a[k] == old[k]);
            check!(r[k] == old[n - 1 - k]);
        }
        let m = v.as_u8_slice_mut();
        check!(m.len() == n);
        let b = sym(8) as u8;
        m[n - 1] = b;
        check!(v[n - 1] == b);
        check!(v[n - 2] == old[n - 2]);
    }
}

pub fn table(v: &mut Table) {
    h!(v, "c18_conv_8", i8_::conv());
    h!(v, "c18_conv_16", i16_::conv());
    h!(v, "c18_conv_32", i32_::conv());
    h!(v, "c18_conv_64", i64_::conv());
    h!(v, "c18_conv_128", i128_::conv());
    h!(v, "c18_conv_us", ius_::conv());
    h!(v, "c18_view_8", i8_::view());
    h!(v, "c18_view_16", i16_::view());
    h!(v, "c18_view_32", i32_::view());
    h!(v, "c18_view_64", i64_::view());
    h!(v, "c18_view_128", i128_::view());
    h!(v, "c18_view_us", ius_::view());
    h!(v, "c18_slice_8", i8_::slice());
    h!(v, "c18_slice_16", i16_::slice());
    h!(v, "c18_slice_32", i32_::slice());
    h!(v, "c18_slice_64", i64_::slice());
    h!(v, "c18_slice_128", i128_::slice());
    h!(v, "c18_slice_us", ius_::slice());
    h!(v, "c18_vector_8", i8_::vector());
    h!(v, "c18_vector_16", i16_::vector());
    h!(v, "c18_vector_32", i32_::vector());
    h!(v, "c18_vector_64", i64_::vector());
    h!(v, "c18_vector_128", i128_::vector());
    h!(v, "c18_vector_us", ius_::vector());
    h!(v, "c18_vecs", vecs());
    h!(v, "c18_far_vecs", far_vecs());
}
