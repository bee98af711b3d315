//! C16: integer bit ranges read and write exactly the addressed bits.
use crate::ix::*;
use crate::sx::*;

macro_rules! ints {
    ($m:ident, $b:ty, $n:expr) => {
        mod $m {
            use super::*;
            const N: usize = $n;
            fn mask(len: usize) -> $b {
                if len >= N {
                    !0
                } else {
                    ((1 as $b) << len) - 1
                }
            }
            fn up(x: $b, s: usize) -> $b {
                if s >= N {
                    0
                } else {
                    x << s
                }
            }
            fn down(x: $b, s: usize) -> $b {
                if s >= N {
                    0
                } else {
                    x >> s
                }
            }
            /// a range: start and end as solver variables
            fn range() -> (usize, usize) {
                let a = upto(N);
                let b = upto(N);
                assume(a <= b);
                (a, b)
            }
            /// a range by case split (wide types, quick tier: with ends around word boundaries)
            fn split_range() -> (usize, usize) {
                if tier() == 0 && N >= 64 {
                    let a = choose_of(&[0, 1, 7, 31, 32, 33, 61, N / 2 + 1, N - 2, N - 1, N]).min(N);
                    let b = choose_of(&[0, 1, 2, 8, 31, 32, 33, 62, 63, 64, N - 1, N]);
                    assume(a <= b);
                    return (a, b);
                }
                let a = choose(N);
                let b = a + choose(N - a);
                (a, b)
            }
            pub fn get() {
                let x = sym128() as $b;
                let (a, b) = range();
                let r = unsafe { x.get_bits(a..b) };
                check!(r == down(x, a) & mask(b - a));
                let u = unsafe { x.get_bits_as_usize(a..b) };
                check!(u == r as usize);
                observe(r as u64);
            }
            pub fn set() {
                let mut x = sym128() as $b;
                let old = x;
                let v = sym128() as $b;
                let (a, b) = range();
                unsafe { x.set_bits(a..b, v) };
                let m = up(mask(b - a), a);
                check!(x == (old & !m) | (up(v, a) & m));
                observe(x as u64);
            }
            pub fn set_usize() {
                let mut x = sym128() as $b;
                let old = x;
                let v = sym(64) as usize;
                let (a, b) = range();
                unsafe { x.set_bits_from_usize(a..b, v) };
                let m = up(mask(b - a), a);
                check!(x == (old & !m) | (up(v as $b, a) & m));
                observe(x as u64);
            }
            /// bit by bit, every range: nothing but the addressed bits moves
            pub fn bits() {
                let (a, b) = split_range();
                let x = sym128() as $b;
                let v = sym128() as $b;
                let mut y = x;
                unsafe { y.set_bits(a..b, v) };
                for k in 0..N {
                    let want = if k >= a && k < b { v >> (k - a) & 1 } else { x >> k & 1 };
                    check!(y >> k & 1 == want);
                }
                let r = unsafe { y.get_bits(a..b) };
                for k in 0..N {
                    let want = if k < b - a { v >> k & 1 } else { 0 };
                    check!(r >> k & 1 == want);
                }
            }
        }
    };
}
ints!(i8_, u8, 8);
ints!(i16_, u16, 16);
ints!(i32_, u32, 32);
ints!(i64_, u64, 64);
ints!(i128_, u128, 128);
ints!(ius_, usize, 64);

macro_rules! entries {
    ($v:ident, $($sfx:literal $m:ident)*) => {
        $(
            h!($v, concat!("c16_get_", $sfx), $m::get());
            h!($v, concat!("c16_set_", $sfx), $m::set());
            h!($v, concat!("c16_setusize_", $sfx), $m::set_usize());
            h!($v, concat!("c16_bits_", $sfx), $m::bits());
        )*
    };
}
pub fn table(v: &mut Table) {
    entries!(v, "8" i8_ "16" i16_ "32" i32_ "64" i64_ "128" i128_ "us" ius_);
}
