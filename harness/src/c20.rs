//! C20: aligning rounds up to the next multiple, without overflow on the way.
use crate::sx::*;
use morton_index::align::Alignable;

macro_rules! ints {
    ($m:ident, $b:ty, $n:expr) => {
        mod $m {
            use super::*;
            pub fn any() -> $b {
                if $n == 128 {
                    sym128() as $b
                } else {
                    sym($n) as $b
                }
            }
            fn one(x: $b, al: $b) {
                if al == 0 {
                    check!(x.align_to(al) == x);
                    return;
                }
                // reference: the distance to the next multiple
                let up = {
                    let r = x % al;
                    if r == 0 {
                        0
                    } else {
                        al - r
                    }
                };
                // not representable: outside the property
                assume(up <= <$b>::MAX - x);
                let y = x.align_to(al);
                check!(y == x + up);
                observe(y as u64);
            }
            /// value and alignment both arbitrary
            pub fn full() {
                one(any(), any());
            }
            /// arbitrary values, every power of two as the alignment
            pub fn powers() {
                let k = choose($n - 1);
                one(any(), (1 as $b) << k);
            }
            /// windows of values (around zero, powers of two and the maximum), small alignments
            pub fn window() {
                let k = if tier() == 0 { choose_of(&[0, $n / 2 - 1, $n - 8]) } else { choose($n - 8) };
                let k7 = (k + 7).min($n - 1);
                let base = match choose(2) {
                    0 => (1 as $b) << k7,
                    1 => ((1 as $b) << k7) - 32,
                    _ => <$b>::MAX - ((1 as $b) << k),
                };
                let x = base.wrapping_add(sym(6) as $b);
                let al = sym(if tier() == 0 { 4 } else { 6 }) as $b;
                one(x, al);
            }
            /// the same windows, alignments of the type's own size
            pub fn large() {
                let k = if tier() == 0 { choose_of(&[0, 1, 3, $n / 2 - 1, $n / 2, $n - 2, $n - 1]) } else { choose($n - 1) };
                let al = match choose(3) {
                    0 => ((1 as $b) << k) + 1,
                    1 => (1 as $b) << k,
                    2 => <$b>::MAX - ((1 as $b) << k),
                    _ => <$b>::MAX >> k,
                };
                let x = match choose(3) {
                    0 => sym(6) as $b,
                    1 => al.wrapping_add(sym(4) as $b).wrapping_sub(8),
                    2 => al.wrapping_add(al).wrapping_add(sym(4) as $b).wrapping_sub(8),
                    _ => <$b>::MAX - sym(5) as $b,
                };
                one(x, al);
            }
            /// the value is a small number away from the maximum
            pub fn top() {
                let x = <$b>::MAX - sym(4) as $b;
                let al = sym(6) as $b;
                one(x, al);
            }
            /// multiples of the alignment stay what they are
            pub fn aligned() {
                let k = choose($n - 1);
                let al = match choose(2) {
                    0 => (1 as $b) << k,
                    1 => choose_of(&[3, 5, 6, 7, 10, 12, 24, 100]) as $b,
                    _ => <$b>::MAX - choose(2) as $b,
                };
                let m = sym(if $n == 8 { 3 } else { 8 }) as $b;
                assume(m <= <$b>::MAX / al);
                let x = m * al;
                check!(x.align_to(al) == x);
            }
            pub fn zero() {
                let x = any();
                check!(x.align_to(0) == x);
            }
        }
    };
}
ints!(i8_, u8, 8);
ints!(i16_, u16, 16);
ints!(i32_, u32, 32);
ints!(i64_, u64, 64);
ints!(i128_, u128, 128);
ints!(ius_, usize, 64);

pub fn table(v: &mut Table) {
    h!(v, "c20_full_8", i8_::full());
    h!(v, "c20_full_16", i16_::full());
    h!(v, "c20_full_32", i32_::full());
    h!(v, "c20_full_64", i64_::full());
    h!(v, "c20_full_us", ius_::full());
    h!(v, "c20_powers_8", i8_::powers());
    h!(v, "c20_powers_16", i16_::powers());
    h!(v, "c20_powers_32", i32_::powers());
    h!(v, "c20_powers_64", i64_::powers());
    h!(v, "c20_powers_128", i128_::powers());
    h!(v, "c20_powers_us", ius_::powers());
    h!(v, "c20_window_8", i8_::window());
    h!(v, "c20_large_8", i8_::large());
    h!(v, "c20_window_16", i16_::window());
    h!(v, "c20_large_16", i16_::large());
    h!(v, "c20_window_32", i32_::window());
    h!(v, "c20_large_32", i32_::large());
    h!(v, "c20_window_64", i64_::window());
    h!(v, "c20_large_64", i64_::large());
    h!(v, "c20_window_128", i128_::window());
    h!(v, "c20_large_128", i128_::large());
    h!(v, "c20_window_us", ius_::window());
    h!(v, "c20_large_us", ius_::large());
    h!(v, "c20_top_8", i8_::top());
    h!(v, "c20_top_16", i16_::top());
    h!(v, "c20_top_32", i32_::top());
    h!(v, "c20_top_64", i64_::top());
    h!(v, "c20_top_128", i128_::top());
    h!(v, "c20_top_us", ius_::top());
    h!(v, "c20_aligned_8", i8_::aligned());
    h!(v, "c20_aligned_16", i16_::aligned());
    h!(v, "c20_aligned_32", i32_::aligned());
    h!(v, "c20_aligned_64", i64_::aligned());
    h!(v, "c20_aligned_128", i128_::aligned());
    h!(v, "c20_aligned_us", ius_::aligned());
    h!(v, "c20_zero_8", i8_::zero());
    h!(v, "c20_zero_16", i16_::zero());
    h!(v, "c20_zero_32", i32_::zero());
    h!(v, "c20_zero_64", i64_::zero());
    h!(v, "c20_zero_128", i128_::zero());
    h!(v, "c20_zero_us", ius_::zero());
}
