//! C19: the bit-spreading helpers place input bit i at its documented position.
use crate::ix::*;
use crate::sx::*;

/// the low `n` bits of `v`, bit i moved to `step * i + off`
fn spread(v: u64, n: usize, step: usize, off: usize) -> u64 {
    let mut r = 0;
    for i in 0..n {
        r |= (v >> i & 1) << (step * i + off);
    }
    r
}

fn before_u8() {
    let v = sym(8) as u8;
    let r = add_zero_before_every_bit_u8(v);
    check!(r as u64 == spread(v as u64, 4, 2, 0));
    observe(r as u64);
}
fn behind_u8() {
    let v = sym(8) as u8;
    let r = add_zero_behind_every_bit_u8(v);
    check!(r as u64 == spread(v as u64, 4, 2, 1));
    observe(r as u64);
}
/// the two halves of a cell group do not overlap
fn merge_u8() {
    let (a, b) = (sym(8) as u8, sym(8) as u8);
    let r = add_zero_before_every_bit_u8(a) | add_zero_behind_every_bit_u8(b);
    check!(r as u64 == spread(a as u64, 4, 2, 0) | spread(b as u64, 4, 2, 1));
}
fn before_u16() {
    let v = sym(16) as u16;
    let r = add_zero_before_every_bit_u16(v);
    check!(r as u64 == spread(v as u64, 8, 2, 0));
    observe(r as u64);
}
fn two_u8() {
    let v = sym(8) as u8;
    let r = add_two_zeroes_before_every_bit_u8(v);
    check!(r as u64 == spread(v as u64, 8, 3, 0));
    observe(r as u64);
}
fn two_u32() {
    let v = sym(32) as u32;
    let r = add_two_zeroes_before_every_bit_u32(v);
    check!(r == spread(v as u64, 21, 3, 0));
    check!(r == add_two_zeroes_before_every_bit_u32(v & 0x1f_ffff));
    observe(r);
}

pub fn table(v: &mut Table) {
    h!(v, "c19_before_u8", before_u8());
    h!(v, "c19_behind_u8", behind_u8());
    h!(v, "c19_merge_u8", merge_u8());
    h!(v, "c19_before_u16", before_u16());
    h!(v, "c19_two_u8", two_u8());
    h!(v, "c19_two_u32", two_u32());
}
