//! C14: raw bits and the fast 3D path agree with the general encoding.
use crate::ix::*;
use crate::sx::*;

macro_rules! raws {
    ($f:ident, $s:ident, $b:ty) => {
        fn $f() {
            const N: usize = <$b>::BITS as usize;
            let bits = sym128() as $b;
            let i = F3::<$b>::from_raw_index(bits);
            check!(i.depth() == N / 3);
            let mut c = Vec::new();
            for l in 0..N / 3 {
                let want = (bits >> (N - 3 * (l + 1))) as u64 & 7;
                check!(i.get(l).ix() as u64 == want);
                c.push(Octant::mk(want));
            }
            check!(i == ok(F3::<$b>::build(&c)));
            same_as_built(&i, &c, line!());
            // the bits that hold no cell do not matter
            let rest = (1 as $b << (N % 3)) - 1;
            check!(i == F3::<$b>::from_raw_index(bits & !rest));
            check!(i == F3::<$b>::from_raw_index(bits | rest));
            cell_obs(&i);
        }
        fn $s() {
            const N: usize = <$b>::BITS as usize;
            let d = choose(N / 3);
            let bits = sym128() as $b;
            let i = S3::<$b>::from_raw_index(bits, d as u8);
            check!(i.depth() == d);
            let mut c = Vec::new();
            for l in 0..d {
                let want = (bits >> (N - 3 * (l + 1))) as u64 & 7;
                check!(i.get(l).ix() as u64 == want);
                c.push(Octant::mk(want));
            }
            check!(i == ok(S3::<$b>::build(&c)));
            same_as_built(&i, &c, line!());
            let j = S3::<$b>::from_raw_index(sym128() as $b, d as u8);
            let mut same = true;
            for l in 0..d {
                same &= j.get(l).ix() == c[l].ix();
            }
            check!((i == j) == same);
            cell_obs(&i);
        }
    };
}
raws!(raw_f8, raw_s8, u8);
raws!(raw_f16, raw_s16, u16);
raws!(raw_f32, raw_s32, u32);
raws!(raw_f64, raw_s64, u64);
raws!(raw_f128, raw_s128, u128);
raws!(raw_fus, raw_sus, usize);

fn fast() {
    let ord = choose(5);
    let co = [sym(64) as usize, sym(64) as usize, sym(64) as usize];
    let i = F3::<u64>::from_grid_index_fast(g3::pack(co), g3::ordering(ord));
    let j = F3::<u64>::from_grid_index(g3::pack(co), g3::ordering(ord));
    check!(i == j);
    let c = crate::ix::interleaved::<F3<u64>>(co, 21, ord);
    same_as_built(&i, &c, line!());
    same_cells(&j, &c, line!());
    cell_obs(&i);
}

pub fn table(v: &mut Table) {
    h!(v, "c14_raw_f3_8", raw_f8());
    h!(v, "c14_raw_s3_8", raw_s8());
    h!(v, "c14_raw_f3_16", raw_f16());
    h!(v, "c14_raw_s3_16", raw_s16());
    h!(v, "c14_raw_f3_32", raw_f32());
    h!(v, "c14_raw_s3_32", raw_s32());
    h!(v, "c14_raw_f3_64", raw_f64());
    h!(v, "c14_raw_s3_64", raw_s64());
    h!(v, "c14_raw_f3_128", raw_f128());
    h!(v, "c14_raw_s3_128", raw_s128());
    h!(v, "c14_raw_f3_us", raw_fus());
    h!(v, "c14_raw_s3_us", raw_sus());
    h!(v, "c14_fast", fast());
}
