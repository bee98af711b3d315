//! Interface between the harnesses and whatever runs them: the symbolic executor
//! (which gives the `sx_*` symbols their meaning) or the native replayer.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sx_sym(bits: u32) -> u64;
        fn sx_assume(c: bool);
        fn sx_assert(c: bool, id: u32);
        fn sx_fail(id: u32);
        fn sx_split(v: u64) -> u64;
        fn sx_expect_panic(id: u32);
        fn sx_watch(p: *const u8, n: usize);
        fn sx_observe(v: u64);
        fn sx_tier() -> u32;
    }
    pub fn sym(bits: u32) -> u64 {
        unsafe { sx_sym(bits) }
    }
    pub fn assume(c: bool) {
        unsafe { sx_assume(c) }
    }
    pub fn assert(c: bool, id: u32) {
        unsafe { sx_assert(c, id) }
    }
    pub fn split(v: u64) -> u64 {
        unsafe { sx_split(v) }
    }
    pub fn observe(v: u64) {
        unsafe { sx_observe(v) }
    }
    pub fn tier() -> u32 {
        unsafe { sx_tier() }
    }
    /// `f` must panic, leaving the object `x` as it is
    pub fn must_panic<T: Clone + PartialEq>(x: &mut T, id: u32, f: impl FnOnce(&mut T)) {
        unsafe {
            sx_watch(x as *const T as *const u8, std::mem::size_of::<T>());
            sx_expect_panic(id);
            f(x);
            sx_fail(id);
        }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        pub static INPUTS: RefCell<Vec<u64>> = RefCell::new(Vec::new());
        pub static OBS: RefCell<Vec<u64>> = RefCell::new(Vec::new());
        pub static QUIET: RefCell<bool> = RefCell::new(false);
        pub static TIER: RefCell<u32> = RefCell::new(0);
    }
    pub fn finish(status: &str) -> ! {
        OBS.with(|o| {
            let s: Vec<String> = o.borrow().iter().map(|v| v.to_string()).collect();
            println!("OBS {}", s.join(" "));
        });
        println!("STATUS {}", status);
        std::process::exit(0)
    }
    pub fn sym(bits: u32) -> u64 {
        let v = INPUTS.with(|i| {
            let mut i = i.borrow_mut();
            if i.is_empty() { None } else { Some(i.remove(0)) }
        });
        match v {
            Some(v) if bits >= 64 || v >> bits == 0 => v,
            Some(_) => finish("input-range"),
            None => finish("input-exhausted"),
        }
    }
    pub fn assume(c: bool) {
        if !c {
            finish("assume")
        }
    }
    pub fn assert(c: bool, id: u32) {
        if !c {
            finish(&format!("assert {}", id))
        }
    }
    pub fn split(v: u64) -> u64 {
        v
    }
    pub fn observe(v: u64) {
        OBS.with(|o| o.borrow_mut().push(v))
    }
    pub fn tier() -> u32 {
        TIER.with(|t| *t.borrow())
    }
    pub fn must_panic<T: Clone + PartialEq>(x: &mut T, id: u32, f: impl FnOnce(&mut T)) {
        QUIET.with(|q| *q.borrow_mut() = true);
        let n = std::mem::size_of::<T>();
        let before: Vec<u8> = unsafe { std::slice::from_raw_parts(x as *const T as *const u8, n).to_vec() };
        let old = x.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(x)));
        QUIET.with(|q| *q.borrow_mut() = false);
        let after: Vec<u8> = unsafe { std::slice::from_raw_parts(x as *const T as *const u8, n).to_vec() };
        if r.is_ok() || before != after || !(*x == old) {
            finish(&format!("assert {}", id))
        }
        finish("panic-expected")
    }
}

pub use imp::*;

pub fn flag() -> bool {
    sym(1) != 0
}

pub fn sym128() -> u128 {
    let lo = sym(64) as u128;
    let hi = sym(64) as u128;
    lo | hi << 64
}

/// a value in 0..=max, made concrete by a complete case split
pub fn choose(max: usize) -> usize {
    let bits = 64 - (max as u64).leading_zeros();
    if bits == 0 {
        return split(0) as usize;
    }
    let v = sym(bits);
    assume(v <= max as u64);
    split(v) as usize
}

/// a symbolic value in 0..=max (not split)
pub fn upto(max: usize) -> usize {
    let bits = 64 - (max as u64).leading_zeros();
    if bits == 0 {
        return 0;
    }
    let v = sym(bits);
    assume(v <= max as u64);
    v as usize
}

/// one element of a table of sizes, by a complete case split
pub fn choose_of(tab: &[usize]) -> usize {
    tab[choose(tab.len() - 1)]
}

#[macro_export]
macro_rules! check {
    ($c:expr) => {
        $crate::sx::assert($c, line!())
    };
}

/// one harness entry point: exported for the executor, listed for the replayer
#[macro_export]
macro_rules! h {
    ($v:ident, $name:expr, $e:expr) => {{
        #[export_name = $name]
        pub extern "C" fn entry() {
            $e
        }
        $v.push(($name, entry as extern "C" fn()));
    }};
}
pub type Table = Vec<(&'static str, extern "C" fn())>;

/// the same harness for a list of types
#[macro_export]
macro_rules! on {
    ($v:ident, $pre:literal, $i:ident => $e:expr; $($sfx:literal : $t:ty),* $(,)?) => {
        $({
            type $i = $t;
            $crate::h!($v, concat!($pre, "_", $sfx), $e);
        })*
    };
}
#[macro_export]
macro_rules! fixed {
    ($v:ident, $pre:literal, $i:ident => $e:expr) => {
        $crate::on!($v, $pre, $i => $e;
            "f2_8": F2<u8>, "f2_16": F2<u16>, "f2_32": F2<u32>, "f2_64": F2<u64>, "f2_128": F2<u128>,
            "f3_8": F3<u8>, "f3_16": F3<u16>, "f3_32": F3<u32>, "f3_64": F3<u64>, "f3_128": F3<u128>,
            "f2_us": F2<usize>, "f3_us": F3<usize>);
    };
}
#[macro_export]
macro_rules! stat {
    ($v:ident, $pre:literal, $i:ident => $e:expr) => {
        $crate::on!($v, $pre, $i => $e;
            "s2_8": S2<u8>, "s2_16": S2<u16>, "s2_32": S2<u32>, "s2_64": S2<u64>, "s2_128": S2<u128>,
            "s3_8": S3<u8>, "s3_16": S3<u16>, "s3_32": S3<u32>, "s3_64": S3<u64>, "s3_128": S3<u128>,
            "s2_us": S2<usize>, "s3_us": S3<usize>);
    };
}
#[macro_export]
macro_rules! dynm {
    ($v:ident, $pre:literal, $i:ident => $e:expr) => {
        $crate::on!($v, $pre, $i => $e; "d2": D2, "d3": D3);
    };
}
#[macro_export]
macro_rules! vari {
    ($v:ident, $pre:literal, $i:ident => $e:expr) => {
        $crate::stat!($v, $pre, $i => $e);
        $crate::dynm!($v, $pre, $i => $e);
    };
}
#[macro_export]
macro_rules! all {
    ($v:ident, $pre:literal, $i:ident => $e:expr) => {
        $crate::fixed!($v, $pre, $i => $e);
        $crate::stat!($v, $pre, $i => $e);
        $crate::dynm!($v, $pre, $i => $e);
    };
}
/// every family (dimension and width) of fixed, static and dynamic index types
#[macro_export]
macro_rules! fams {
    ($v:ident, $pre:literal, $i:ident => $e:expr) => {
        $crate::on!($v, $pre, $i => $e;
            "2_8": Fam2<u8>, "2_16": Fam2<u16>, "2_32": Fam2<u32>, "2_64": Fam2<u64>, "2_128": Fam2<u128>,
            "3_8": Fam3<u8>, "3_16": Fam3<u16>, "3_32": Fam3<u32>, "3_64": Fam3<u64>, "3_128": Fam3<u128>,
            "2_us": Fam2<usize>, "3_us": Fam3<usize>);
    };
}
