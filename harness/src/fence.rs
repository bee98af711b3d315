//! Allocator for replays: while switched on, every block ends at an inaccessible page and freed
//! blocks stay inaccessible, so that an access outside a heap block faults.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Fence;
static ON: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

const LO: usize = 0x5000_0000_0000;
const HI: usize = 0x5100_0000_0000;
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(LO);

unsafe impl GlobalAlloc for Fence {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Ordering::Relaxed) {
            return System.alloc(l);
        }
        let pages = (l.size() + 4095) / 4096 * 4096;
        let base = NEXT.fetch_add(pages + 8192, Ordering::Relaxed);
        let m = mmap(base as *mut u8, pages + 8192, 0, 0x22 | 0x10, -1, 0);
        if m as usize != base {
            return System.alloc(l);
        }
        if pages > 0 {
            mprotect((base + 4096) as *mut u8, pages, 3);
        }
        let p = base + 4096 + pages - l.size();
        (p & !(l.align() - 1)) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a >= LO && a < HI {
            let pages = (l.size() + 4095) / 4096 * 4096;
            let start = (a + l.size() + 4095) / 4096 * 4096 - pages;
            if pages > 0 {
                mprotect(start as *mut u8, pages, 0);
            }
            return;
        }
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Fence = Fence;

pub fn on() {
    ON.store(true, Ordering::Relaxed);
}
pub fn off() {
    ON.store(false, Ordering::Relaxed);
}
