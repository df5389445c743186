//! Delay injection: while switched on, allocations made by any thread now and then yield, spin or
//! sleep, so that the threads of the code under test interleave in many more ways.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};

/// one in this many allocations is delayed (0: off)
static RATE: AtomicU32 = AtomicU32::new(0);
static YIELDS: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(1);
thread_local! { static ST: Cell<u64> = const { Cell::new(0) }; }
pub struct Delay;
#[inline(never)]
fn maybe(rate: u32) {
    let _ = ST.try_with(|s| {
        let mut x = s.get();
        if x == 0 {
            x = SEED.fetch_add(0x9e3779b97f4a7c15, Relaxed) | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        if (x >> 20) % rate as u64 == 0 {
            YIELDS.fetch_add(1, Relaxed);
            match (x >> 50) % 16 {
                0 => std::thread::sleep(std::time::Duration::from_micros(30)),
                1..=5 => {
                    for _ in 0..(x >> 40) % 400 {
                        std::hint::spin_loop();
                    }
                }
                _ => std::thread::yield_now(),
            }
        }
    });
}
// SAFETY: everything is passed on to the system allocator
unsafe impl GlobalAlloc for Delay {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let r = RATE.load(Relaxed);
        if r != 0 {
            maybe(r);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
}
pub fn on(rate: u32, seed: u64) {
    SEED.store(seed, Relaxed);
    RATE.store(rate, Relaxed);
}
pub fn injected() -> u64 {
    YIELDS.load(Relaxed)
}
