//! Counts the bytes that are allocated.
#[cfg(all(feature = "c01", not(miri)))]
mod on {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
    static LIVE: AtomicI64 = AtomicI64::new(0);
    struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    pub fn live() -> i64 {
        LIVE.load(Relaxed)
    }
}
#[cfg(all(feature = "c01", not(miri)))]
pub use on::live;
#[cfg(not(all(feature = "c01", not(miri))))]
pub fn live() -> i64 {
    0
}
