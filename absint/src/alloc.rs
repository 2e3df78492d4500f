//! A size-class allocator for the (single) worker thread: the engine allocates many small objects.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Pool { lock: AtomicBool, s: UnsafeCell<S> }
struct S { free: [*mut u8; 33], cur: *mut u8, left: usize }
unsafe impl Sync for Pool {}
impl Pool { pub const fn new() -> Pool { Pool { lock: AtomicBool::new(false), s: UnsafeCell::new(S { free: [std::ptr::null_mut(); 33], cur: std::ptr::null_mut(), left: 0 }) } } }
const CHUNK: usize = 1 << 20;
unsafe impl GlobalAlloc for Pool {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 512 || l.align() > 16 || l.size() == 0 { return System.alloc(l); }
        let c = (l.size() + 15) / 16;
        while self.lock.swap(true, Ordering::Acquire) { std::hint::spin_loop(); }
        let s = &mut *self.s.get();
        let p = s.free[c];
        let r = if !p.is_null() { s.free[c] = *(p as *mut *mut u8); p } else {
            if s.left < c * 16 { s.cur = System.alloc(Layout::from_size_align_unchecked(CHUNK, 16)); s.left = CHUNK; }
            let r = s.cur; s.cur = r.add(c * 16); s.left -= c * 16; r
        };
        self.lock.store(false, Ordering::Release);
        r
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > 512 || l.align() > 16 || l.size() == 0 { return System.dealloc(p, l); }
        let c = (l.size() + 15) / 16;
        while self.lock.swap(true, Ordering::Acquire) { std::hint::spin_loop(); }
        let s = &mut *self.s.get();
        *(p as *mut *mut u8) = s.free[c]; s.free[c] = p;
        self.lock.store(false, Ordering::Release);
    }
}
