//! Allocator for the replay, which is dominated by small short-lived allocations: one free list
//! per size class and thread, memory is never returned.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

const CLASSES: usize = 65;
const MAX: usize = 1024;
const CHUNK: usize = 1 << 20;

struct Lists {
    free: [*mut u8; CLASSES],
    at: *mut u8,
    left: usize,
}
thread_local! {
    static L: UnsafeCell<Lists> = const { UnsafeCell::new(Lists { free: [std::ptr::null_mut(); CLASSES], at: std::ptr::null_mut(), left: 0 }) };
}
pub struct Pool;

#[inline]
fn class(l: &Layout) -> Option<usize> {
    if l.size() <= MAX && l.align() <= 16 { Some((l.size() + 15) / 16) } else { None }
}
unsafe impl GlobalAlloc for Pool {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(c) = class(&l) else { return System.alloc(l) };
        L.with(|x| {
            let x = &mut *x.get();
            let p = x.free[c];
            if !p.is_null() {
                x.free[c] = *(p as *mut *mut u8);
                return p;
            }
            let n = c.max(1) * 16;
            if x.left < n {
                x.at = System.alloc(Layout::from_size_align_unchecked(CHUNK, 16));
                if x.at.is_null() {
                    return x.at;
                }
                x.left = CHUNK;
            }
            let p = x.at;
            x.at = p.add(n);
            x.left -= n;
            p
        })
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some(c) = class(&l) else { return System.dealloc(p, l) };
        L.with(|x| {
            let x = &mut *x.get();
            *(p as *mut *mut u8) = x.free[c];
            x.free[c] = p;
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let m = Layout::from_size_align_unchecked(n, l.align());
        match (class(&l), class(&m)) {
            (Some(a), Some(b)) if a == b => p,
            (None, None) => System.realloc(p, l, n),
            _ => {
                let q = self.alloc(m);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                q
            }
        }
    }
}
