//! Free-list allocator for the (effectively single-threaded) engine: no locking, no trimming.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct A;
static mut FREE: [*mut u8; 80] = [std::ptr::null_mut(); 80];
static mut CUR: *mut u8 = std::ptr::null_mut();
static mut LEFT: usize = 0;
const CH: usize = 4 << 20;
#[inline] fn class(n: usize) -> (usize, usize) {
    if n <= 1024 { let c = (n + 15) / 16; let c = if c == 0 { 1 } else { c }; (c - 1, c * 16) }
    else { let b = n.next_power_of_two(); (64 + b.trailing_zeros() as usize - 11, b) }
}
unsafe impl GlobalAlloc for A {
    #[inline] unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = l.size(); if n > 1 << 20 || l.align() > 16 { return System.alloc(l); }
        let (c, sz) = class(n);
        let p = FREE[c];
        if !p.is_null() { FREE[c] = *(p as *mut *mut u8); return p; }
        if LEFT < sz { CUR = System.alloc(Layout::from_size_align_unchecked(CH, 16)); if CUR.is_null() { return CUR; } LEFT = CH; }
        let r = CUR; CUR = CUR.add(sz); LEFT -= sz; r
    }
    #[inline] unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = l.size(); if n > 1 << 20 || l.align() > 16 { return System.dealloc(p, l); }
        let (c, _) = class(n);
        *(p as *mut *mut u8) = FREE[c]; FREE[c] = p;
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.size() <= 1 << 20 && new <= 1 << 20 && l.align() <= 16 && class(l.size()).0 == class(new).0 { return p; }
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(new)); self.dealloc(p, l); }
        q
    }
}
