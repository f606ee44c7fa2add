//! Bitcode crate for the `std` feature: std's own panic machinery is cut off
//! by the engine at `rust_begin_unwind`.
use std::alloc::{GlobalAlloc, Layout};
pub use h::*;

extern "C" {
    fn sym_alloc(size: usize, align: usize) -> *mut u8;
    fn sym_free(p: *mut u8);
    fn sym_realloc(p: *mut u8, n: usize) -> *mut u8;
}
static mut LIMIT: usize = usize::MAX;
#[no_mangle]
pub extern "C" fn x_alloc_limit(n: usize) { unsafe { LIMIT = n } }

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT { return core::ptr::null_mut() }
        sym_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) { sym_free(p) }
    unsafe fn realloc(&self, p: *mut u8, _: Layout, n: usize) -> *mut u8 {
        if n > LIMIT { return core::ptr::null_mut() }
        sym_realloc(p, n)
    }
}
#[global_allocator]
static G: A = A;
