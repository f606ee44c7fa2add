#![no_std]
use core::alloc::{GlobalAlloc, Layout};
pub use h::*;

extern "C" {
    fn sym_panic(file: *const u8, len: usize, line: u32) -> !;
    fn sym_alloc(size: usize, align: usize) -> *mut u8;
    fn sym_free(p: *mut u8);
    fn sym_realloc(p: *mut u8, n: usize) -> *mut u8;
}

#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    match i.location() {
        Some(l) => unsafe { sym_panic(l.file().as_ptr(), l.file().len(), l.line()) },
        None => unsafe { sym_panic(b"?".as_ptr(), 1, 0) },
    }
}

static mut LIMIT: usize = usize::MAX;
#[no_mangle]
pub extern "C" fn x_alloc_limit(n: usize) { unsafe { LIMIT = n } }

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT { return core::ptr::null_mut() }
        sym_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) { sym_free(p) }
    unsafe fn realloc(&self, p: *mut u8, _: Layout, n: usize) -> *mut u8 {
        if n > LIMIT { return core::ptr::null_mut() }
        sym_realloc(p, n)
    }
}
#[global_allocator]
static G: A = A;
