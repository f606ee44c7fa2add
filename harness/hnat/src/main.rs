//! Native replayer: runs a harness of the real code on concrete inputs.
//!   hnat <harness> <hex>            one run, prints emitted values
//!   hnat --batch                    lines "<harness> <hex>" on stdin
//! exit: 0 held, 1 assertion failed, 2 input rejected by an assumption, 101 panic
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Relaxed) { return std::ptr::null_mut() }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT.load(Relaxed) { return std::ptr::null_mut() }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static G: A = A;
#[no_mangle]
pub extern "C" fn x_alloc_limit(n: usize) { LIMIT.store(n, Relaxed) }

#[derive(Default)]
struct St { input: Vec<u8>, pos: usize, emits: Vec<u64>, fail: Option<u32>, rejected: bool }
thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));
enum Stop { Rejected, Assert(u32) }

#[no_mangle]
pub unsafe extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for i in 0..n {
            let v = s.input.get(s.pos + i).copied().unwrap_or(0);
            *p.add(i) = v;
        }
        s.pos += n;
    })
}
#[no_mangle]
pub extern "C-unwind" fn sym_assume(c: bool) {
    if !c { LIMIT.store(usize::MAX, Relaxed); std::panic::resume_unwind(Box::new(Stop::Rejected)) }
}
#[no_mangle]
pub extern "C-unwind" fn sym_assert(c: bool, id: u32) {
    if !c { LIMIT.store(usize::MAX, Relaxed); std::panic::resume_unwind(Box::new(Stop::Assert(id))) }
}
#[no_mangle]
pub extern "C" fn sym_cover(_: u32) {}
#[no_mangle]
pub extern "C" fn sym_emit(v: u64) {
    let l = LIMIT.swap(usize::MAX, Relaxed);
    ST.with(|s| s.borrow_mut().emits.push(v));
    LIMIT.store(l, Relaxed);
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 { v }
#[no_mangle]
pub extern "C" fn sym_known(v: u8, _: u8) -> u8 { v }
#[no_mangle]
pub unsafe extern "C" fn sym_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
}

fn run(name: &str, hex: &str) -> (i32, String) {
    let f = match h::all().iter().find(|x| x.0 == name) {
        Some(x) => x.1,
        None => return (3, format!("no harness {name}")),
    };
    let input: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    ST.with(|s| *s.borrow_mut() = St { input, ..St::default() });
    LIMIT.store(usize::MAX, Relaxed);
    let r = std::panic::catch_unwind(|| f());
    LIMIT.store(usize::MAX, Relaxed);
    let emits = ST.with(|s| s.borrow().emits.iter().map(|v| format!("{v:x}")).collect::<Vec<_>>().join(","));
    match r {
        Ok(()) => (0, format!("ok emits={emits}")),
        Err(e) => match e.downcast::<Stop>() {
            Ok(s) => match *s {
                Stop::Rejected => (2, "rejected by assumption".into()),
                Stop::Assert(id) => (1, format!("assertion at line {id} failed emits={emits}")),
            },
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                (101, format!("panic: {}", m.replace('\n', " ")))
            }
        },
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // assertion failures unwind through extern "C" harness functions, which
    // is why these are run in a child thread with a generous stack only
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        if a.get(1).map(|s| s == "--batch").unwrap_or(false) {
            std::panic::set_hook(Box::new(|_| {}));
            let out = std::io::stdout();
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let mut it = l.split(' ');
                let (n, x) = (it.next().unwrap(), it.next().unwrap_or(""));
                let (c, m) = run(n, x);
                writeln!(out.lock(), "{c} {m}").unwrap();
            }
            0
        } else {
            let (c, m) = run(&a[1], a.get(2).map(|s| &s[..]).unwrap_or(""));
            println!("{m}");
            c
        }
    }).unwrap();
    std::process::exit(h.join().unwrap_or(101));
}
