//! The interface to the symbolic engine (and to the native replayer).
extern "C-unwind" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_emit(v: u64);
    fn sym_concretize(v: u64) -> u64;
    /// `v`, with the assumption already made that it is at most `hi`
    fn sym_known(v: u8, hi: u8) -> u8;
    fn sym_eq(a: *const u8, b: *const u8, n: usize) -> bool;
    /// allocator control, implemented by heng and hnat: requests for more
    /// than `limit` bytes fail from now on
    fn x_alloc_limit(limit: usize);
}

/// `N` unconstrained bytes
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N) }
    b
}
#[inline(always)]
pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
#[inline(always)]
pub fn u8() -> u8 { bytes::<1>()[0] }
#[inline(always)]
pub fn u16() -> u16 { u16::from_le_bytes(bytes()) }
#[inline(always)]
pub fn u32() -> u32 { u32::from_le_bytes(bytes()) }
#[inline(always)]
pub fn u64() -> u64 { u64::from_le_bytes(bytes()) }
#[inline(always)]
pub fn u128() -> u128 { u128::from_le_bytes(bytes()) }
#[inline(always)]
pub fn boolean() -> bool { let v = u8(); assume(v < 2); v == 1 }
#[inline(always)]
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
#[inline(always)]
pub fn assert_at(c: bool, id: u32) { unsafe { sym_assert(c, id) } }
#[inline(always)]
pub fn cover_at(id: u32) { unsafe { sym_cover(id) } }
#[inline(always)]
pub fn emit(v: u64) { unsafe { sym_emit(v) } }
/// one concrete value per path; all feasible values are explored
#[inline(always)]
pub fn concretize(v: u64) -> u64 { unsafe { sym_concretize(v) } }
/// a concrete choice `0..n`, every choice explored
#[inline(always)]
pub fn pick(n: usize) -> usize {
    let v = u8();
    assume((v as usize) < n);
    concretize(v as u64) as usize
}
/// a concrete boolean, both explored
#[inline(always)]
pub fn flip() -> bool { pick(2) == 1 }
/// a decimal digit character `lo..=hi`
#[inline(always)]
pub fn digit(lo: u8, hi: u8) -> u8 { let v = u8(); assume(v <= hi - lo); b'0' + lo + unsafe { sym_known(v, hi - lo) } }
/// compare without branching
#[inline(always)]
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sym_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
pub fn emit_bytes(b: &[u8]) {
    emit(b.len() as u64);
    for c in b.chunks(8) {
        let mut v = 0u64;
        let mut i = 0;
        while i < c.len() { v |= (c[i] as u64) << (8 * i); i += 1; }
        emit(v);
    }
}
pub fn alloc_limit(n: usize) { unsafe { x_alloc_limit(n) } }

#[macro_export]
macro_rules! check { ($c:expr) => { $crate::sym::assert_at($c, line!()) } }
/// Every `cover!()` in a property's module must be reached in some harness run
#[macro_export]
macro_rules! cover { () => { $crate::sym::cover_at(line!() * 1000 + column!()) } }
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C-unwind" fn $name() $body)*
        pub const LIST: &[(&str, extern "C-unwind" fn())] = &[
            $($(#[$m])* (stringify!($name), $name),)*
        ];
    };
}
