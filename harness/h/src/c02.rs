//! C02: growable sinks append exactly; allocation failure is an error.
use crate::sym;
use alloc::{vec::Vec, collections::VecDeque};
use ser_write::{SerWrite, SerError};

const CAP: usize = 64;
struct Model { b: [u8; CAP], n: usize }
impl Model {
    fn put(&mut self, s: &[u8]) { self.b[self.n..self.n + s.len()].copy_from_slice(s); self.n += s.len() }
}
/// lengths around the growth points of the containers used here
const LENS: [usize; 6] = [0, 1, 3, 5, 8, 17];
const OPS: usize = if cfg!(feature = "thorough") { 4 } else { 3 };

/// histories of writes; before each one the allocator may be limited
fn history<W: SerWrite<Error = SerError>>(w: &mut W, m: &mut Model, fail: bool, same: &dyn Fn(&W, &[u8]) -> bool) {
    for _ in 0..OPS {
        let limit = if fail { [usize::MAX, 0, 12, 20][sym::pick(4)] } else { usize::MAX };
        let mut src = [0u8; 17];
        let kind = sym::pick(3);
        let n = if kind == 1 { 1 } else { LENS[sym::pick(LENS.len())] };
        sym::fill(&mut src[..n]);
        if kind == 2 { for b in &src[..n] { sym::assume(*b < 0x80) } }
        sym::alloc_limit(limit);
        let r = match kind {
            0 => w.write(&src[..n]),
            1 => w.write_byte(src[0]),
            _ => w.write_str(unsafe { core::str::from_utf8_unchecked(&src[..n]) }),
        };
        sym::alloc_limit(usize::MAX);
        match r {
            Ok(()) => { m.put(&src[..n]); if n > 8 { cover!() } }
            Err(SerError::BufferFull) => { check!(limit != usize::MAX && n > 0); cover!() }
            Err(_) => check!(false),
        }
        check!(same(w, &m.b[..m.n]));
    }
}
/// two writes of up to hundreds of bytes
fn far<W: SerWrite<Error = SerError>>(w: &mut W, same: &dyn Fn(&W, &[u8]) -> bool) {
    const L: [usize; 10] = [1, 16, 31, 33, 64, 65, 127, 129, 256, 300];
    let src = sym::bytes::<600>();
    let mut n = 0;
    for k in 0..2 {
        let l = L[sym::pick(10)];
        let limit = if k == 0 { [usize::MAX, 32][sym::pick(2)] } else { [usize::MAX, 0, 8, 100, 300][sym::pick(5)] };
        let b = &src[n..n + l];
        let text = sym::flip();
        if text { for x in b { sym::assume(*x < 0x80) } }
        sym::alloc_limit(limit);
        let r = if text { w.write_str(unsafe { core::str::from_utf8_unchecked(b) }) } else { w.write(b) };
        sym::alloc_limit(usize::MAX);
        match r {
            Ok(()) => { n += l; cover!() }
            Err(e) => { check!(e == SerError::BufferFull && limit != usize::MAX); cover!() }
        }
        check!(same(w, &src[..n]));
    }
}
fn empty() -> Model { Model { b: [0; CAP], n: 0 } }
fn deque_same(w: &VecDeque<u8>, m: &[u8]) -> bool {
    let (a, b) = w.as_slices();
    a.len() + b.len() == m.len() && sym::eq(a, &m[..a.len()]) && sym::eq(b, &m[a.len()..])
}
/// a slice of any length the language allows, never read when refused
fn huge() -> &'static [u8] {
    let n = sym::u64() as usize;
    sym::assume(n > 1 << 20 && n <= isize::MAX as usize);
    unsafe { core::slice::from_raw_parts(core::ptr::NonNull::<u8>::dangling().as_ptr(), n) }
}
fn refuses_huge<W: SerWrite<Error = SerError>>(w: &mut W, same: &dyn Fn(&W, &[u8]) -> bool) {
    let src = sym::bytes::<3>();
    let n = sym::pick(4);
    check!(w.write(&src[..n]).is_ok());
    sym::alloc_limit(1 << 20);
    check!(w.write(huge()) == Err(SerError::BufferFull));
    sym::alloc_limit(usize::MAX);
    check!(same(w, &src[..n]));
    check!(w.write_byte(src[0]).is_ok());
    let mut e = [0u8; 4];
    e[..n].copy_from_slice(&src[..n]);
    e[n] = src[0];
    check!(same(w, &e[..n + 1]));
    cover!();
}

harnesses! {
    fn h_vec() { history(&mut Vec::new(), &mut empty(), false, &|w: &Vec<u8>, m| sym::eq(w, m)) }
    fn h_vec_fail() { history(&mut Vec::new(), &mut empty(), true, &|w: &Vec<u8>, m| sym::eq(w, m)) }
    fn h_vec_far() { far(&mut Vec::new(), &|w: &Vec<u8>, m| sym::eq(w, m)) }
    fn h_deque_far() { far(&mut VecDeque::new(), &deque_same) }
    #[cfg(feature = "smallvec")]
    fn h_smallvec_far() { far(&mut smallvec::SmallVec::<[u8; 32]>::new(), &|w: &smallvec::SmallVec<[u8; 32]>, m| sym::eq(w, m)) }
    #[cfg(feature = "foreign")]
    fn h_tinyvec_far() { far(&mut tinyvec::TinyVec::<[u8; 32]>::new(), &|w: &tinyvec::TinyVec<[u8; 32]>, m| sym::eq(w, m)) }
    fn h_vec_huge() { refuses_huge(&mut Vec::new(), &|w: &Vec<u8>, m| sym::eq(w, m)) }
    /// content that was there before is kept
    fn h_vec_prefilled() {
        let a = sym::bytes::<5>();
        let mut w = Vec::with_capacity(6);
        w.extend_from_slice(&a);
        let mut m = empty();
        m.put(&a);
        history(&mut w, &mut m, true, &|w: &Vec<u8>, m| sym::eq(w, m));
        cover!();
    }
    fn h_deque_fail() { history(&mut VecDeque::new(), &mut empty(), true, &deque_same) }
    fn h_deque_huge() { refuses_huge(&mut VecDeque::new(), &deque_same) }
    /// a ring buffer whose content wraps around
    fn h_deque_wrapped() {
        let a = sym::bytes::<6>();
        let mut w: VecDeque<u8> = VecDeque::with_capacity(8);
        let k = sym::pick(7);
        for i in 0..6 { w.push_back(i) }
        for _ in 0..k { w.pop_front(); }
        for b in &a[..k] { w.push_back(*b) }
        let mut m = empty();
        for i in k..6 { m.put(&[i as u8]) }
        m.put(&a[..k]);
        if w.as_slices().1.len() > 0 { cover!() }
        history(&mut w, &mut m, false, &deque_same);
    }
    #[cfg(feature = "smallvec")]
    fn h_smallvec_fail() { history(&mut smallvec::SmallVec::<[u8; 4]>::new(), &mut empty(), true, &|w: &smallvec::SmallVec<[u8; 4]>, m| sym::eq(w, m)) }
    #[cfg(feature = "smallvec")]
    fn h_smallvec_huge() { refuses_huge(&mut smallvec::SmallVec::<[u8; 4]>::new(), &|w: &smallvec::SmallVec<[u8; 4]>, m| sym::eq(w, m)) }
    #[cfg(feature = "foreign")]
    fn h_tinyvec_fail() { history(&mut tinyvec::TinyVec::<[u8; 4]>::new(), &mut empty(), true, &|w: &tinyvec::TinyVec<[u8; 4]>, m| sym::eq(w, m)) }
    #[cfg(feature = "foreign")]
    fn h_tinyvec_huge() { refuses_huge(&mut tinyvec::TinyVec::<[u8; 4]>::new(), &|w: &tinyvec::TinyVec<[u8; 4]>, m| sym::eq(w, m)) }
    #[cfg(feature = "std")]
    fn h_cursor_vec() { history(&mut std::io::Cursor::new(Vec::new()), &mut empty(), false, &|w: &std::io::Cursor<Vec<u8>>, m| sym::eq(w.get_ref(), m) && w.position() == m.len() as u64) }
    #[cfg(feature = "std")]
    fn h_cursor_slice() {
        let mut b = [0u8; 9];
        let src = sym::bytes::<10>();
        let mut w = std::io::Cursor::new(&mut b[..]);
        let mut n = 0;
        for _ in 0..2 {
            let k = sym::pick(7);
            if n + k > 10 { sym::assume(false) }
            match w.write(&src[n..n + k]) {
                Ok(()) => { check!(n + k <= 9); n += k; check!(sym::eq(&w.get_ref()[..n], &src[..n]) && w.position() == n as u64) }
                Err(e) => { check!(n + k > 9 && e == SerError::BufferFull); check!(sym::eq(&w.get_ref()[..n], &src[..n])); cover!(); return }
            }
        }
        cover!();
    }
}
