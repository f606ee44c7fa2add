//! C03: out of space never yields silent truncation; sink errors come back.
use crate::node::{self, *};
use crate::node::K::*;
use crate::sym;
use crate::util::Out;
use ser_write::{SerWrite, SerError, SliceWriter};
use ser_write_json::ser as js;
use ser_write_msgpack::ser as mp;

pub const LEAVES: &[K] = &[U8, Str, Bytes];
pub const ALL: &[K] = &[
    Unit, UnitStruct, Bool, U8, U16, I8, I32, U64, Char, Str, Bytes, Nil, UnitVariant,
    Some, NewtypeStruct, NewtypeVariant, Seq, Tuple, TupleStruct, TupleVariant, Map, Struct, StructVariant,
];
const NESTED: &[K] = &[U8, Str, Seq, Map, Struct];
pub fn opts() -> Opts<'static> {
    Opts {
        kinds: if cfg!(feature = "thorough") { &[ALL, NESTED, &[I8]] } else { &[ALL, LEAVES] },
        keys: &[Str, U8], max_kids: 2, str_max: 1, small_ints: true, skips: false, plain: cfg!(feature = "thorough"),
    }
}
const BIG: usize = 96;

/// A sink whose `at`-th call fails with a given error; it would accept later calls.
struct Flaky { out: Out<BIG>, at: usize, calls: usize, err: u8, extra: bool }
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
struct E(u8);
impl core::fmt::Display for E { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("E") } }
impl SerWrite for Flaky {
    type Error = E;
    fn write(&mut self, b: &[u8]) -> Result<(), E> {
        let c = self.calls;
        self.calls += 1;
        if c == self.at { return Err(E(self.err)) }
        if c > self.at { self.extra = true }
        let _ = self.out.write(b);
        Ok(())
    }
}
impl Flaky {
    fn new(at: usize) -> Self { Flaky { out: Out::new(), at, calls: 0, err: sym::u8(), extra: false } }
}

/// the format and flavour under check: serialize `x` with `$w` as the sink
macro_rules! formats {
    ($($name:ident $f:path, $e:ident;)*) => {$(
        mod $name {
            use super::*;
            pub fn room() {
                let mut t = Tree::new();
                let r = gen(&mut t, 0, &opts());
                let x = t.at(r);
                let mut full = Out::<BIG>::new();
                check!($f(&mut full, &x).is_ok());
                let full = full.as_slice();
                let cap = sym::pick(full.len() + 2);
                let mut back = [0u8; BIG];
                let mut w = SliceWriter::new(&mut back[..cap]);
                let res = $f(&mut w, &x);
                sym::emit_bytes(w.as_ref());
                match res {
                    Ok(()) => { check!(cap >= full.len()); check!(sym::eq(w.as_ref(), full)) }
                    Err(e) => {
                        check!(cap < full.len());
                        check!(e == $e::Error::Writer(SerError::BufferFull));
                        check!(w.len() < full.len() && w.len() <= cap && sym::eq(w.as_ref(), &full[..w.len()]));
                    }
                }
            }
            pub fn flaky() {
                let mut t = Tree::new();
                let r = gen(&mut t, 0, &opts());
                let x = t.at(r);
                let mut w = Flaky::new(usize::MAX);
                check!($f(&mut w, &x).is_ok());
                let calls = w.calls;
                let at = sym::pick(calls);
                let full = w.out;
                let mut w = Flaky::new(at);
                let err = E(w.err);
                match $f(&mut w, &x) {
                    Ok(()) => check!(false),
                    Err(e) => check!(e == $e::Error::Writer(err)),
                }
                // nothing is written past the failure
                check!(!w.extra);
                check!(w.out.len <= full.len && sym::eq(w.out.as_slice(), &full.as_slice()[..w.out.len]));
            }
        }
    )*}
}
formats! {
    json_array js::to_writer, js;
    json_hex js::to_writer_hex_bytes, js;
    json_base64 js::to_writer_base64_bytes, js;
    json_pass js::to_writer_pass_bytes, js;
    mp_compact mp::to_writer_compact, mp;
    mp_index mp::to_writer, mp;
    mp_named mp::to_writer_named, mp;
}
struct Half<'a>(&'a str, usize);
impl<'a> serde::Serialize for Half<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) }
}
impl<'a> core::fmt::Display for Half<'a> {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str(&self.0[..self.1])?; f.write_str(&self.0[self.1..]) }
}
/// text formatted through Display: an error as soon as it does not fit
macro_rules! display {
    ($f:path) => {{
        let b = sym::bytes::<3>();
        for x in &b { sym::assume(*x < 0x80) }
        let x = Half(unsafe { core::str::from_utf8_unchecked(&b) }, sym::pick(4));
        let mut full = Out::<BIG>::new();
        check!($f(&mut full, &x).is_ok());
        let full = full.as_slice();
        let cap = sym::pick(full.len() + 2);
        let mut back = [0u8; BIG];
        let mut w = SliceWriter::new(&mut back[..cap]);
        match $f(&mut w, &x) {
            Ok(()) => check!(cap >= full.len() && sym::eq(w.as_ref(), full)),
            Err(_) => check!(cap < full.len() && w.len() < full.len() && sym::eq(w.as_ref(), &full[..w.len()])),
        }
    }};
}
/// floats go to the sink as one token
macro_rules! float {
    ($f:path, $full:expr, $v:expr) => {{
        let full: &[u8] = $full;
        let cap = sym::pick(full.len() + 2);
        let mut back = [0u8; 16];
        let mut w = SliceWriter::new(&mut back[..cap]);
        match $f(&mut w, &$v) {
            Ok(()) => check!(cap >= full.len() && sym::eq(w.as_ref(), full)),
            Err(_) => check!(cap < full.len() && w.len() < full.len() && sym::eq(w.as_ref(), &full[..w.len()])),
        }
    }};
}
/// large payloads: every capacity around the size of a payload of 300 bytes
fn fits() { cover!() }
fn too_small() { cover!() }
macro_rules! large {
    ($f:path, $v:expr) => {{
        let b = sym::bytes::<300>();
        for x in &b { sym::assume(*x >= b'a' && *x <= b'z') }
        let v = $v;
        let v = v(&b);
        let mut full = Out::<400>::new();
        check!($f(&mut full, &v).is_ok());
        let full = full.as_slice();
        let cap = [0, 1, 2, 3, 4, 255, 256, 299, 300, full.len() - 1, full.len(), full.len() + 1][sym::pick(12)];
        let mut back = [0u8; 400];
        let mut w = SliceWriter::new(&mut back[..cap]);
        match $f(&mut w, &v) {
            Ok(()) => { check!(cap >= full.len() && sym::eq(w.as_ref(), full)); fits() }
            Err(_) => { check!(cap < full.len() && w.len() < full.len() && sym::eq(w.as_ref(), &full[..w.len()])); too_small() }
        }
    }};
}
/// payloads of 20 to 40 bytes with one arbitrary byte: every capacity, every failing call
fn mid(f: &dyn Fn(&mut Out<400>, &str, bool) -> bool, s: &dyn Fn(&mut SliceWriter, &str, bool) -> bool, k: &dyn Fn(&mut Sink, &str, bool) -> Option<E>) {
    let n = [20, 31, 33, 40][sym::pick(4)];
    let mut b = [b'q'; 40];
    b[[0, 7, n / 2, n - 1][sym::pick(4)]] = b'\"';
    let c = sym::u8();
    sym::assume(c < 0x80);
    b[[1, 15, 16, n - 2][sym::pick(4)]] = c;
    let v = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    let bytes = sym::flip();
    let mut full = Out::<400>::new();
    check!(f(&mut full, v, bytes));
    let full = full.as_slice();
    if sym::flip() {
        let cap = sym::pick(full.len() + 1);
        let mut back = [0u8; 400];
        let mut w = SliceWriter::new(&mut back[..cap]);
        let ok = s(&mut w, v, bytes);
        check!(ok == (cap == full.len()));
        check!(w.len() <= full.len() && (ok == (w.len() == full.len())) && sym::eq(w.as_ref(), &full[..w.len()]));
        fits()
    } else {
        let mut w = Sink { out: Out::new(), at: usize::MAX, calls: 0, extra: false };
        check!(k(&mut w, v, bytes).is_none());
        let at = sym::pick(w.calls.min(200));
        let mut w = Sink { out: Out::new(), at, calls: 0, extra: false };
        check!(k(&mut w, v, bytes) == Option::Some(E(9)));
        check!(!w.extra && w.out.len <= full.len() && sym::eq(w.out.as_slice(), &full[..w.out.len]));
        too_small()
    }
}
struct Sink { out: Out<400>, at: usize, calls: usize, extra: bool }
impl SerWrite for Sink {
    type Error = E;
    fn write(&mut self, b: &[u8]) -> Result<(), E> {
        let c = self.calls;
        self.calls += 1;
        if c == self.at { return Err(E(9)) }
        if c > self.at { self.extra = true }
        let _ = self.out.write(b);
        Ok(())
    }
}
macro_rules! mid {
    ($f:path, $e:ident) => {{
        fn go<W: SerWrite>(w: &mut W, v: &str, bytes: bool) -> Result<(), $e::Error<W::Error>> where W::Error: core::fmt::Debug + core::fmt::Display {
            if bytes { $f(w, serde_bytes::Bytes::new(v.as_bytes())) } else { $f(w, v) }
        }
        mid(&|o, v, b| go(o, v, b).is_ok(), &|o, v, b| match go(o, v, b) { Ok(()) => true, Err(e) => { check!(e == $e::Error::Writer(SerError::BufferFull)); false } },
            &|o, v, b| match go(o, v, b) { Ok(()) => None, Err($e::Error::Writer(e)) => Option::Some(e), Err(_) => { check!(false); None } })
    }};
}
/// std::io::Cursor over a fixed slice: write calls may be cut short by the cursor, never by the sink
#[cfg(feature = "std")]
fn cursor_room<W: AsRef<[u8]>>(full: &[u8], w: std::io::Cursor<W>, ok: bool, cap: usize) {
    let n = w.position() as usize;
    check!(n <= cap);
    let got = &w.get_ref().as_ref()[..n];
    sym::emit_bytes(got);
    if ok { check!(cap >= full.len() && sym::eq(got, full)); fits() }
    else { check!(cap < full.len() && n <= full.len() && sym::eq(got, &full[..n])); too_small() }
}
#[cfg(feature = "std")]
macro_rules! cursor {
    ($f:path) => {{
        use std::io::Cursor;
        let mut t = Tree::new();
        let r = gen(&mut t, 0, &Opts { kinds: &[ALL, &[Str]], keys: &[Str], ..opts() });
        let x = t.at(r);
        let mut full = Out::<BIG>::new();
        check!($f(&mut full, &x).is_ok());
        let full = full.as_slice();
        let cap = sym::pick(full.len() + 2);
        let mut back = [0u8; BIG];
        match sym::pick(2) {
            0 => {
                let mut w = Cursor::new(&mut back[..cap]);
                let res = $f(&mut w, &x);
                cursor_room(full, w, res.is_ok(), cap);
            }
            _ => {
                let mut w = Cursor::new(std::vec::Vec::from(&back[..cap]).into_boxed_slice());
                let res = $f(&mut w, &x);
                cursor_room(full, w, res.is_ok(), cap);
            }
        }
    }};
}
/// every history of three writes on a cursor over 4 bytes
#[cfg(feature = "std")]
fn cursor_writes() {
    use ser_write::SerWrite;
    let src = sym::bytes::<12>();
    let mut w = std::io::Cursor::new([0u8; 4]);
    let mut want = 0usize;
    for _ in 0..3 {
        let k = sym::pick(6);
        let b = &src[want..want + k.min(12 - want)];
        let res = match sym::pick(2) {
            0 => w.write(b),
            _ => { for x in b { sym::assume(*x < 0x80) } w.write_str(unsafe { core::str::from_utf8_unchecked(b) }) }
        };
        match res {
            Ok(()) => { want += b.len(); check!(want <= 4 && w.position() as usize == want); cover!() }
            Err(e) => {
                check!(want + b.len() > 4 && e == SerError::BufferFull);
                let n = w.position() as usize;
                check!(n <= 4 && sym::eq(&w.get_ref()[..n], &src[..n]));
                cover!();
                return
            }
        }
        check!(sym::eq(&w.get_ref()[..want], &src[..want]));
    }
}
fn text(b: &[u8; 300]) -> &str { unsafe { core::str::from_utf8_unchecked(b) } }
fn bin(b: &[u8; 300]) -> &serde_bytes::Bytes { serde_bytes::Bytes::new(b) }

harnesses! {
    fn h_room_json_array() { json_array::room() }
    fn h_room_json_hex() { json_hex::room() }
    fn h_room_json_base64() { json_base64::room() }
    fn h_room_json_pass() { json_pass::room() }
    fn h_room_mp_compact() { mp_compact::room() }
    fn h_room_mp_index() { mp_index::room() }
    fn h_room_mp_named() { mp_named::room() }
    fn h_flaky_json_array() { json_array::flaky() }
    fn h_flaky_json_hex() { json_hex::flaky() }
    fn h_flaky_json_base64() { json_base64::flaky() }
    fn h_flaky_json_pass() { json_pass::flaky() }
    fn h_flaky_mp_compact() { mp_compact::flaky() }
    fn h_flaky_mp_index() { mp_index::flaky() }
    fn h_flaky_mp_named() { mp_named::flaky() }
    fn h_display_json() { display!(js::to_writer) }
    fn h_display_mp() { display!(mp::to_writer) }
    fn h_float_json() { float!(js::to_writer, b"-1.5", -1.5f32); float!(js::to_writer, b"null", f64::NAN) }
    fn h_float_mp() {
        let v = f32::from_bits(sym::u32());
        let b = v.to_bits().to_be_bytes();
        float!(mp::to_writer, &[0xca, b[0], b[1], b[2], b[3]], v);
        let v = f64::from_bits(sym::u64());
        let b = v.to_bits().to_be_bytes();
        float!(mp::to_writer, &[0xcb, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]], v);
    }
    fn h_mid_json_array() { mid!(js::to_writer, js) }
    fn h_mid_json_hex() { mid!(js::to_writer_hex_bytes, js) }
    fn h_mid_json_base64() { mid!(js::to_writer_base64_bytes, js) }
    fn h_mid_json_pass() { mid!(js::to_writer_pass_bytes, js) }
    fn h_mid_mp() { mid!(mp::to_writer, mp) }
    fn h_large_json_str() { large!(js::to_writer, text) }
    fn h_large_mp_str() { large!(mp::to_writer, text) }
    fn h_large_mp_bytes() { large!(mp::to_writer, bin) }
    #[cfg(feature = "std")]
    fn h_cursor_writes() { cursor_writes() }
    #[cfg(feature = "std")]
    fn h_cursor_json() { cursor!(js::to_writer) }
    #[cfg(feature = "std")]
    fn h_cursor_json_hex() { cursor!(js::to_writer_hex_bytes) }
    #[cfg(feature = "std")]
    fn h_cursor_mp() { cursor!(mp::to_writer_named) }
}
