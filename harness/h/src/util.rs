//! Shared helpers: a plain array-backed sink and comparison functions.
use crate::sym;
use ser_write::{SerWrite, SerError};
use serde::{Serialize, Serializer, ser::SerializeMap, de::{self, Visitor, MapAccess, Deserializer}, Deserialize};
use core::fmt;

/// Ordinary sink used when the sink is not what is being checked.
pub struct Out<const N: usize> { pub buf: [u8; N], pub len: usize }
impl<const N: usize> Out<N> {
    pub const fn new() -> Self { Out { buf: [0; N], len: 0 } }
    pub fn as_slice(&self) -> &[u8] { &self.buf[..self.len] }
    pub fn push(&mut self, b: u8) { self.buf[self.len] = b; self.len += 1; }
    pub fn put(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() { self.push(b[i]); i += 1; }
    }
}
impl<const N: usize> SerWrite for Out<N> {
    type Error = SerError;
    fn write(&mut self, buf: &[u8]) -> Result<(), SerError> {
        if buf.len() > N - self.len { return Err(SerError::BufferFull) }
        self.buf[self.len..self.len + buf.len()].copy_from_slice(buf);
        self.len += buf.len();
        Ok(())
    }
}

/// UTF-8 well-formedness by the table of RFC 3629
pub fn utf8_valid(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7F => (0, 0, 0),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        if n > 0 {
            if i + n >= b.len() || b[i + 1] < lo || b[i + 1] > hi { return false }
            for k in 2..=n { if b[i + k] & 0xC0 != 0x80 { return false } }
        }
        i += n + 1;
    }
    true
}
/// symbolic text: up to `N` bytes that are valid UTF-8, of every length in chars
pub struct Text<const N: usize> { pub b: [u8; N], pub n: usize }
impl<const N: usize> Text<N> {
    pub fn any() -> Self {
        let n = sym::pick(N + 1);
        let mut b = [0u8; N];
        sym::fill(&mut b[..n]);
        sym::assume(utf8_valid(&b[..n]));
        Text { b, n }
    }
    pub fn as_bytes(&self) -> &[u8] { &self.b[..self.n] }
    pub fn as_str(&self) -> &str { unsafe { core::str::from_utf8_unchecked(&self.b[..self.n]) } }
}

/// a map with one entry, read by derived-style code
pub struct One<K>(pub K);
impl<K: Serialize> Serialize for One<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_entry(&self.0, &())?;
        m.end()
    }
}
impl<'de, K: Deserialize<'de>> Deserialize<'de> for One<K> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<K>(core::marker::PhantomData<K>);
        impl<'de, K: Deserialize<'de>> Visitor<'de> for V<K> {
            type Value = One<K>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<One<K>, A::Error> {
                match a.next_entry::<K, ()>()? { Some((k, ())) => Ok(One(k)), None => Err(de::Error::custom("empty")) }
            }
        }
        d.deserialize_map(V(core::marker::PhantomData))
    }
}

/// `text` with a piece of up to `k` bytes replaced by up to `k` arbitrary bytes
pub fn mutated(text: &[u8], k: usize) -> Out<80> {
    let at = sym::pick(text.len() + 1);
    replaced(text, at, k)
}
/// the same at a given place
pub fn replaced(text: &[u8], at: usize, k: usize) -> Out<80> {
    let cut = sym::pick(k.min(text.len() - at) + 1);
    let mut o = Out::<80>::new();
    o.put(&text[..at]);
    let mut b = [0u8; 8];
    let n = sym::pick(k + 1);
    sym::fill(&mut b[..n]);
    o.put(&b[..n]);
    o.put(&text[at + cut..]);
    o
}
/// `n` bytes of `fill` over and over, with `w` arbitrary ones at `at`
pub fn windowed<const N: usize>(fill: &[u8], n: usize, at: usize, w: usize) -> Out<N> {
    let mut o = Out::<N>::new();
    for i in 0..n { o.push(fill[i % fill.len()]) }
    sym::fill(&mut o.buf[at..at + w]);
    o
}
/// a length past those a byte or its sign bit holds, and a place in it
pub fn far() -> (usize, usize) {
    let n = [126, 128, 131, 255, 258, 262][sym::pick(6)];
    let at = [0, 62, 123, 125, 126, 127, 128, 253, 254, 255, 256, n - 3][sym::pick(12)];
    sym::assume(at + 3 <= n);
    (n, at)
}
