//! M02: MessagePack length headers are minimal and truthful.
use crate::refdec;
use crate::refenc;
use crate::sym;
use crate::util::Out;
use core::fmt;
use ser_write::{SerError, SerWrite};
use ser_write_msgpack::{ser as ms, de as md};
use serde::{de::{self, SeqAccess, MapAccess, Visitor, Deserializer, Deserialize, IgnoredAny}, ser::{self, Error as _, SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, SerializeStructVariant}, Serialize, Serializer};

/// keeps the first bytes and counts all
struct Count { head: [u8; 8], n: usize }
impl Count { fn new() -> Self { Count { head: [0; 8], n: 0 } } }
impl SerWrite for Count {
    type Error = SerError;
    fn write(&mut self, b: &[u8]) -> Result<(), SerError> {
        if self.n < 8 && b.len() <= 8 - self.n { let mut i = 0; while i < b.len() { self.head[self.n + i] = b[i]; i += 1 } }
        self.n += b.len();
        Ok(())
    }
}
type R = Result<(), ms::Error<SerError>>;
fn write<T: Serialize + ?Sized>(flavour: usize, o: &mut Count, x: &T) -> R {
    match flavour { 0 => ms::to_writer(o, x), 1 => ms::to_writer_compact(o, x), _ => ms::to_writer_named(o, x) }
}
fn fits() { cover!() }
fn refused() { cover!() }
const LIMIT: usize = u32::MAX as usize;
/// the header stands at `at` in what was written
fn header(c: &Count, at: usize, n: usize, put: fn(&mut Out<16>, usize)) -> usize {
    let mut w = Out::<16>::new();
    put(&mut w, n);
    check!(sym::eq(&c.head[at..at + w.len], w.as_slice()));
    at + w.len
}
/// a container is opened and then left
struct Opens { kind: usize, n: usize }
impl Serialize for Opens {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let n = self.n;
        match self.kind {
            0 => { s.serialize_seq(Some(n))?; }
            1 => { s.serialize_tuple(n)?; }
            2 => { s.serialize_tuple_struct("T", n)?; }
            3 => { s.serialize_tuple_variant("E", 5, "v", n)?; }
            4 => { s.serialize_map(Some(n))?; }
            5 => { s.serialize_struct("S", n)?; }
            _ => { s.serialize_struct_variant("E", 5, "v", n)?; }
        }
        Err(S::Error::custom(""))
    }
}
fn opens() {
    let n = sym::u64() as usize;
    let kind = sym::pick(7);
    let flavour = sym::pick(3);
    let mut c = Count::new();
    let r = write(flavour, &mut c, &Opens { kind, n });
    let map = kind == 4 || kind >= 5 && flavour != 1;
    match r {
        Err(ms::Error::SeqLength) => { check!(!map && n > LIMIT); refused() }
        Err(ms::Error::MapLength) => check!(map && n > LIMIT),
        Err(_) => {
            check!(n <= LIMIT);
            let at = if kind == 3 || kind == 6 { check!(c.head[0] == 0x81); if flavour == 2 { check!(sym::eq(&c.head[1..3], b"\xa1v")); 3 } else { check!(c.head[1] == 5); 2 } } else { 0 };
            let end = header(&c, at, n, if map { refenc::mp_map_len } else { refenc::mp_array_len });
            check!(c.n == end);
            fits();
        }
        Ok(()) => check!(false),
    }
}
/// names of variants and fields, of any length
struct Named { kind: usize, name: &'static str }
impl Serialize for Named {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let v = self.name;
        match self.kind {
            0 => s.serialize_unit_variant("E", 5, v),
            1 => s.serialize_newtype_variant("E", 5, v, &()),
            2 => { let mut q = s.serialize_tuple_variant("E", 5, v, 1)?; q.serialize_field(&())?; q.end() }
            3 => { let mut q = s.serialize_struct_variant("E", 5, v, 1)?; q.serialize_field("", &())?; q.end() }
            4 => { let mut q = s.serialize_struct("S", 1)?; q.serialize_field(v, &())?; q.end() }
            _ => { let mut q = s.serialize_struct_variant("E", 5, "", 1)?; q.serialize_field(v, &())?; q.end() }
        }
    }
}
struct Raw<'a>(&'a [u8]);
impl<'a> Serialize for Raw<'a> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.0) } }
/// `n` elements of one byte each
struct Many { kind: usize, n: usize }
impl Serialize for Many {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let n = self.n;
        match self.kind {
            0 => { let mut q = s.serialize_seq(Some(n))?; for _ in 0..n { q.serialize_element(&())? } q.end() }
            1 => { let mut q = s.serialize_tuple(n)?; for _ in 0..n { q.serialize_element(&())? } q.end() }
            2 => { let mut q = s.serialize_tuple_struct("T", n)?; for _ in 0..n { q.serialize_field(&())? } q.end() }
            3 => { let mut q = s.serialize_tuple_variant("E", 5, "v", n)?; for _ in 0..n { q.serialize_field(&())? } q.end() }
            4 => { let mut q = s.serialize_map(Some(n))?; for _ in 0..n { q.serialize_entry(&(), &())? } q.end() }
            5 => { let mut q = s.serialize_struct("S", n)?; for _ in 0..n { q.serialize_field("", &())? } q.end() }
            _ => { let mut q = s.serialize_struct_variant("E", 5, "v", n)?; for _ in 0..n { q.serialize_field("", &())? } q.end() }
        }
    }
}
struct Counted(usize);
impl<'de> Deserialize<'de> for Counted {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Counted;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("container") }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Counted, A::Error> {
                let mut n = 0;
                while let Some(()) = a.next_element()? { n += 1 }
                Ok(Counted(n))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Counted, A::Error> {
                let mut n = 0;
                while let Some(((), ())) = a.next_entry()? { n += 1 }
                Ok(Counted(n))
            }
        }
        d.deserialize_struct("S", &[], V)
    }
}

harnesses! {
    fn h_open() { opens() }
    /// texts of every length; the content is never looked at
    fn h_str() {
        let n = sym::u64() as usize;
        sym::assume(n <= isize::MAX as usize);
        let s = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(core::ptr::NonNull::<u8>::dangling().as_ptr(), n)) };
        // short texts might be copied by the sink
        sym::assume(n > 8);
        let mut c = Count::new();
        match write(sym::pick(3), &mut c, s) {
            Ok(()) => { check!(n <= LIMIT); let e = header(&c, 0, n, refenc::mp_str_len); check!(c.n == e + n); cover!() }
            Err(e) => { check!(n > LIMIT && e == ms::Error::StrLength); cover!() }
        }
    }
    /// names of every length, as variants and as fields
    fn h_names() {
        let n = sym::u64() as usize;
        sym::assume(n > 8 && n <= isize::MAX as usize);
        let name = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(core::ptr::NonNull::<u8>::dangling().as_ptr(), n)) };
        let kind = sym::pick(6);
        let flavour = sym::pick(3);
        let mut c = Count::new();
        // what stands before the name and after it, when names are written
        let (before, after) = [(0, 0), (1, 1), (1, 2), (1, 3), (1, 1), (3, 1)][kind];
        match write(flavour, &mut c, &Named { kind, name }) {
            Ok(()) if flavour == 2 => {
                check!(n <= LIMIT);
                if before != 0 { check!(c.head[0] == 0x81) }
                if before == 3 { check!(c.head[1] == 0xa0 && c.head[2] == 0x81) }
                let e = header(&c, before, n, refenc::mp_str_len);
                check!(c.n == e + n + after);
                cover!()
            }
            Ok(()) => { check!(c.n < 8); cover!() }
            Err(e) => { check!(flavour == 2 && n > LIMIT && e == ms::Error::StrLength); cover!() }
        }
    }
    fn h_bytes() {
        let n = sym::u64() as usize;
        sym::assume(n > 8 && n <= isize::MAX as usize);
        let b = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::<u8>::dangling().as_ptr(), n) };
        let mut c = Count::new();
        match write(sym::pick(3), &mut c, &Raw(b)) {
            Ok(()) => { check!(n <= LIMIT); let e = header(&c, 0, n, refenc::mp_bin_len); check!(c.n == e + n); cover!() }
            Err(e) => { check!(n > LIMIT && e == ms::Error::DataLength); cover!() }
        }
    }
    fn h_short() {
        let b = sym::bytes::<8>();
        let n = sym::pick(9);
        let mut c = Out::<24>::new();
        let bytes = sym::flip();
        for i in 0..n { if !bytes { sym::assume(b[i] < 128) } }
        let f = sym::pick(3);
        let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
        check!(match (bytes, f) {
            (true, 0) => ms::to_writer(&mut c, &Raw(&b[..n])), (true, 1) => ms::to_writer_compact(&mut c, &Raw(&b[..n])), (true, _) => ms::to_writer_named(&mut c, &Raw(&b[..n])),
            (false, 0) => ms::to_writer(&mut c, s), (false, 1) => ms::to_writer_compact(&mut c, s), (false, _) => ms::to_writer_named(&mut c, s),
        }.is_ok());
        let mut w = Out::<24>::new();
        if bytes { refenc::mp_bin_len(&mut w, n) } else { refenc::mp_str_len(&mut w, n) }
        w.put(&b[..n]);
        check!(sym::eq(c.as_slice(), w.as_slice()));
        cover!();
    }
    /// full containers around the sizes where the header changes
    fn h_full() {
        let n = [0usize, 1, 15, 16, 17, 255, 256, 257][sym::pick(8)];
        let kind = sym::pick(7);
        let flavour = sym::pick(3);
        let mut c = Out::<2048>::new();
        check!(match flavour { 0 => ms::to_writer(&mut c, &Many { kind, n }), 1 => ms::to_writer_compact(&mut c, &Many { kind, n }), _ => ms::to_writer_named(&mut c, &Many { kind, n }) }.is_ok());
        // one value, all of what was written, of so many elements
        check!(refdec::mp_skip(c.as_slice(), 0) == Some(c.len));
        let at = if kind == 3 || kind == 6 { if flavour == 2 { 3 } else { 2 } } else { 0 };
        match md::from_slice::<Counted>(&c.buf[at..c.len]) {
            Ok((Counted(m), e)) => { check!(m == n && e == c.len - at); cover!() }
            // fields are numbered or named, not nil
            Err(_) => check!(kind >= 5 && flavour != 1 && n > 0),
        }
    }
    fn h_full_64k() {
        let n = [65535usize, 65536][sym::pick(2)];
        let kind = [0, 4][sym::pick(2)];
        let mut c = Count::new();
        check!(write(0, &mut c, &Many { kind, n }).is_ok());
        let e = header(&c, 0, n, if kind == 4 { refenc::mp_map_len } else { refenc::mp_array_len });
        check!(c.n == e + if kind == 4 { 2 * n } else { n });
        cover!();
    }
}
