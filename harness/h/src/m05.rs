//! M05: MessagePack containers hold the declared number of elements.
use crate::refdec;
use crate::sym;
use crate::util::Out;
use ser_write_msgpack::ser as ms;
use serde::{ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, SerializeStructVariant}, Serialize, Serializer};

const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "f"];
/// declares one length and provides another number of elements; struct
/// fields are skipped by position
struct Claims { kind: usize, said: Option<usize>, n: usize, skip: u8, inner: Option<&'static Claims>, split: bool }
struct Elem<'a>(&'a Claims);
impl<'a> Serialize for Elem<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0.inner { Some(c) => c.serialize(s), None => s.serialize_unit() }
    }
}
impl Serialize for Claims {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let n = self.n;
        let len = match self.said { Some(l) => l, None => 0 };
        let e = Elem(self);
        match self.kind {
            0 => { let mut q = s.serialize_seq(self.said)?; for _ in 0..n { q.serialize_element(&e)? } q.end() }
            1 => { let mut q = s.serialize_tuple(len)?; for _ in 0..n { q.serialize_element(&e)? } q.end() }
            2 => { let mut q = s.serialize_tuple_struct("T", len)?; for _ in 0..n { q.serialize_field(&e)? } q.end() }
            3 => { let mut q = s.serialize_tuple_variant("E", 1, "v", len)?; for _ in 0..n { q.serialize_field(&e)? } q.end() }
            4 => {
                let mut q = s.serialize_map(self.said)?;
                for i in 0..n { if self.split { q.serialize_key(&(i as u8))?; q.serialize_value(&e)? } else { q.serialize_entry(&(i as u8), &e)? } }
                q.end()
            }
            5 => { let mut q = s.serialize_struct("S", len)?; for i in 0..n { if self.skip >> i & 1 == 1 { q.skip_field(NAMES[i])? } else { q.serialize_field(NAMES[i], &e)? } } q.end() }
            _ => { let mut q = s.serialize_struct_variant("E", 1, "v", len)?; for i in 0..n { if self.skip >> i & 1 == 1 { q.skip_field(NAMES[i])? } else { q.serialize_field(NAMES[i], &e)? } } q.end() }
        }
    }
}
type R = Result<(), ms::Error<ser_write::SerError>>;
fn write<const N: usize>(flavour: usize, o: &mut Out<N>, x: &Claims) -> R {
    match flavour { 0 => ms::to_writer(o, x), 1 => ms::to_writer_compact(o, x), _ => ms::to_writer_named(o, x) }
}
fn consistent() { cover!() }
fn refused() { cover!() }
fn skipped_refused() { cover!() }
fn claims(kind: usize, flavour: usize, c: &Claims, written: usize, skipping: bool) {
    let mut o = Out::<128>::new();
    let r = write(flavour, &mut o, c);
    let map = kind == 4 || kind >= 5 && flavour != 1;
    match r {
        Ok(()) => {
            check!(c.said == Some(written));
            // exactly one value was written
            check!(refdec::mp_skip(o.as_slice(), 0) == Some(o.len));
            consistent();
        }
        Err(e) => {
            // array form has no place for a field that is left out before others
            let hole = kind >= 5 && flavour == 1 && skipping;
            check!(c.said != Some(written) || hole);
            if hole && e == ms::Error::FieldSkipped { skipped_refused() }
            else { check!(e == if map { ms::Error::MapLength } else { ms::Error::SeqLength }); refused() }
        }
    }
    sym::emit_bytes(o.as_slice());
}

harnesses! {
    fn h_lengths() {
        let kind = sym::pick(7);
        let flavour = sym::pick(3);
        let n = sym::pick(4);
        let said = if (kind == 0 || kind == 4) && sym::flip() { None } else { Some(sym::pick(6)) };
        claims(kind, flavour, &Claims { kind, said, n, skip: 0, inner: None, split: sym::flip() }, n, false)
    }
    /// any declared length at all
    fn h_wild_length() {
        let kind = sym::pick(7);
        let flavour = sym::pick(3);
        let n = sym::pick(4);
        let said = sym::u64() as usize;
        sym::assume(said >= 4);
        let mut o = Out::<128>::new();
        check!(write(flavour, &mut o, &Claims { kind, said: Some(said), n, skip: 0, inner: None, split: false }).is_err());
    }
    fn h_around_16() {
        let kind = sym::pick(5);
        let (said, n) = (14 + sym::pick(4), 14 + sym::pick(4));
        claims(kind, sym::pick(3), &Claims { kind, said: Some(said), n, skip: 0, inner: None, split: false }, n, false)
    }
    fn h_skipped() {
        let kind = 5 + sym::pick(2);
        let flavour = sym::pick(3);
        let n = sym::pick(5);
        let skip = sym::pick(1 << n) as u8;
        let mut written = 0;
        for i in 0..n { if skip >> i & 1 == 0 { written += 1 } }
        // a field behind a skipped one
        let hole = { let mut h = false; let mut s = false; for i in 0..n { if skip >> i & 1 == 1 { s = true } else if s { h = true } } h };
        let said = sym::pick(6);
        claims(kind, flavour, &Claims { kind, said: Some(said), n, skip, inner: None, split: false }, written, skip != 0);
        // trailing fields may always be left out
        if said == written && !hole {
            let mut o = Out::<128>::new();
            check!(write(flavour, &mut o, &Claims { kind, said: Some(said), n, skip, inner: None, split: false }).is_ok());
            cover!();
        }
        // and a hole in array form is refused
        if flavour == 1 && hole {
            let mut o = Out::<128>::new();
            check!(write(flavour, &mut o, &Claims { kind, said: Some(said), n, skip, inner: None, split: false }).is_err());
            cover!();
        }
    }
    /// the element that lies is inside another container
    fn h_nested() {
        static BAD: [Claims; 4] = [
            Claims { kind: 0, said: Some(1), n: 2, skip: 0, inner: None, split: false },
            Claims { kind: 0, said: Some(2), n: 1, skip: 0, inner: None, split: false },
            Claims { kind: 4, said: Some(2), n: 1, skip: 0, inner: None, split: false },
            Claims { kind: 0, said: Some(1), n: 1, skip: 0, inner: None, split: false },
        ];
        let kind = sym::pick(7);
        let flavour = sym::pick(3);
        let k = sym::pick(4);
        let mut o = Out::<128>::new();
        let n = 1 + sym::pick(2);
        let r = write(flavour, &mut o, &Claims { kind, said: Some(n), n, skip: 0, inner: Some(&BAD[k]), split: false });
        check!(r.is_ok() == (k == 3));
    }
}
