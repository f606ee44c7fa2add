//! M04: values round-trip through MessagePack in all three flavours.
use crate::node::{self, *};
use crate::node::K::*;
use crate::refdec;
use crate::refenc::{self, Flavour};
use crate::big::{self, Nest, WideReader};
use crate::sym;
use crate::util::{Out, Text};
use serde::de::DeserializeSeed;
use ser_write_msgpack::{ser as ms, de as md};

const M: usize = 256;
const ALL: &[K] = &[
    Unit, UnitStruct, Bool, U8, I64, F32, Char, Str, Display, Bytes, Nil, UnitVariant,
    Some, NewtypeStruct, NewtypeVariant, Seq, Tuple, TupleStruct, TupleVariant, Map, Struct, StructVariant,
];
const BELOW: &[K] = &[Unit, Str, Nil, Some, NewtypeVariant, UnitVariant, Seq, TupleVariant, Map, StructVariant];
const DEEP: &[K] = &[Seq, Map, Struct, NewtypeVariant, TupleVariant, StructVariant, Some];
const LEAVES: &[K] = &[Unit, UnitStruct, Nil, Bool, U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, Char, Str, Display, Bytes, UnitVariant];
const KEYS: &[K] = &[Str, U8, I16, Bool, Char, UnitVariant, NewtypeStruct, Bytes, F64, Tuple];
const FL: [Flavour; 3] = [Flavour::Compact, Flavour::Index, Flavour::Named];

fn opts<'a>(kinds: &'a [&'a [K]], keys: &'a [K], max_kids: usize) -> Opts<'a> {
    Opts { kinds, keys, max_kids, str_max: 1, small_ints: true, skips: false, plain: true }
}
fn round(x: N, f: Flavour, layout: bool) {
    let mut o = Out::<M>::new();
    check!(match f {
        Flavour::Compact => ms::to_writer_compact(&mut o, &x),
        Flavour::Index => ms::to_writer(&mut o, &x),
        Flavour::Named => ms::to_writer_named(&mut o, &x),
    }.is_ok());
    let n = o.len;
    sym::emit_bytes(&o.buf[..n]);
    if layout {
        let mut w = Out::<M>::new();
        refenc::msgpack(&mut w, x, f);
        check!(sym::eq(o.as_slice(), w.as_slice()));
    }
    // one well-formed value, with something else behind it
    check!(refdec::mp_skip(&o.buf[..n + 2], 0) == Option::Some(n));
    let mut d = md::Deserializer::from_slice(&o.buf[..n + 2]);
    check!(Expect(x).deserialize(&mut d).is_ok());
    check!(d.end() == Ok(2));
}
fn tree(o: &Opts, f: Flavour, layout: bool) {
    let mut t = Tree::new();
    let r = gen(&mut t, 0, o);
    round(t.at(r), f, layout)
}
/// `skip` fields left out, then `n` that are written, in index-map form
struct Wide { skip: usize, n: usize, v: [u8; 2], variant: bool }
impl serde::Serialize for Wide {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        macro_rules! fields { ($t:expr, $tr:path) => {{
            use $tr as T;
            let mut t = $t?;
            for _ in 0..self.skip { T::skip_field(&mut t, "s")? }
            for i in 0..self.n { T::serialize_field(&mut t, "f", &self.v[i & 1])? }
            T::end(t)
        }} }
        if self.variant { fields!(s.serialize_struct_variant("E", 0, "V", self.n), SerializeStructVariant) }
        else { fields!(s.serialize_struct("W", self.n), SerializeStruct) }
    }
}
fn put_index(o: &mut Out<2000>, i: usize) {
    match i {
        0..=0x7f => o.push(i as u8),
        0x80..=0xff => { o.push(0xcc); o.push(i as u8) }
        0x100..=0xffff => { o.push(0xcd); o.push((i >> 8) as u8); o.push(i as u8) }
        _ => { o.push(0xce); o.put(&(i as u32).to_be_bytes()) }
    }
}
/// structs with many fields: indices and headers around every size class
fn wide(skip: usize, n: usize) {
    let f = flavour();
    // in array form only trailing fields may be left out
    if f == Flavour::Compact && skip > 0 { sym::assume(false) }
    let x = Wide { skip, n, v: [sym::u8() & 127, sym::u8() & 127], variant: sym::flip() };
    let mut o = Out::<2000>::new();
    check!(match f {
        Flavour::Compact => ms::to_writer_compact(&mut o, &x),
        Flavour::Index => ms::to_writer(&mut o, &x),
        Flavour::Named => ms::to_writer_named(&mut o, &x),
    }.is_ok());
    let mut w = Out::<2000>::new();
    if x.variant {
        w.push(0x81);
        if f == Flavour::Named { w.put(b"\xa1V") } else { w.push(0) }
    }
    let (fix, wider) = if f == Flavour::Compact { (0x90, 0xdc) } else { (0x80, 0xde) };
    if n < 16 { w.push(fix | n as u8) } else { w.push(wider); w.push((n >> 8) as u8); w.push(n as u8) }
    for i in 0..n {
        match f { Flavour::Compact => {} Flavour::Index => put_index(&mut w, skip + i), Flavour::Named => w.put(b"\xa1f") }
        w.push(x.v[i & 1]);
    }
    sym::emit_bytes(&o.as_slice()[..o.len.min(20)]);
    check!(sym::eq(o.as_slice(), w.as_slice()));
}
fn far<const Z: usize>(v: big::Wide) {
    let f = flavour();
    let (mut o, mut w) = (Out::<Z>::new(), Out::<Z>::new());
    check!(match f {
        Flavour::Compact => ms::to_writer_compact(&mut o, &v),
        Flavour::Index => ms::to_writer(&mut o, &v),
        Flavour::Named => ms::to_writer_named(&mut o, &v),
    }.is_ok());
    v.mp(&mut w);
    check!(sym::eq(o.as_slice(), w.as_slice()));
    let mut d = md::Deserializer::from_slice(o.as_slice());
    check!(WideReader(v, false).deserialize(&mut d).is_ok() && d.end() == Ok(0));
    cover!()
}
fn flavour() -> Flavour { FL[sym::pick(3)] }

harnesses! {
    fn h_leaves() { tree(&Opts { plain: false, small_ints: false, str_max: 4, ..opts(&[LEAVES], KEYS, 0) }, flavour(), false) }
    fn h_small_leaves() { tree(&Opts { str_max: 2, ..opts(&[LEAVES], KEYS, 0) }, flavour(), true) }
    fn h_nested() { tree(&opts(&[ALL, BELOW, &[U8]], &[Str], 2), Flavour::Index, true) }
    fn h_nested_compact() { tree(&opts(&[ALL, BELOW, &[U8]], &[Str], 2), Flavour::Compact, true) }
    fn h_nested_named() { tree(&opts(&[ALL, BELOW, &[U8]], &[Str], 2), Flavour::Named, true) }
    fn h_pairs() { tree(&opts(&[&[Seq, Tuple, Struct, TupleVariant, StructVariant], LEAVES], &[Str], 2), flavour(), true) }
    fn h_chain() { tree(&opts(&[DEEP, DEEP, DEEP, &[U8]], &[U8], 1), flavour(), true) }
    fn h_keys() { tree(&opts(&[&[Map], &[Str, U8, I16, Bool, Char, UnitVariant]], KEYS, 1), flavour(), true) }
    fn h_entries() { tree(&opts(&[&[Map], &[Str, U8, Nil]], &[Str, U8, Bytes, Nil], 3), flavour(), true) }
    fn h_skipped() { tree(&Opts { skips: true, ..opts(&[&[Struct, StructVariant], &[Unit, Str, Struct], &[U8]], KEYS, 2) }, [Flavour::Index, Flavour::Named][sym::pick(2)], true) }
    fn h_skipped_wide() { tree(&Opts { skips: true, ..opts(&[&[Struct, StructVariant], &[U8]], KEYS, 4) }, [Flavour::Index, Flavour::Named][sym::pick(2)], true) }
    fn h_text() {
        let t = Text::<3>::any();
        let mut tr = Tree::new();
        let mut n = NODE0;
        n.k = Str;
        n.sl = t.n;
        n.s[..t.n].copy_from_slice(t.as_bytes());
        let r = tr.add(n);
        round(tr.at(r), flavour(), true);
        cover!();
    }
    fn h_wide_skip() { wide([1, 30, 31, 32, 126, 127, 128, 254, 255, 256, 257, 300][sym::pick(12)], 1 + sym::pick(2)) }
    fn h_wide_far() { wide([32767, 65534, 65535, 65536][sym::pick(4)], 2) }
    fn h_wide_full() { wide(0, [14, 15, 16, 17, 127, 128, 129, 255, 256, 257, 300][sym::pick(11)]) }
    /// hundreds of levels
    fn h_deep() {
        let v = Nest::any();
        let f = flavour();
        let (mut o, mut w) = (Out::<4096>::new(), Out::<4096>::new());
        check!(match f {
            Flavour::Compact => ms::to_writer_compact(&mut o, &v),
            Flavour::Index => ms::to_writer(&mut o, &v),
            Flavour::Named => ms::to_writer_named(&mut o, &v),
        }.is_ok());
        v.mp(&mut w, f);
        check!(sym::eq(o.as_slice(), w.as_slice()));
        let mut d = md::Deserializer::from_slice(o.as_slice());
        match big::typed(&v).deserialize(&mut d) { Ok(x) => { check!(x == v.leaf && d.end() == Ok(0)); cover!() } Err(_) => check!(false) }
    }
    /// hundreds of elements
    fn h_far() { far::<4096>(big::Wide::any(&[14, 15, 16, 17, 31, 32, 127, 128, 255, 256, 257, 300])) }
    fn h_very_far() {
        let n = [65535, 65536][sym::pick(2)];
        far::<70000>(big::Wide { kind: sym::pick(2), n, at: n - 1, x: sym::u8() })
    }
}
