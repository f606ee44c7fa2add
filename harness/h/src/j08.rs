//! J08: values round-trip through JSON.
use crate::node::{self, *};
use crate::node::K::*;
use crate::refenc::{self, Enc};
use crate::big::{self, Nest, Wide, WideReader};
use crate::sym;
use crate::util::{Out, Text};
use serde::de::DeserializeSeed;
use ser_write_json::{ser as js, de as jd};

const BIG: bool = cfg!(feature = "thorough");
const M: usize = 256;
const ALL: &[K] = &[
    Unit, UnitStruct, Bool, U8, I64, Char, Str, Display, Bytes, Nil, UnitVariant,
    Some, NewtypeStruct, NewtypeVariant, Seq, Tuple, TupleStruct, TupleVariant, Map, Struct, StructVariant,
];
const BELOW: &[K] = &[Unit, Str, Nil, Some, NewtypeVariant, UnitVariant, Seq, TupleVariant, Map, StructVariant];
const DEEP: &[K] = &[Seq, Map, Struct, NewtypeVariant, TupleVariant, StructVariant, Some];
const LEAVES: &[K] = &[Unit, UnitStruct, Nil, Bool, U8, I8, U16, I16, U32, I32, U64, I64, Char, Str, Display, Bytes, UnitVariant];
const KEYS: &[K] = &[Str, U8, I16, Bool, Char, UnitVariant, NewtypeStruct];

fn opts<'a>(kinds: &'a [&'a [K]], keys: &'a [K], max_kids: usize) -> Opts<'a> {
    Opts { kinds, keys, max_kids, str_max: 1, small_ints: true, skips: false, plain: true }
}
fn read(b: &mut [u8], x: N, e: Enc) {
    macro_rules! with {
        ($d:ty) => {{
            let mut d = <$d>::from_mut_slice(b);
            check!(Expect(x).deserialize(&mut d).is_ok());
            check!(d.end().is_ok());
        }};
    }
    match e {
        Enc::Array | Enc::Pass => with!(jd::DeserializerNopeByteStr),
        Enc::Hex => with!(jd::DeserializerHexByteStr),
        Enc::Base64 => with!(jd::DeserializerBase64ByteStr),
    }
}
fn round(x: N, e: Enc) {
    let mut o = Out::<M>::new();
    check!(match e {
        Enc::Array | Enc::Pass => js::to_writer(&mut o, &x),
        Enc::Hex => js::to_writer_hex_bytes(&mut o, &x),
        Enc::Base64 => js::to_writer_base64_bytes(&mut o, &x),
    }.is_ok());
    let n = o.len;
    sym::emit_bytes(&o.buf[..n]);
    read(&mut o.buf[..n], x, e);
}
fn tree(o: &Opts, e: Enc) {
    let mut t = Tree::new();
    let r = gen(&mut t, 0, o);
    round(t.at(r), e)
}
/// structs given as arrays of their fields
fn as_arrays(o: &Opts) {
    let mut t = Tree::new();
    let r = gen(&mut t, 0, o);
    let mut a = Tree::new();
    a.nodes = t.nodes;
    a.len = t.len;
    for i in 0..a.len {
        let k = &mut a.nodes[i].k;
        *k = match *k { Struct => Tuple, StructVariant => TupleVariant, k => k };
    }
    let mut w = Out::<M>::new();
    refenc::json(&mut w, a.at(r), Enc::Array);
    let n = w.len;
    read(&mut w.buf[..n], t.at(r), Enc::Array);
    cover!();
}

harnesses! {
    fn h_leaves() { tree(&Opts { plain: false, str_max: 2, ..opts(&[LEAVES], KEYS, 0) }, [Enc::Array, Enc::Hex, Enc::Base64][sym::pick(3)]) }
    fn h_nested() { tree(&opts(&[ALL, BELOW, &[U8]], &[Str], 2), Enc::Array) }
    fn h_pairs() { tree(&opts(&[&[Seq, Tuple, Struct, TupleVariant, StructVariant], LEAVES], &[Str], 2), Enc::Array) }
    fn h_hex() { tree(&opts(&[ALL, &[Bytes, Str], &[Bytes]], &[Str], 2), Enc::Hex) }
    fn h_base64() { tree(&opts(&[ALL, &[Bytes, Str], &[Bytes]], &[Str], 2), Enc::Base64) }
    fn h_chain() { tree(&opts(&[DEEP, DEEP, DEEP, &[U8]], &[U8], 1), Enc::Array) }
    fn h_keys() { tree(&opts(&[&[Map], &[Str, U8, I16, Bool, Char, UnitVariant]], KEYS, 2), Enc::Array) }
    fn h_skipped() { tree(&Opts { skips: true, ..opts(&[&[Struct, StructVariant], &[Unit, Str, Struct], &[U8]], KEYS, 2) }, Enc::Array) }
    fn h_struct_arrays() { as_arrays(&opts(&[&[Struct, StructVariant, Seq, Some], &[Struct, StructVariant, Str, Nil], &[U8, Unit]], &[Str], 2)) }
    fn h_text() {
        let t = Text::<{ if BIG { 5 } else { 4 } }>::any();
        let mut tr = Tree::new();
        let mut n = NODE0;
        n.k = Str;
        n.sl = t.n;
        n.s[..t.n].copy_from_slice(t.as_bytes());
        let r = tr.add(n);
        round(tr.at(r), Enc::Array)
    }
    /// hundreds of levels
    fn h_deep() {
        let v = Nest::any();
        let mut o = Out::<8192>::new();
        check!(js::to_writer(&mut o, &v).is_ok());
        let n = o.len;
        let mut d = jd::DeserializerNopeByteStr::from_mut_slice(&mut o.buf[..n]);
        match big::typed(&v).deserialize(&mut d) { Ok(x) => { check!(x == v.leaf && d.end().is_ok()); cover!() } Err(_) => check!(false) }
    }
    /// hundreds of elements
    fn h_far() {
        let v = Wide::any(&[9, 10, 11, 99, 100, 101, 255, 256, 257, 300]);
        let mut o = Out::<8192>::new();
        check!(js::to_writer(&mut o, &v).is_ok());
        let n = o.len;
        let mut d = jd::DeserializerNopeByteStr::from_mut_slice(&mut o.buf[..n]);
        check!(WideReader(v, false).deserialize(&mut d).is_ok() && d.end().is_ok());
        cover!()
    }
}
