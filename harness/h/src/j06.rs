//! J06: compound values are written as the right JSON text.
use crate::node::{self, *};
use crate::node::K::*;
use crate::refenc::{self, Enc};
use crate::big::{Nest, Wide};
use crate::sym;
use crate::util::Out;
use ser_write_json::ser as js;
use serde::{Serialize, Serializer, ser::{SerializeMap, SerializeSeq}};

const BIG: bool = cfg!(feature = "thorough");
const M: usize = 256;
const ALL: &[K] = &[
    Unit, UnitStruct, Bool, U8, Str, Bytes, Nil, UnitVariant,
    Some, NewtypeStruct, NewtypeVariant, Seq, Tuple, TupleStruct, TupleVariant, Map, Struct, StructVariant,
];
const BELOW: &[K] = &[Unit, U8, Some, NewtypeVariant, UnitVariant, Seq, TupleVariant, Map, Struct, StructVariant];
const DEEP: &[K] = &[Seq, Map, Struct, NewtypeVariant, TupleVariant, StructVariant, Bool];
const LEAF: &[K] = &[U8];
const LEAVES: &[K] = &[Unit, UnitStruct, Nil, Bool, U8, I8, U16, I16, U32, I32, U64, I64, Char, Str, Display, Bytes, UnitVariant];

fn opts<'a>(kinds: &'a [&'a [K]], max_kids: usize, skips: bool) -> Opts<'a> {
    Opts { kinds, keys: &[Str, U8], max_kids, str_max: 1, small_ints: true, skips, plain: true }
}
fn text(x: N, e: Enc) {
    let (mut out, mut want) = (Out::<M>::new(), Out::<M>::new());
    check!(match e {
        Enc::Array => js::to_writer(&mut out, &x),
        Enc::Hex => js::to_writer_hex_bytes(&mut out, &x),
        Enc::Base64 => js::to_writer_base64_bytes(&mut out, &x),
        Enc::Pass => js::to_writer_pass_bytes(&mut out, &x),
    }.is_ok());
    refenc::json(&mut want, x, e);
    check!(sym::eq(out.as_slice(), want.as_slice()));
    sym::emit_bytes(out.as_slice());
}
fn tree(o: &Opts, e: Enc) {
    let mut t = Tree::new();
    let r = gen(&mut t, 0, o);
    text(t.at(r), e)
}
/// a container that announces no or a wrong length: JSON has no use for it
struct Unsized<'a>(usize, Option<usize>, bool, &'a [u8; 3]);
impl<'a> Serialize for Unsized<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.2 {
            let mut q = s.serialize_map(self.1)?;
            for i in 0..self.0 { q.serialize_entry("k", &self.3[i])? }
            q.end()
        } else {
            let mut q = s.serialize_seq(self.1)?;
            for i in 0..self.0 { q.serialize_element(&self.3[i])? }
            q.end()
        }
    }
}

harnesses! {
    fn h_leaves() { tree(&opts(&[LEAVES], 0, false), [Enc::Array, Enc::Hex, Enc::Base64, Enc::Pass][sym::pick(4)]) }
    fn h_nested() { tree(&opts(&[ALL, BELOW, LEAF], 2, false), Enc::Array) }
    fn h_nested_hex() { tree(&opts(&[ALL, &[Bytes, U8, Seq], &[Bytes]], 2, false), Enc::Hex) }
    fn h_nested_base64() { tree(&opts(&[ALL, &[Bytes, U8, Seq], &[Bytes]], 2, false), Enc::Base64) }
    fn h_nested_pass() { tree(&opts(&[ALL, &[Bytes, U8, Seq], &[Bytes]], 2, false), Enc::Pass) }
    fn h_chain() { tree(&opts(&[DEEP, DEEP, DEEP, DEEP, LEAF], 1, false), Enc::Array) }
    fn h_wide() { tree(&opts(&[&[Seq, Tuple, TupleStruct, TupleVariant, Map], &[U8, Unit]], 3, false), Enc::Array) }
    fn h_skipped() { tree(&opts(&[&[Struct, StructVariant, Seq], &[Struct, StructVariant, U8], LEAF], if BIG { 3 } else { 2 }, true), Enc::Array) }
    fn h_skipped_wide() { tree(&opts(&[&[Struct, StructVariant], LEAF], 4, true), Enc::Array) }
    fn h_floats() {
        let mut t = Tree::new();
        let o = opts(&[&[Seq, Some, NewtypeVariant, Struct], &[F32, F64]], 2, false);
        let r = gen(&mut t, 0, &o);
        for i in 0..t.len { let n = &t.nodes[i]; if matches!(n.k, F32 | F64) { sym::assume(!refenc::finite(n)) } }
        text(t.at(r), Enc::Array)
    }
    fn h_lengths() {
        let b = sym::bytes::<3>();
        for c in &b { sym::assume(*c < 10) }
        let n = sym::pick(4);
        let said = match sym::pick(3) { 0 => Option::None, 1 => Option::Some(0), _ => Option::Some(7) };
        let map = sym::flip();
        let mut out = Out::<M>::new();
        check!(js::to_writer(&mut out, &Unsized(n, said, map, &b)).is_ok());
        let mut want = Out::<M>::new();
        want.push(if map { b'{' } else { b'[' });
        for i in 0..n {
            if i > 0 { want.push(b',') }
            if map { want.put(b"\"k\":") }
            want.push(b'0' + b[i])
        }
        want.push(if map { b'}' } else { b']' });
        check!(sym::eq(out.as_slice(), want.as_slice()));
        cover!();
    }
    /// hundreds of levels
    fn h_deep() {
        let v = Nest::any();
        let (mut out, mut want) = (Out::<8192>::new(), Out::<8192>::new());
        check!(js::to_writer(&mut out, &v).is_ok());
        v.json(&mut want);
        check!(sym::eq(out.as_slice(), want.as_slice()));
    }
    /// hundreds of elements
    fn h_far() {
        let v = Wide::any(&[9, 10, 11, 99, 100, 101, 255, 256, 257, 300]);
        let (mut out, mut want) = (Out::<8192>::new(), Out::<8192>::new());
        check!(js::to_writer(&mut out, &v).is_ok());
        v.json(&mut want);
        check!(sym::eq(out.as_slice(), want.as_slice()));
    }
}
