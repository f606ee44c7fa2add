//! M08: a truncated MessagePack encoding is rejected.
use crate::node::{self, *};
use crate::node::K::*;
use crate::probe::{Log, Probe, Types, T};
use crate::refenc::{self, Flavour};
use crate::sym;
use crate::types::*;
use crate::util::Out;
use serde::{Serialize, de::{Deserialize, DeserializeSeed, IgnoredAny}};
use ser_write_msgpack::{de as md, ser as ms};

const BIG: bool = cfg!(feature = "thorough");
const FL: [Flavour; 3] = [Flavour::Compact, Flavour::Index, Flavour::Named];
fn cut() { cover!() }
/// every strict prefix, as the type itself, without a type hint and skipped
fn prefixes(x: N, f: Flavour) {
    let mut o = Out::<256>::new();
    refenc::msgpack(&mut o, x, f);
    let k = sym::pick(o.len);
    let mut d = md::Deserializer::from_slice(&o.buf[..k]);
    check!(Expect(x).deserialize(&mut d) == Err(md::Error::UnexpectedEof));
    check!(md::from_slice::<IgnoredAny>(&o.buf[..k]) == Err(md::Error::UnexpectedEof));
    let mut ts = Types::new();
    let any = ts.leaf(T::Any);
    let mut log = Log::new();
    let mut d = md::Deserializer::from_slice(&o.buf[..k]);
    check!(Probe::new(&ts, any, &mut log).deserialize(&mut d) == Err(md::Error::UnexpectedEof));
    cut()
}
fn tree(o: &Opts, f: Flavour) {
    let mut t = Tree::new();
    let r = gen(&mut t, 0, o);
    prefixes(t.at(r), f)
}
fn opts<'a>(kinds: &'a [&'a [K]], keys: &'a [K], max_kids: usize) -> Opts<'a> {
    Opts { kinds, keys, max_kids, str_max: 1, small_ints: true, skips: false, plain: true }
}
/// ordinary values through the public functions
fn typed<'a, X: Serialize + Deserialize<'a> + PartialEq>(x: &X, b: &'a mut [u8; 64]) {
    let mut o = Out::<64>::new();
    check!(match sym::pick(3) { 0 => ms::to_writer_compact(&mut o, x), 1 => ms::to_writer(&mut o, x), _ => ms::to_writer_named(&mut o, x) }.is_ok());
    b[..o.len].copy_from_slice(o.as_slice());
    let k = sym::pick(o.len);
    check!(matches!(md::from_slice::<X>(&b[..k]), Err(md::Error::UnexpectedEof)));
    check!(matches!(md::from_slice_split_tail::<X>(&b[..k]), Err(md::Error::UnexpectedEof)));
}
/// any accepted bytes, in whatever form, as any type
fn accepted<const M: usize>(levels: &[&[T]], max: usize) {
    let b = sym::bytes::<M>();
    let n = 1 + sym::pick(M);
    let mut ts = Types::new();
    let r = ts.gen(levels, max);
    let mut log = Log::new();
    let mut d = md::Deserializer::from_slice(&b[..n]);
    if Probe::new(&ts, r, &mut log).deserialize(&mut d).is_err() { return }
    // the value ends exactly here; shorter input is not enough
    if d.end() != Ok(0) { return }
    let k = sym::pick(n);
    let mut log = Log::new();
    let mut d = md::Deserializer::from_slice(&b[..k]);
    check!(Probe::new(&ts, r, &mut log).deserialize(&mut d) == Err(md::Error::UnexpectedEof));
    cover!()
}
const LEAVES: &[K] = &[Unit, UnitStruct, Nil, Bool, U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, Char, Str, Bytes, UnitVariant];
const ALL: &[K] = &[Unit, U8, Str, Bytes, Some, NewtypeStruct, UnitVariant, NewtypeVariant, Seq, Tuple, TupleStruct, TupleVariant, Map, Struct, StructVariant];

harnesses! {
    fn h_leaves() { tree(&Opts { small_ints: false, plain: false, str_max: 4, ..opts(&[LEAVES], &[Str], 0) }, Flavour::Index) }
    fn h_leaves_named() { tree(&Opts { small_ints: false, ..opts(&[LEAVES], &[Str], 0) }, [Flavour::Compact, Flavour::Named][sym::pick(2)]) }
    fn h_nested() { tree(&opts(&[ALL, ALL, &[U8, Str]], &[Str, U8], 1), FL[sym::pick(3)]) }
    fn h_pairs() { tree(&opts(&[&[Seq, Tuple, Map, Struct, TupleVariant, StructVariant], &[U16, Str, Unit, Bool]], &[Str, I16], 2), FL[sym::pick(3)]) }
    fn h_skipped() { tree(&Opts { skips: true, ..opts(&[&[Struct, StructVariant], &[U8, Str]], &[Str], 3) }, [Flavour::Index, Flavour::Named][sym::pick(2)]) }
    /// lengths that need wider headers
    fn h_long() {
        let k = sym::pick(6);
        let n = [33, 257, 17, 300, 18, 260][k];
        let mut b = [b'x'; 600];
        let head: &[u8] = [&[0xd9, 33][..], &[0xda, 1, 1], &[0xdc, 0, 17], &[0xc5, 1, 44], &[0xde, 0, 18], &[0xdb, 0, 0, 1, 4]][k];
        b[..head.len()].copy_from_slice(head);
        let whole = head.len() + n * if k == 4 { 2 } else { 1 };
        let cut = [0, 1, 2, 3, 4, 5, 20, whole - 2, whole - 1][sym::pick(9)];
        sym::assume(cut < whole);
        let mut d = md::Deserializer::from_slice(&b[..cut]);
        check!(d.eat_message() == Err(md::Error::UnexpectedEof));
        let mut ts = Types::new();
        let u8s = ts.leaf(T::Ignored);
        let t = match k { 0 | 1 | 5 => ts.leaf(T::Str), 3 => ts.leaf(T::Bytes), 2 => ts.of(T::Seq, &[u8s]), _ => ts.of(T::Map, &[u8s, u8s]) };
        let mut log = Log::new();
        let mut d = md::Deserializer::from_slice(&b[..cut]);
        check!(Probe::new(&ts, t, &mut log).deserialize(&mut d) == Err(md::Error::UnexpectedEof));
        cover!();
    }
    fn h_types() {
        let mut b = [0u8; 64];
        match sym::pick(7) {
            0 => typed(&Point { x: sym::u32() as i32, y: sym::u32() as i32 }, &mut b),
            1 => typed(&Rec { name: "xy", id: sym::u16(), opt: [None, Option::Some(true)][sym::pick(2)] }, &mut b),
            2 => typed(&Bin { data: b"12", n: sym::u8() }, &mut b),
            3 => typed(&Pair(sym::u8(), sym::boolean()), &mut b),
            4 => typed(&Wrap(sym::u16()), &mut b),
            5 => typed(&Nothing, &mut b),
            _ => typed(&match sym::pick(4) { 0 => Shape::Dot, 1 => Shape::Circle(sym::u16()), 2 => Shape::Line(sym::u8(), sym::u8()), _ => Shape::Box { w: sym::u8(), h: sym::u8() } }, &mut b),
        }
    }
    fn h_accepted() { accepted::<{ if BIG { 6 } else { 5 } }>(&[crate::probe::HOLDERS, &[T::U16, T::Str, T::Ignored]], 2) }
    fn h_accepted_leaves() { accepted::<{ if BIG { 6 } else { 5 } }>(&[crate::probe::SCALARS], 0) }
}
