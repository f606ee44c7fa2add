//! M09: self-describing MessagePack reading preserves value and type.
use crate::node::{self, *};
use crate::node::K::*;
use crate::probe::{Log, Probe, Types, T};
use crate::refdec::{mp_any, Bad};
use crate::refenc::{self, Flavour};
use crate::big::{self, Nest, Wide, WideReader};
use crate::sym;
use crate::util::Out;
use serde::de::DeserializeSeed;
use ser_write_msgpack::de as md;

const BIG: bool = cfg!(feature = "thorough");
fn read() { cover!() }
fn refused() { cover!() }
fn any(b: &[u8]) {
    let mut ts = Types::new();
    let t = ts.leaf(T::Any);
    let mut got = Log::new();
    let mut want = Log::new();
    let w = mp_any(b, 0, &mut want);
    let mut d = md::Deserializer::from_slice(b);
    match Probe::new(&ts, t, &mut got).deserialize(&mut d) {
        Ok(()) => {
            match w {
                Ok(m) => check!(d.end() == Ok(b.len() - m) && sym::eq(got.as_slice(), want.as_slice())),
                Err(_) => check!(false),
            }
            read()
        }
        Err(e) => {
            check!(w == Err(match e {
                md::Error::UnexpectedEof => Bad::Eof,
                md::Error::ReservedCode => Bad::Reserved,
                md::Error::UnsupportedExt => Bad::Ext,
                md::Error::InvalidUnicodeCodePoint => Bad::Utf8,
                _ => { check!(false); return }
            }));
            refused()
        }
    }
}
const LEAVES: &[K] = &[Unit, Bool, U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, Char, Str, Bytes];
const ALL: &[K] = &[Unit, U8, Str, Bytes, Some, NewtypeVariant, Seq, Map, Struct, StructVariant];

harnesses! {
    fn h_bytes() {
        let b = sym::bytes::<{ if BIG { 7 } else { 6 } }>();
        let n = sym::pick(b.len() + 1);
        any(&b[..n])
    }
    /// every scalar marker with a whole payload
    fn h_scalars() {
        let b = sym::bytes::<10>();
        let c = b[0];
        sym::assume(c < 0x80 || c >= 0xe0 || (c >= 0xc0 && c < 0xd9 && !(c >= 0xc4 && c < 0xc7)));
        let n = sym::pick(11);
        any(&b[..n])
    }
    /// every string and binary header, over text with one symbolic character
    fn h_texts() {
        let mut b = [b'x'; 40];
        let k = sym::pick(7);
        let len = [0, 1, 2, 5, 31, 32, 34][sym::pick(7)];
        let head = match k {
            0 => { if len > 31 { return } b[0] = 0xa0 | len as u8; 1 }
            1 | 4 => { b[0] = [0xd9, 0xc4][k / 4]; b[1] = len as u8; 2 }
            2 | 5 => { b[0] = [0xda, 0xc5][k / 4]; b[1] = 0; b[2] = len as u8; 3 }
            _ => { b[0] = [0xdb, 0xc6][k / 4]; b[1] = 0; b[2] = 0; b[3] = 0; b[4] = len as u8; 5 }
        };
        if len > 0 { b[head] = sym::u8(); b[head + len - 1] = sym::u8() }
        any(&b[..(head + len + sym::pick(2)).min(40)])
    }
    /// every container header, over few elements of any kind
    fn h_containers() {
        let mut b = [0u8; 12];
        let k = sym::pick(6);
        let len = sym::pick(3);
        let head = match k {
            0 | 3 => { b[0] = [0x90, 0x80][k / 3] | len as u8; 1 }
            1 | 4 => { b[0] = [0xdc, 0xde][k / 3]; b[2] = len as u8; 3 }
            _ => { b[0] = [0xdd, 0xdf][k / 3]; b[4] = len as u8; 5 }
        };
        sym::fill(&mut b[head..head + 3]);
        any(&b[..head + sym::pick(4)])
    }
    fn h_leaves() {
        let mut t = Tree::new();
        let o = Opts { kinds: &[&[Seq, Map], LEAVES], keys: &[Str, U8], max_kids: 1, str_max: 3, small_ints: false, skips: false, plain: false };
        let r = gen(&mut t, 0, &o);
        let mut w = Out::<256>::new();
        refenc::msgpack(&mut w, t.at(r), Flavour::Named);
        any(w.as_slice())
    }
    fn h_trees() {
        let mut t = Tree::new();
        let o = Opts { kinds: &[ALL, &[U8, Str, Unit, Seq, Map], &[U8]], keys: &[Str], max_kids: 2, str_max: 1, small_ints: true, skips: false, plain: true };
        let r = gen(&mut t, 0, &o);
        let mut w = Out::<256>::new();
        refenc::msgpack(&mut w, t.at(r), [Flavour::Compact, Flavour::Index, Flavour::Named][sym::pick(3)]);
        any(w.as_slice())
    }
    /// hundreds of levels
    fn h_deep() {
        let v = Nest::any();
        let mut o = Out::<4096>::new();
        v.mp(&mut o, [Flavour::Compact, Flavour::Named][sym::pick(2)]);
        // the compact flavour has a list where the others have a map
        let mut d = md::Deserializer::from_slice(o.as_slice());
        match big::untyped(&v).deserialize(&mut d) { Ok(x) => { check!(x == v.leaf && d.end() == Ok(0)); cover!() } Err(_) => check!(false) }
    }
    /// hundreds of elements
    fn h_far() {
        let v = Wide::any(&[14, 15, 16, 17, 31, 32, 127, 128, 255, 256, 257, 300]);
        let mut o = Out::<4096>::new();
        v.mp(&mut o);
        let mut d = md::Deserializer::from_slice(o.as_slice());
        check!(WideReader(v, true).deserialize(&mut d).is_ok() && d.end() == Ok(0));
        cover!()
    }
}
