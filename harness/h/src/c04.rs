//! C04: all serialization entry points agree; strings are valid UTF-8.
use crate::node::{self, *};
use crate::node::K::*;
use crate::sym;
use crate::util::{utf8_valid, windowed, Out, Text};
use alloc::{string::String, vec::Vec};
use ser_write_json::ser as js;
use ser_write_msgpack::ser as mp;

const LEAVES: &[K] = &[U8, Str, Bytes];
const ALL: &[K] = &[
    Unit, UnitStruct, Bool, U8, I32, U64, Char, Str, Bytes, Display, Nil, UnitVariant,
    Some, NewtypeStruct, NewtypeVariant, Seq, Tuple, TupleStruct, TupleVariant, Map, Struct, StructVariant,
];
fn opts() -> Opts<'static> {
    Opts { kinds: &[ALL, LEAVES], keys: &[Str, U8], max_kids: if cfg!(feature = "thorough") { 3 } else { 2 }, str_max: 1, small_ints: true, skips: false, plain: false }
}
const BIG: usize = 112;

fn json_valid(s: &str) { check!(utf8_valid(s.as_bytes())); sym::emit_bytes(s.as_bytes()) }
/// string-producing and appending entry points against the writer
macro_rules! json_agree {
    ($v:expr, $w:path, $s:path, $may_fail:expr) => {{
        let v = $v;
        let mut out = Out::<BIG>::new();
        check!($w(&mut out, v).is_ok());
        match $s(v) {
            Ok(s) => { check!(sym::eq(s.as_bytes(), out.as_slice())); json_valid(&s) }
            Err(e) => check!($may_fail && e == js::Error::Utf8Encode && !utf8_valid(out.as_slice())),
        }
        let pre = sym::bytes::<2>();
        let mut c = Vec::new();
        c.extend_from_slice(&pre);
        check!($w(&mut c, v).is_ok());
        check!(sym::eq(&c[..2], &pre) && sym::eq(&c[2..], out.as_slice()));
    }}
}
macro_rules! mp_agree {
    ($v:expr, $w:path, $s:path) => {{
        let v = $v;
        let mut out = Out::<BIG>::new();
        check!($w(&mut out, v).is_ok());
        match $s(v) {
            Ok(s) => check!(sym::eq(&s, out.as_slice())),
            Err(_) => check!(false),
        }
        let pre = sym::bytes::<2>();
        let mut c = Vec::new();
        c.extend_from_slice(&pre);
        check!($w(&mut c, v).is_ok());
        check!(sym::eq(&c[..2], &pre) && sym::eq(&c[2..], out.as_slice()));
    }}
}
fn tree(f: impl Fn(N)) {
    let mut t = Tree::new();
    let r = gen(&mut t, 0, &opts());
    f(t.at(r))
}
/// serializers that fail half way leave no result
struct Refuses;
impl serde::Serialize for Refuses {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeSeq};
        let mut q = s.serialize_seq(Option::Some(2))?;
        q.serialize_element(&1u8)?;
        Err(S::Error::custom("refused"))
    }
}
const T: usize = if cfg!(feature = "thorough") { 6 } else { 4 };

harnesses! {
    fn h_json_array() { tree(|x| json_agree!(&x, js::to_writer, js::to_string, false)) }
    fn h_json_hex() { tree(|x| json_agree!(&x, js::to_writer_hex_bytes, js::to_string_hex_bytes, false)) }
    fn h_json_base64() { tree(|x| json_agree!(&x, js::to_writer_base64_bytes, js::to_string_base64_bytes, false)) }
    fn h_json_pass() { tree(|x| json_agree!(&x, js::to_writer_pass_bytes, js::to_string_pass_bytes, true)) }
    fn h_mp_compact() { tree(|x| mp_agree!(&x, mp::to_writer_compact, mp::to_vec_compact)) }
    fn h_mp_index() { tree(|x| mp_agree!(&x, mp::to_writer, mp::to_vec)) }
    fn h_mp_named() { tree(|x| mp_agree!(&x, mp::to_writer_named, mp::to_vec_named)) }
    /// text with multi-byte characters
    fn h_json_text() {
        let t = Text::<T>::any();
        json_agree!(t.as_str(), js::to_writer, js::to_string, false);
        if t.n > 1 && t.b[0] >= 0xE0 { cover!() }
    }
    fn h_json_text_encoders() {
        let t = Text::<3>::any();
        json_agree!(t.as_str(), js::to_writer_hex_bytes, js::to_string_hex_bytes, false);
        json_agree!(t.as_str(), js::to_writer_base64_bytes, js::to_string_base64_bytes, false);
        json_agree!(t.as_str(), js::to_writer_pass_bytes, js::to_string_pass_bytes, true);
    }
    fn h_json_char() {
        let c = unsafe { char::from_u32_unchecked(any_char()) };
        json_agree!(&c, js::to_writer, js::to_string, false);
    }
    /// raw bytes passed through are checked before they become a String
    fn h_json_pass_bytes() {
        let b = sym::bytes::<4>();
        let n = sym::pick(5);
        let v = serde_bytes::Bytes::new(&b[..n]);
        match js::to_string_pass_bytes(v) {
            Ok(s) => { check!(utf8_valid(&b[..n])); check!(sym::eq(s.as_bytes(), &b[..n])); cover!() }
            Err(e) => { check!(!utf8_valid(&b[..n])); check!(e == js::Error::Utf8Encode); cover!() }
        }
    }
    /// long, with three arbitrary bytes anywhere
    fn h_json_pass_long() {
        let n = 6 + sym::pick(30);
        let o = windowed::<80>([&b"abcdefgh"[..], "\u{20ac}a\u{1f600}".as_bytes()][sym::pick(2)], n, sym::pick(n - 2), 3);
        let b = o.as_slice();
        match js::to_string_pass_bytes(serde_bytes::Bytes::new(b)) {
            Ok(s) => { check!(utf8_valid(b)); check!(sym::eq(s.as_bytes(), b)); cover!() }
            Err(e) => { check!(!utf8_valid(b)); check!(e == js::Error::Utf8Encode); cover!() }
        }
    }
    fn h_json_bytes() {
        let b = sym::bytes::<4>();
        let n = sym::pick(5);
        let v = serde_bytes::Bytes::new(&b[..n]);
        json_agree!(v, js::to_writer_hex_bytes, js::to_string_hex_bytes, false);
        json_agree!(v, js::to_writer_base64_bytes, js::to_string_base64_bytes, false);
    }
    fn h_errors() {
        check!(js::to_string(&Refuses).is_err() && js::to_string_hex_bytes(&Refuses).is_err());
        check!(js::to_string_base64_bytes(&Refuses).is_err() && js::to_string_pass_bytes(&Refuses).is_err());
        check!(mp::to_vec(&Refuses).is_err() && mp::to_vec_compact(&Refuses).is_err() && mp::to_vec_named(&Refuses).is_err());
        cover!();
    }
}
