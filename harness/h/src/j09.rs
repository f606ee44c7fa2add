//! J09: JSON object keys are text and follow the key rules.
use crate::node::{self, *};
use crate::node::K::*;
use crate::refdec;
use crate::refenc;
use crate::sym;
use crate::util::{One, Out, Text};
use serde::{de::DeserializeSeed, Serialize, Serializer, ser::SerializeMap};
use ser_write_json::{ser as js, de as jd};

const M: usize = 128;
const ALL: &[K] = &[
    Unit, UnitStruct, Bool, U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Char, Str, Display, Bytes, Nil, UnitVariant,
    Some, NewtypeStruct, NewtypeVariant, Seq, Tuple, TupleStruct, TupleVariant, Map, Struct, StructVariant,
];
const GOOD: &[K] = &[Bool, U8, U16, U32, U64, I8, I16, I32, I64, Char, Str, Display, UnitVariant];

struct Entry<'a>(N<'a>);
impl<'a> Serialize for Entry<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Option::Some(1))?;
        m.serialize_key(&self.0)?;
        m.serialize_value(&true)?;
        m.end()
    }
}
fn accepted() { cover!() }
fn refused() { cover!() }
fn rule(x: N) {
    let mut o = Out::<M>::new();
    match js::to_writer(&mut o, &Entry(x)) {
        Ok(()) => {
            check!(refenc::key_allowed(x));
            let n = o.len;
            check!(n > 8 && sym::eq(&o.buf[..2], b"{\"") && sym::eq(&o.buf[n - 7..n], b"\":true}"));
            // the key is one string token
            let mut t = Out::<M>::new();
            let end = refdec::json_str_content(&o.buf[..n], 2, &mut t);
            check!(end == Option::Some(n - 6));
            // whose text is the text of the value
            let mut w = Out::<M>::new();
            refenc::key(&mut w, x);
            let mut u = Out::<M>::new();
            check!(refdec::json_str_content(&w.buf[..w.len], 1, &mut u) == Option::Some(w.len));
            check!(sym::eq(t.as_slice(), u.as_slice()));
            accepted();
        }
        Err(e) => { check!(!refenc::key_allowed(x) && e == js::Error::InvalidKeyType); refused() }
    }
}
fn leaf_opts(plain: bool) -> Opts<'static> {
    Opts { kinds: &[ALL, &[U8, Str, Nil]], keys: &[Str], max_kids: 1, str_max: 2, small_ints: true, skips: false, plain }
}
/// a map with one entry whose key is expected back
fn round(x: N) {
    let mut o = Out::<M>::new();
    check!(js::to_writer(&mut o, &Entry(x)).is_ok());
    let n = o.len;
    sym::emit_bytes(&o.buf[..n]);
    read(&mut o.buf[..n], x);
}
fn read(b: &mut [u8], x: N) {
    struct V<'a>(N<'a>);
    impl<'de, 'a> serde::de::Visitor<'de> for V<'a> {
        type Value = ();
        fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("map") }
        fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            check!(a.next_key_seed(Expect(self.0))?.is_some());
            check!(a.next_value::<bool>()?);
            check!(a.next_key::<serde::de::IgnoredAny>()?.is_none());
            Ok(())
        }
    }
    use serde::Deserializer;
    let mut d = jd::DeserializerNopeByteStr::from_mut_slice(b);
    check!(d.deserialize_map(V(x)).is_ok());
    check!(d.end().is_ok());
}

harnesses! {
    fn h_rules() {
        let mut t = Tree::new();
        let r = gen(&mut t, 0, &leaf_opts(false));
        rule(t.at(r))
    }
    fn h_newtype_rules() {
        let mut t = Tree::new();
        let r = gen(&mut t, 0, &Opts { kinds: &[&[NewtypeStruct], ALL, &[U8]], ..leaf_opts(true) });
        rule(t.at(r))
    }
    fn h_round() {
        let mut t = Tree::new();
        let r = gen(&mut t, 0, &Opts { kinds: &[GOOD], ..leaf_opts(false) });
        round(t.at(r))
    }
    fn h_round_newtype() {
        let mut t = Tree::new();
        let r = gen(&mut t, 0, &Opts { kinds: &[&[NewtypeStruct], GOOD], ..leaf_opts(true) });
        round(t.at(r));
        cover!();
    }
    fn h_round_newtype_twice() {
        let mut t = Tree::new();
        let r = gen(&mut t, 0, &Opts { kinds: &[&[NewtypeStruct], &[NewtypeStruct], GOOD], ..leaf_opts(true) });
        round(t.at(r));
    }
    /// text as a key, borrowed
    fn h_text() {
        let s = Text::<3>::any();
        let mut o = Out::<M>::new();
        check!(js::to_writer(&mut o, &One(s.as_str())).is_ok());
        let n = o.len;
        match jd::from_mut_slice::<One<&str>>(&mut o.buf[..n]) {
            Ok(One(k)) => { check!(sym::eq(k.as_bytes(), s.as_bytes())); cover!() }
            Err(_) => check!(false),
        }
    }
    /// whatever stands where a key belongs, it is a string or an error
    fn h_not_text() {
        let mut b = [0u8; 12];
        b[0] = b'{';
        let n = 1 + sym::pick(2);
        sym::fill(&mut b[1..1 + n]);
        b[1 + n..8 + n].copy_from_slice(b"1\":null");
        b[8 + n] = b'}';
        let quoted = { let i = refdec::skip_ws(&b, 1); b[i] == b'"' };
        let ok = match sym::pick(5) {
            0 => jd::from_mut_slice::<One<&str>>(&mut b[..9 + n]).is_ok(),
            1 => jd::from_mut_slice::<One<u8>>(&mut b[..9 + n]).is_ok(),
            2 => jd::from_mut_slice::<One<i32>>(&mut b[..9 + n]).is_ok(),
            3 => jd::from_mut_slice::<One<char>>(&mut b[..9 + n]).is_ok(),
            _ => jd::from_mut_slice::<One<bool>>(&mut b[..9 + n]).is_ok(),
        };
        check!(!ok || quoted);
        if ok { cover!() }
    }
    fn h_read_bool() {
        let mut b = [0u8; 24];
        let n = sym::pick(7);
        b[..2].copy_from_slice(b"{\"");
        sym::fill(&mut b[2..2 + n]);
        b[2 + n..9 + n].copy_from_slice(b"\":null}");
        let (t, f) = (sym::eq(&b[2..2 + n], b"true"), sym::eq(&b[2..2 + n], b"false"));
        match jd::from_mut_slice::<One<bool>>(&mut b[..9 + n]) {
            // blanks in front are tolerated
            Ok(One(v)) => { check!(if v { n >= 4 } else { n >= 5 }); check!(!(v && f) && !(!v && t)); cover!() }
            Err(_) => check!(!t && !f),
        }
    }
}
