//! Reference encoders, written from the formats' documentation, independent
//! of the crates under check.
use crate::node::{Node, FIELDS, K, N, VARIANTS};
use crate::util::Out;
use K::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc { Array, Hex, Base64, Pass }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Flavour { Compact, Index, Named }

pub fn dec<const M: usize>(o: &mut Out<M>, neg: bool, mut v: u64) {
    if neg { o.push(b'-') }
    let mut d = [0u8; 20];
    let mut n = 0;
    loop {
        d[n] = b'0' + (v % 10) as u8;
        n += 1;
        v /= 10;
        if v == 0 { break }
    }
    while n > 0 { n -= 1; o.push(d[n]) }
}
pub fn json_str<const M: usize>(o: &mut Out<M>, s: &[u8]) {
    o.push(b'"');
    for &c in s {
        match c {
            b'"' => o.put(b"\\\""),
            b'\\' => o.put(b"\\\\"),
            8 => o.put(b"\\b"),
            9 => o.put(b"\\t"),
            10 => o.put(b"\\n"),
            12 => o.put(b"\\f"),
            13 => o.put(b"\\r"),
            0..=31 => { o.put(b"\\u00"); hex(o, c) }
            _ => o.push(c),
        }
    }
    o.push(b'"');
}
pub fn hex<const M: usize>(o: &mut Out<M>, c: u8) {
    const D: &[u8; 16] = b"0123456789ABCDEF";
    o.push(D[(c >> 4) as usize]);
    o.push(D[(c & 15) as usize]);
}
pub fn base64<const M: usize>(o: &mut Out<M>, s: &[u8]) {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    // bit by bit, six at a time, most significant first
    let bits = s.len() * 8;
    let mut i = 0;
    while i < bits {
        let mut v = 0u8;
        for j in i..i + 6 {
            let b = if j < bits { s[j / 8] >> (7 - j % 8) & 1 } else { 0 };
            v = v << 1 | b;
        }
        o.push(A[v as usize & 63]);
        i += 6;
    }
}
pub fn signed(n: &Node) -> i64 {
    match n.k { I8 => n.v as i8 as i64, I16 => n.v as i16 as i64, I32 => n.v as i32 as i64, _ => n.v as i64 }
}

/// the documented JSON mapping
pub fn json<const M: usize>(o: &mut Out<M>, x: N, e: Enc) {
    let n = x.node();
    let var = |o: &mut Out<M>| { o.push(b'{'); json_str(o, VARIANTS[n.variant].as_bytes()); o.push(b':') };
    let list = |o: &mut Out<M>| {
        o.push(b'[');
        for i in 0..n.n { if i > 0 { o.push(b',') } json(o, x.kid(i), e) }
        o.push(b']')
    };
    let fields = |o: &mut Out<M>| {
        o.push(b'{');
        let mut first = true;
        for i in 0..n.n {
            if x.skipped(i) { continue }
            if !first { o.push(b',') }
            first = false;
            json_str(o, FIELDS[i].as_bytes());
            o.push(b':');
            json(o, x.kid(i), e)
        }
        o.push(b'}')
    };
    match n.k {
        Unit | UnitStruct | Nil => o.put(b"null"),
        Bool => o.put(if n.v != 0 { b"true" } else { b"false" }),
        U8 | U16 | U32 | U64 => dec(o, false, n.v),
        I8 | I16 | I32 | I64 => { let v = signed(n); dec(o, v < 0, v.unsigned_abs()) }
        Char => { let mut b = [0u8; 4]; json_str(o, x.chr().encode_utf8(&mut b).as_bytes()) }
        Str | Display => json_str(o, x.bytes()),
        Bytes => match e {
            Enc::Array => {
                o.push(b'[');
                for (i, b) in x.bytes().iter().enumerate() { if i > 0 { o.push(b',') } dec(o, false, *b as u64) }
                o.push(b']')
            }
            Enc::Hex => { o.push(b'"'); for b in x.bytes() { hex(o, *b) } o.push(b'"') }
            Enc::Base64 => { o.push(b'"'); base64(o, x.bytes()); o.push(b'"') }
            Enc::Pass => o.put(x.bytes()),
        },
        UnitVariant => json_str(o, VARIANTS[n.variant].as_bytes()),
        Some | NewtypeStruct => json(o, x.kid(0), e),
        NewtypeVariant => { var(o); json(o, x.kid(0), e); o.push(b'}') }
        Seq | Tuple | TupleStruct => list(o),
        TupleVariant => { var(o); list(o); o.push(b'}') }
        Map => {
            o.push(b'{');
            for i in 0..n.n / 2 {
                if i > 0 { o.push(b',') }
                key(o, x.kid(2 * i));
                o.push(b':');
                json(o, x.kid(2 * i + 1), e)
            }
            o.push(b'}')
        }
        Struct => fields(o),
        StructVariant => { var(o); fields(o); o.push(b'}') }
        F32 | F64 => if !finite(n) { o.put(b"null") },
    }
}
pub fn finite(n: &Node) -> bool {
    match n.k { F32 => n.v & 0x7F80_0000 != 0x7F80_0000, _ => n.v & 0x7FF0_0000_0000_0000 != 0x7FF0_0000_0000_0000 }
}
/// an object key: the text of the value between quotes
pub fn key<const M: usize>(o: &mut Out<M>, x: N) {
    let n = x.node();
    match n.k {
        NewtypeStruct => key(o, x.kid(0)),
        Bool | U8 | U16 | U32 | U64 | I8 | I16 | I32 | I64 => { o.push(b'"'); json(o, x, Enc::Array); o.push(b'"') }
        _ => json(o, x, Enc::Array),
    }
}
pub fn key_allowed(x: N) -> bool {
    match x.node().k {
        NewtypeStruct => key_allowed(x.kid(0)),
        Bool | U8 | U16 | U32 | U64 | I8 | I16 | I32 | I64 | Char | Str | Display | UnitVariant => true,
        _ => false,
    }
}

pub fn be<const M: usize>(o: &mut Out<M>, v: u64, n: usize) { for i in (0..n).rev() { o.push((v >> (8 * i)) as u8) } }

pub fn mp_uint<const M: usize>(o: &mut Out<M>, v: u64) {
    if v < 128 { o.push(v as u8) }
    else if v < 1 << 8 { o.push(0xcc); be(o, v, 1) }
    else if v < 1 << 16 { o.push(0xcd); be(o, v, 2) }
    else if v < 1 << 32 { o.push(0xce); be(o, v, 4) }
    else { o.push(0xcf); be(o, v, 8) }
}
/// the shortest encodings of a signed value: where a signed and an unsigned
/// format are equally short, both are
pub fn mp_int<const M: usize>(o: &mut Out<M>, v: i64, prefer_signed: bool) {
    if v >= 0 {
        if prefer_signed {
            if v >= 1 << 8 && v < 1 << 15 { o.push(0xd1); return be(o, v as u64, 2) }
            if v >= 1 << 16 && v < 1 << 31 { o.push(0xd2); return be(o, v as u64, 4) }
            if v >= 1 << 32 { o.push(0xd3); return be(o, v as u64, 8) }
        }
        return mp_uint(o, v as u64)
    }
    if v >= -32 { o.push(v as u8) }
    else if v >= -(1 << 7) { o.push(0xd0); be(o, v as u64, 1) }
    else if v >= -(1 << 15) { o.push(0xd1); be(o, v as u64, 2) }
    else if v >= -(1 << 31) { o.push(0xd2); be(o, v as u64, 4) }
    else { o.push(0xd3); be(o, v as u64, 8) }
}
pub fn mp_str_len<const M: usize>(o: &mut Out<M>, n: usize) {
    if n < 32 { o.push(0xa0 | n as u8) }
    else if n < 1 << 8 { o.push(0xd9); be(o, n as u64, 1) }
    else if n < 1 << 16 { o.push(0xda); be(o, n as u64, 2) }
    else { o.push(0xdb); be(o, n as u64, 4) }
}
pub fn mp_bin_len<const M: usize>(o: &mut Out<M>, n: usize) {
    if n < 1 << 8 { o.push(0xc4); be(o, n as u64, 1) }
    else if n < 1 << 16 { o.push(0xc5); be(o, n as u64, 2) }
    else { o.push(0xc6); be(o, n as u64, 4) }
}
pub fn mp_array_len<const M: usize>(o: &mut Out<M>, n: usize) {
    if n < 16 { o.push(0x90 | n as u8) }
    else if n < 1 << 16 { o.push(0xdc); be(o, n as u64, 2) }
    else { o.push(0xdd); be(o, n as u64, 4) }
}
pub fn mp_map_len<const M: usize>(o: &mut Out<M>, n: usize) {
    if n < 16 { o.push(0x80 | n as u8) }
    else if n < 1 << 16 { o.push(0xde); be(o, n as u64, 2) }
    else { o.push(0xdf); be(o, n as u64, 4) }
}
pub fn mp_str<const M: usize>(o: &mut Out<M>, s: &[u8]) { mp_str_len(o, s.len()); o.put(s) }

/// the documented MessagePack layouts
pub fn msgpack<const M: usize>(o: &mut Out<M>, x: N, f: Flavour) {
    let n = x.node();
    let var = |o: &mut Out<M>| match f { Flavour::Named => mp_str(o, VARIANTS[n.variant].as_bytes()), _ => mp_uint(o, n.variant as u64) };
    let list = |o: &mut Out<M>| { mp_array_len(o, n.n); for i in 0..n.n { msgpack(o, x.kid(i), f) } };
    let fields = |o: &mut Out<M>| {
        match f { Flavour::Compact => mp_array_len(o, x.written()), _ => mp_map_len(o, x.written()) }
        for i in 0..n.n {
            if x.skipped(i) { continue }
            match f { Flavour::Compact => {} Flavour::Index => mp_uint(o, i as u64), Flavour::Named => mp_str(o, FIELDS[i].as_bytes()) }
            msgpack(o, x.kid(i), f)
        }
    };
    match n.k {
        Unit | UnitStruct | Nil => o.push(0xc0),
        Bool => o.push(if n.v != 0 { 0xc3 } else { 0xc2 }),
        U8 | U16 | U32 | U64 => mp_uint(o, n.v),
        I8 | I16 | I32 | I64 => mp_int(o, signed(n), true),
        F32 => { o.push(0xca); be(o, n.v, 4) }
        F64 => { o.push(0xcb); be(o, n.v, 8) }
        Char => { let mut b = [0u8; 4]; mp_str(o, x.chr().encode_utf8(&mut b).as_bytes()) }
        Str | Display => mp_str(o, x.bytes()),
        Bytes => { mp_bin_len(o, x.bytes().len()); o.put(x.bytes()) }
        UnitVariant => var(o),
        Some | NewtypeStruct => msgpack(o, x.kid(0), f),
        NewtypeVariant => { o.push(0x81); var(o); msgpack(o, x.kid(0), f) }
        Seq | Tuple | TupleStruct => list(o),
        TupleVariant => { o.push(0x81); var(o); list(o) }
        Map => { mp_map_len(o, n.n / 2); for i in 0..n.n { msgpack(o, x.kid(i), f) } }
        Struct => fields(o),
        StructVariant => { o.push(0x81); var(o); fields(o) }
    }
}
