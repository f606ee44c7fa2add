//! What reading a JSON text as a type yields, from the format's grammar and
//! the documented mapping of types; independent of the crate under check.
use crate::node::{FIELDS, VARIANTS};
use crate::probe::{Log, Probe, Types, T, T::*};
use crate::refdec::{json_str_content, nib, skip_ws};
use crate::sym;
use crate::util::{utf8_valid, Out};
use serde::de::DeserializeSeed;
use ser_write_json::de as jd;

/// how strings become bytes
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Dec { Nope, Hex, Base64 }
pub const DECS: [Dec; 3] = [Dec::Nope, Dec::Hex, Dec::Base64];
type S = Out<80>;

pub struct Doc<'a> {
    pub b: &'a [u8],
    pub ts: &'a Types,
    pub dec: Dec,
    /// beyond the grammar: a reader may refuse it
    pub lax: bool,
    /// nothing is said about what a reader makes of it
    pub free: bool,
}
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
fn numeric(c: u8) -> bool { digit(c) || matches!(c, b'+' | b'-' | b'.' | b'e' | b'E') }
/// the run of number characters at `i`
pub fn num_run(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && numeric(b[i]) { i += 1 }
    i
}
/// is this a number of the JSON grammar
pub fn number(s: &[u8]) -> bool {
    let n = s.len();
    let digits = |mut i: usize| { while i < n && digit(s[i]) { i += 1 } i };
    let mut i = 0;
    if i < n && s[i] == b'-' { i += 1 }
    let j = if i < n && s[i] == b'0' { i + 1 } else { digits(i) };
    if j == i { return false }
    i = j;
    if i < n && s[i] == b'.' { let j = digits(i + 1); if j == i + 1 { return false } i = j }
    if i < n && (s[i] == b'e' || s[i] == b'E') {
        i += 1;
        if i < n && (s[i] == b'+' || s[i] == b'-') { i += 1 }
        let j = digits(i);
        if j == i { return false }
        i = j;
    }
    i == n
}
fn b64(c: u8) -> Option<u32> {
    Option::Some(match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, b'/' => 63, _ => return None } as u32)
}
use core::option::Option::{None, Some as Just};

impl<'a> Doc<'a> {
    pub fn new(b: &'a [u8], ts: &'a Types, dec: Dec) -> Self { Doc { b, ts, dec, lax: false, free: false } }
    fn at(&self, i: usize) -> Option<u8> { if i < self.b.len() { Just(self.b[i]) } else { None } }
    fn ws(&self, i: usize) -> usize { skip_ws(self.b, i) }
    fn is(&self, i: usize, c: u8) -> Option<usize> { if self.at(i)? == c { Just(i + 1) } else { None } }
    fn word(&self, mut i: usize, w: &[u8]) -> Option<usize> {
        for c in w { i = self.is(i, *c)? }
        Just(i)
    }
    fn boolean(&self, i: usize, l: &mut Log) -> Option<usize> {
        let v = self.at(i)? == b't';
        let i = self.word(i, if v { b"true" } else { b"false" })?;
        l.o.push(b'b');
        l.o.push(v as u8);
        Just(i)
    }
    /// `-`, then 0 or digits that do not begin with 0; at most `min` below and `max` above zero
    fn int(&mut self, mut i: usize, min: i64, max: u64, l: &mut Log) -> Option<usize> {
        let neg = self.at(i)? == b'-';
        if neg { i += 1 }
        let c = self.at(i)?;
        if !digit(c) { return None }
        let mut j = i + 1;
        if c != b'0' { while j < self.b.len() && digit(self.b[j]) { j += 1 } }
        // no unsigned number begins with a sign
        if neg && min == 0 { self.lax = true; if c != b'0' { return None } }
        self.decimal(neg, i, j, min, max, l)?;
        Just(j)
    }
    /// the value of the digits at `i..j`
    fn decimal(&self, neg: bool, i: usize, j: usize, min: i64, max: u64, l: &mut Log) -> Option<()> {
        // cannot overflow
        let short = j - i < 19;
        if neg {
            let mut v = 0i64;
            for k in i..j {
                let d = (self.b[k] as u32).wrapping_sub(48) as i64;
                v = if short { v.wrapping_mul(10).wrapping_sub(d) } else { v.checked_mul(10)?.checked_sub(d)? };
                if v < min { return None }
            }
            l.num(v < 0, v as u64);
        } else {
            let mut v = 0u64;
            for k in i..j {
                let d = (self.b[k] as u32).wrapping_sub(48) as u64;
                v = if short { v.wrapping_mul(10).wrapping_add(d) } else { v.checked_mul(10)?.checked_add(d)? };
                if v > max { return None }
            }
            l.num(false, v);
        }
        Just(())
    }
    /// quoted text; decoded, not looked at for UTF-8
    fn quoted(&self, i: usize, o: &mut S) -> Option<usize> {
        let i = self.is(i, b'"')?;
        json_str_content(self.b, i, o)
    }
    fn text(&self, i: usize, o: &mut S) -> Option<usize> {
        let i = self.quoted(i, o)?;
        if utf8_valid(o.as_slice()) { Just(i) } else { None }
    }
    fn string(&self, i: usize, l: &mut Log) -> Option<usize> {
        let mut o = S::new();
        let i = self.text(i, &mut o)?;
        l.bytes(b'"', o.as_slice());
        Just(i)
    }
    fn character(&self, i: usize, l: &mut Log) -> Option<usize> {
        let mut o = S::new();
        let i = self.text(i, &mut o)?;
        let s = o.as_slice();
        if s.is_empty() { return None }
        let c = s[0];
        let n = if c < 0x80 { 1 } else if c < 0xe0 { 2 } else if c < 0xf0 { 3 } else { 4 };
        if s.len() != n { return None }
        let mut v = match n { 1 => c, 2 => c & 0x1f, 3 => c & 0xf, _ => c & 7 } as u32;
        for k in 1..n { v = v << 6 | (s[k] & 0x3f) as u32 }
        l.o.push(b'c');
        l.o.put(&v.to_be_bytes());
        Just(i)
    }
    /// where the next element begins, or what is behind the end
    fn next(&self, i: usize, n: usize, end: u8) -> Option<(bool, usize)> {
        let i = self.ws(i);
        let c = self.at(i)?;
        if c == end { return Just((false, i + 1)) }
        if n == 0 { return if c == b',' { None } else { Just((true, i)) } }
        let i = self.is(i, b',')?;
        let i = self.ws(i);
        if self.at(i)? == end { None } else { Just((true, i)) }
    }
    fn colon(&self, i: usize) -> Option<usize> { let i = self.ws(i); self.is(i, b':') }
    fn bytes(&mut self, mut i: usize, l: &mut Log) -> Option<usize> {
        let mut o = S::new();
        if self.at(i)? == b'[' {
            i += 1;
            let mut n = 0;
            loop {
                let (more, j) = self.next(i, n, b']')?;
                if !more { i = j; break }
                let mut v = Log::new();
                i = self.int(j, 0, 255, &mut v)?;
                o.push(v.o.buf[v.o.len - 1]);
                n += 1;
            }
        } else {
            match self.dec {
                Dec::Nope => i = self.quoted(i, &mut o)?,
                Dec::Hex => {
                    i = self.is(i, b'"')?;
                    while self.at(i)? != b'"' { o.push(nib(self.at(i)?)? << 4 | nib(self.at(i + 1)?)?); i += 2 }
                    i += 1
                }
                Dec::Base64 => {
                    i = self.is(i, b'"')?;
                    let (mut acc, mut n) = (0u32, 0usize);
                    while let Just(v) = b64(self.at(i)?) {
                        acc = acc << 6 | v;
                        n += 1;
                        if n % 4 != 1 { o.push((acc >> [0, 0, 4, 2][n % 4]) as u8) }
                        i += 1
                    }
                    if n % 4 == 1 { return None }
                    // padding is not written; how it is taken is not asked here
                    while self.at(i)? == b'=' { self.lax = true; i += 1 }
                    i = self.is(i, b'"')?
                }
            }
        }
        l.bytes(b'x', o.as_slice());
        Just(i)
    }
    /// the position behind the value at `i`
    pub fn skip(&mut self, i: usize) -> Option<usize> {
        let i = self.ws(i);
        match self.at(i)? {
            b'n' => self.word(i, b"null"),
            b't' => self.word(i, b"true"),
            b'f' => self.word(i, b"false"),
            b'"' => self.skip_string(i),
            b'[' => {
                let (mut i, mut n) = (i + 1, 0);
                loop {
                    let (more, j) = self.next(i, n, b']')?;
                    if !more { return Just(j) }
                    i = self.skip(j)?;
                    n += 1;
                }
            }
            b'{' => {
                let (mut i, mut n) = (i + 1, 0);
                loop {
                    let (more, j) = self.next(i, n, b'}')?;
                    if !more { return Just(j) }
                    let j = self.skip_string(j)?;
                    let j = self.colon(j)?;
                    i = self.skip(j)?;
                    n += 1;
                }
            }
            c if c == b'-' || digit(c) => {
                let j = num_run(self.b, i);
                if !number(&self.b[i..j]) { self.lax = true }
                Just(j)
            }
            _ => None,
        }
    }
    /// text is well formed when every escape is one of JSON's and the rest is UTF-8
    fn skip_string(&mut self, i: usize) -> Option<usize> {
        let mut i = self.is(i, b'"')?;
        let start = i;
        loop {
            match self.at(i)? {
                b'"' => { if !utf8_valid(&self.b[start..i]) { self.lax = true } return Just(i + 1) }
                0..=31 => return None,
                b'\\' => {
                    match self.at(i + 1)? {
                        b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => {}
                        b'u' => for k in 2..6 { if i + k >= self.b.len() || nib(self.b[i + k]).is_none() { self.lax = true } },
                        // a control character
                        0..=31 => return None,
                        _ => self.lax = true,
                    }
                    i += 2
                }
                _ => i += 1,
            }
        }
    }
    fn float(&mut self, i: usize, k: T, l: &mut Log) -> Option<usize> {
        if self.at(i)? == b'n' {
            let i = self.word(i, b"null")?;
            if k == F32 { l.o.push(b'g'); l.o.put(&f32::NAN.to_bits().to_be_bytes()) } else { l.o.push(b'd'); l.o.put(&f64::NAN.to_bits().to_be_bytes()) }
            return Just(i)
        }
        let j = num_run(self.b, i);
        self.float_token(i, j, k, l)
    }
    fn float_token(&mut self, i: usize, j: usize, k: T, l: &mut Log) -> Option<usize> {
        let s = &self.b[i..j];
        if !number(s) { self.lax = true }
        let s = unsafe { core::str::from_utf8_unchecked(s) };
        if k == F32 {
            let v: f32 = match s.parse() { Ok(v) => v, Err(_) => return None };
            l.o.push(b'g');
            l.o.put(&v.to_bits().to_be_bytes());
        } else {
            let v: f64 = match s.parse() { Ok(v) => v, Err(_) => return None };
            l.o.push(b'd');
            l.o.put(&v.to_bits().to_be_bytes());
        }
        Just(j)
    }
    fn any(&mut self, i: usize, t: u8, l: &mut Log) -> Option<usize> {
        match self.at(i)? {
            b'n' => { let i = self.word(i, b"null")?; l.o.push(b'0'); Just(i) }
            b't' | b'f' => self.boolean(i, l),
            b'"' => self.string(i, l),
            b'[' => self.seq(i, t, l),
            b'{' => self.map(i, t, t, l),
            c if c == b'-' || digit(c) => {
                let j = num_run(self.b, i);
                let ok = number(&self.b[i..j]);
                let mut float = false;
                for k in i..j { float |= matches!(self.b[k], b'.' | b'e' | b'E') }
                if float { return self.float_token(i, j, if cfg!(feature = "de-any-f32") { F32 } else { F64 }, l) }
                for k in i..j { if (k > i && self.b[k] == b'-') || self.b[k] == b'+' { return None } }
                let neg = c == b'-';
                let s = &self.b[i + neg as usize..j];
                if s.is_empty() { return None }
                // leading zeros are not JSON
                if !ok { self.lax = true }
                self.decimal(neg, i + neg as usize, j, i64::MIN, u64::MAX, l)?;
                Just(j)
            }
            _ => None,
        }
    }
    fn seq(&mut self, i: usize, kid: u8, l: &mut Log) -> Option<usize> {
        let mut i = self.is(i, b'[')?;
        l.o.push(b'[');
        let mut n = 0;
        loop {
            let (more, j) = self.next(i, n, b']')?;
            if !more { l.o.push(b']'); return Just(j) }
            i = self.value(j, kid, l)?;
            n += 1;
        }
    }
    fn map(&mut self, i: usize, key: u8, kid: u8, l: &mut Log) -> Option<usize> {
        let mut i = self.is(i, b'{')?;
        l.o.push(b'<');
        let mut n = 0;
        loop {
            let (more, j) = self.next(i, n, b'}')?;
            if !more { l.o.push(b'>'); return Just(j) }
            if self.at(j)? != b'"' { return None }
            let j = self.key(j, key, l)?;
            let j = self.colon(j)?;
            i = self.value(j, kid, l)?;
            n += 1;
        }
    }
    fn bounds(k: T) -> (i64, u64) {
        match k {
            U8 => (0, 255), U16 => (0, 0xffff), U32 => (0, 0xffff_ffff), U64 => (0, u64::MAX),
            I8 => (-128, 127), I16 => (-32768, 32767), I32 => (i32::MIN as i64, i32::MAX as u64), _ => (i64::MIN, i64::MAX as u64),
        }
    }
    fn key(&mut self, i: usize, t: u8, l: &mut Log) -> Option<usize> {
        let ty = &self.ts.a[t as usize];
        match ty.k {
            U8 | U16 | U32 | U64 | I8 | I16 | I32 | I64 | Bool => {
                // blanks inside the quotes are not asked for
                let j = self.ws(i + 1);
                if j != i + 1 { self.lax = true }
                let j = if ty.k == Bool { self.boolean(j, l)? } else {
                    let (lo, hi) = Self::bounds(ty.k);
                    self.int(j, lo, hi, l)?
                };
                self.is(j, b'"')
            }
            Char => self.character(i, l),
            Str | String | Any | Ident => self.string(i, l),
            Newtype => self.key(i, ty.kid[0], l),
            Enum => {
                let (j, v) = self.variant(i)?;
                if v != 0 { return None }
                l.o.push(b'e');
                l.o.push(0);
                Just(j)
            }
            _ => { self.free = true; None }
        }
    }
    fn variant(&self, i: usize) -> Option<(usize, usize)> {
        let mut o = S::new();
        let i = self.text(i, &mut o)?;
        for v in 0..VARIANTS.len() { if VARIANTS[v].as_bytes() == o.as_slice() { return Just((i, v)) } }
        None
    }
    /// exactly as many elements as the type has
    fn tuple(&mut self, i: usize, t: u8, names: bool, l: &mut Log) -> Option<usize> {
        let ty = self.ts.a[t as usize];
        let mut i = self.is(i, b'[')?;
        l.o.push(if names { b'{' } else { b'[' });
        for n in 0..ty.n {
            let (more, j) = self.next(i, n, b']')?;
            if !more { return None }
            if names { l.o.push(n as u8) }
            i = self.value(j, ty.kid[n], l)?;
        }
        let (more, j) = self.next(i, ty.n, b']')?;
        l.o.push(b']');
        if more { None } else { Just(j) }
    }
    fn object(&mut self, i: usize, t: u8, l: &mut Log) -> Option<usize> {
        let ty = self.ts.a[t as usize];
        let mut i = self.is(i, b'{')?;
        let mut ls = [Log::new(), Log::new(), Log::new()];
        let mut seen = [false; 3];
        let mut n = 0;
        loop {
            let (more, j) = self.next(i, n, b'}')?;
            if !more { i = j; break }
            let mut o = S::new();
            let j = self.text(j, &mut o)?;
            let j = self.colon(j)?;
            let mut f = 9;
            for k in 0..ty.n { if FIELDS[k].as_bytes() == o.as_slice() { f = k } }
            if f == 9 { i = self.skip(j)? } else {
                if seen[f] { return None }
                seen[f] = true;
                i = self.value(j, ty.kid[f], &mut ls[f])?;
            }
            n += 1;
        }
        l.o.push(b'{');
        for k in 0..ty.n {
            l.o.push(k as u8);
            if seen[k] { l.o.put(ls[k].as_slice()) }
            else if self.ts.a[ty.kid[k] as usize].k == Opt { l.o.push(b'0') }
            else { return None }
        }
        l.o.push(b']');
        Just(i)
    }
    /// the value at `i` as type `t`: what is recorded, and where it ends
    pub fn value(&mut self, i: usize, t: u8, l: &mut Log) -> Option<usize> {
        let i = self.ws(i);
        let ty = self.ts.a[t as usize];
        match ty.k {
            Unit | UnitStruct => { let i = self.word(i, b"null")?; l.o.push(b'0'); Just(i) }
            Bool => self.boolean(i, l),
            U8 | U16 | U32 | U64 | I8 | I16 | I32 | I64 => {
                let (lo, hi) = Self::bounds(ty.k);
                self.int(i, lo, hi, l)
            }
            F32 | F64 => self.float(i, ty.k, l),
            Char => self.character(i, l),
            Str | String | Ident => self.string(i, l),
            Bytes | ByteBuf => self.bytes(i, l),
            Any => self.any(i, t, l),
            Ignored => { let i = self.skip(i)?; l.o.push(b'0'); Just(i) }
            Opt => {
                if self.at(i)? == b'n' { let i = self.word(i, b"null")?; l.o.push(b'0'); return Just(i) }
                l.o.push(b's');
                self.value(i, ty.kid[0], l)
            }
            Newtype => self.value(i, ty.kid[0], l),
            Seq => self.seq(i, ty.kid[0], l),
            Tuple | TupleStruct => self.tuple(i, t, false, l),
            Map => self.map(i, ty.kid[0], ty.kid[1], l),
            Struct => if self.at(i)? == b'[' { self.tuple(i, t, true, l) } else { self.object(i, t, l) },
            Enum => {
                if self.at(i)? == b'"' {
                    let (i, v) = self.variant(i)?;
                    if v != 0 { return None }
                    l.o.push(b'e');
                    l.o.push(0);
                    return Just(i)
                }
                let i = self.is(i, b'{')?;
                let (i, v) = self.variant(self.ws(i))?;
                let i = self.colon(i)?;
                l.o.push(b'e');
                l.o.push(v as u8);
                let i = match v {
                    // a unit variant is written as a string
                    0 => { self.free = true; return None }
                    1 => self.value(i, ty.kid[0], l)?,
                    _ => {
                        let i = self.ws(i);
                        if ty.n == 2 && self.at(i)? == b'{' { self.object(i, t, l)? } else { self.tuple(i, t, false, l)? }
                    }
                };
                let i = self.ws(i);
                self.is(i, b'}')
            }
        }
    }
}

/// what became of a text
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Fate { Read, Trailing, Refused }
/// the real reader
pub fn read<'a>(b: &'a mut [u8], ts: &Types, t: u8, dec: Dec, log: &mut Log) -> Result<(usize, Result<(), jd::Error>), jd::Error> {
    macro_rules! run { ($d:ident) => {{
        let mut d = jd::$d::from_mut_slice(b);
        Probe::new(ts, t, log).deserialize(&mut d)?;
        Ok((d.remaining_len(), d.end()))
    }} }
    match dec { Dec::Nope => run!(DeserializerNopeByteStr), Dec::Hex => run!(DeserializerHexByteStr), Dec::Base64 => run!(DeserializerBase64ByteStr) }
}
/// read and compare with what is to be expected
pub fn judge(b: &mut [u8], ts: &Types, t: u8, dec: Dec) -> Fate {
    let n = b.len();
    let mut orig = [0u8; 80];
    orig[..n].copy_from_slice(b);
    let (mut want, mut got) = (Log::new(), Log::new());
    let mut doc = Doc::new(&orig[..n], ts, dec);
    let end = doc.value(0, t, &mut want);
    let base = b.as_ptr();
    match read(b, ts, t, dec, &mut got) {
        Ok((left, r)) => {
            check!(got.intact(base, n));
            if !doc.free {
                check!(end.is_some());
                if let Just(e) = end {
                    check!(sym::eq(got.as_slice(), want.as_slice()));
                    // behind the value, or behind blanks that follow it
                    let e2 = skip_ws(&orig[..n], e);
                    check!(left <= n && n - left >= e && n - left <= e2);
                    check!(r == if e2 == n { Ok(()) } else { Err(jd::Error::TrailingCharacters) });
                }
            }
            if r.is_ok() { Fate::Read } else { Fate::Trailing }
        }
        Err(e) => {
            check!(doc.free || doc.lax || end.is_none());
            check!(e != jd::Error::TrailingCharacters);
            Fate::Refused
        }
    }
}
