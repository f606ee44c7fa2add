SEEDS = {}
LIB, FOR = "src/lib.rs", "src/foreign.rs"
JS, JD, JB = "ser-write-json/src/ser.rs", "ser-write-json/src/de.rs", "ser-write-json/src/base64.rs"
MS, MD, MM = "ser-write-msgpack/src/ser.rs", "ser-write-msgpack/src/de.rs", "ser-write-msgpack/src/lib.rs"

def S(id, prop, edits, demo, needs, breaks, **kw):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw)

S("c01-heapless-bytewise", "C01",
  [(FOR, "        self.extend_from_slice(buf).map_err(|_| SerError::BufferFull)\n",
         "        buf.iter().try_for_each(|&byte| self.push(byte)).map_err(|_| SerError::BufferFull)\n", 2)],
  r'''
use ser_write::SerWrite;
fn main() {
    let v: &mut heapless::VecView<u8, usize> = &mut heapless::Vec::<u8, 4, usize>::new();
    v.write(b"ab").unwrap();
    assert!(v.write(b"cde").is_err());
    assert_eq!(v.as_slice(), b"ab");
}''', "a multi-byte write to a heapless VecView that fits only in part",
  "a failed write leaves part of the refused bytes in the buffer", fw="std,heapless",
  deps='heapless = { version = "0.9.2", default-features = false }')

S("c02-deque-ring", "C02",
  [(FOR, "        self.extend(buf.iter().copied());\n", '''        let len = self.len();
        self.resize(len + buf.len(), 0);
        let (head, tail) = self.as_mut_slices();
        if let Some(split) = len.checked_sub(head.len()) {
            tail[split..].copy_from_slice(buf);
        }
        else if tail.len() < 2 {
            let (a, b) = buf.split_at(buf.len() - tail.len());
            head[len..].copy_from_slice(a);
            tail.copy_from_slice(b);
        }
        else {
            let (a, b) = buf.split_at(head.len() - len);
            head[len..].copy_from_slice(a);
            tail[..b.len() - 1].copy_from_slice(&b[..b.len() - 1]);
        }
''')],
  r'''
use ser_write::SerWrite;
use std::collections::VecDeque;
fn main() {
    let mut v: VecDeque<u8> = VecDeque::with_capacity(8);
    let cap = v.capacity();
    for _ in 0..cap - 2 { v.push_back(b'x'); }
    for _ in 0..cap - 2 { v.pop_front(); }
    v.push_back(b'>');
    SerWrite::write(&mut v, b"abcd").unwrap();
    assert_eq!(v.iter().copied().collect::<Vec<u8>>(), b">abcd");
}''', "a write to a VecDeque whose free space wraps around the end of its ring buffer by two bytes or more",
  "the last byte written is lost (zero) when the written bytes straddle the wrap point")

S("c02-deque-byte-oom", "C02",
  [(FOR, "        self.try_reserve(1)?;\n        self.push_back(byte);\n        Ok(())\n",
         "        if self.len() == usize::MAX {\n            return Err(SerError::BufferFull)\n        }\n        self.push_back(byte);\n        Ok(())\n")],
  r'''
use std::alloc::*;
use std::sync::atomic::*;
use ser_write::SerWrite;
struct A;
static FAIL: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if FAIL.load(Ordering::Relaxed) { std::ptr::null_mut() } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if FAIL.load(Ordering::Relaxed) { std::ptr::null_mut() } else { System.realloc(p, l, n) } }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut v = std::collections::VecDeque::new();
    SerWrite::write(&mut v, b"abc").unwrap();
    while v.len() < v.capacity() { v.push_back(b'.'); }
    let n = v.len();
    FAIL.store(true, Ordering::Relaxed);
    let r = v.write_byte(b'x').is_err();
    FAIL.store(false, Ordering::Relaxed);
    assert!(r && v.len() == n);
}''', "an allocation failure while a single byte is written to a full VecDeque",
  "the process aborts instead of reporting buffer full")

S("c03-cursor-short-write", "C03",
  [(FOR, "        std::io::Write::write_all(self, buf).map_err(|_| SerError::BufferFull)\n",
'''        match std::io::Write::write(self, buf) {
            Ok(0) if !buf.is_empty() => Err(SerError::BufferFull),
            Ok(_) => Ok(()),
            Err(_) => Err(SerError::BufferFull)
        }
''')],
  r'''
use std::io::Cursor;
fn main() {
    for cap in 0..5usize {
        let mut c = Cursor::new(vec![0u8; cap].into_boxed_slice());
        assert_eq!(ser_write_json::ser::to_writer(&mut c, &12345u32).is_ok(), false, "{}", cap);
    }
    let mut c = Cursor::new(vec![0u8; 5].into_boxed_slice());
    ser_write_json::ser::to_writer(&mut c, &12345u32).unwrap();
}''', "a fixed-size cursor with room for only part of the last write",
  "serialization reports success although the encoding was cut short")

S("c03-hex-break", "C03",
  [(JS, "            writer.write(&hex(byte))?;\n        }\n        Ok(())",
        "            if writer.write(&hex(byte)).is_err() {\n                break;\n            }\n        }\n        Ok(())")],
  r'''
use serde_bytes::Bytes;
fn main() {
    for cap in 0..10usize {
        let mut buf = vec![0u8; cap];
        let mut w = ser_write::SliceWriter::new(&mut buf);
        let ok = ser_write_json::ser::to_writer_hex_bytes(&mut w, Bytes::new(b"abcd")).is_ok();
        assert_eq!(ok, cap >= 10, "{}", cap);
    }
}''', "hex-encoded bytes written to a buffer that has one byte left when a pair of digits does not fit",
  "a truncated hex string is reported as a success")

S("c04-pass-utf8-last-byte", "C04",
  [(JS, "    String::from_utf8(vec).map_err(|_| Error::Utf8Encode)\n",
'''    match vec.last() {
        /* SAFETY: an ASCII end means the text is not cut in the middle of a code point */
        Some(byte) if byte.is_ascii() => Ok(unsafe { String::from_utf8_unchecked(vec) }),
        _ => String::from_utf8(vec).map_err(|_| Error::Utf8Encode)
    }
''')],
  r'''
use serde_bytes::Bytes;
fn main() {
    if let Ok(s) = ser_write_json::ser::to_string_pass_bytes(&[Bytes::new(b"\xff\xfe")]) {
        assert!(std::str::from_utf8(s.as_bytes()).is_ok());
    }
}''', "pass-through bytes that are not UTF-8, inside an array or object",
  "a String with invalid UTF-8 is returned")

S("j01-u64-halves", "J01",
  [(JS, "        serialize_unsigned!(self, 20, v)\n",
'''        const SPLIT: u64 = 10_000_000_000;
        if v >= SPLIT {
            self.serialize_u64(v / SPLIT)?;
            return self.serialize_u64(v % SPLIT)
        }
        serialize_unsigned!(self, 20, v)
''')],
  r'''
fn main() {
    for v in [0u64, 9_999_999_999, 10_000_000_000, 20_000_000_001, 18_446_744_073_709_551_615, 1_100_000_000_000] {
        assert_eq!(ser_write_json::ser::to_string(&v).unwrap(), v.to_string());
    }
}''', "an unsigned 64-bit value above 10^10 whose low ten digits begin with a zero",
  "the zeros in the middle of the number are dropped")

S("j02-char-fast-path", "J02",
  [(JS, "        let mut encoding_tmp = [0u8; 4];\n        let encoded = v.encode_utf8(&mut encoding_tmp);\n        self.serialize_str(encoded)\n",
'''        if v.is_ascii() && !v.is_ascii_control() {
            return Ok(self.output.write(&[b'"', v as u8, b'"'])?)
        }
        let mut encoding_tmp = [0u8; 4];
        let encoded = v.encode_utf8(&mut encoding_tmp);
        self.serialize_str(encoded)
''')],
  r'''
fn main() {
    for c in ['a', '"', '\\', '\n', '\u{7f}', 'é'] {
        assert_eq!(ser_write_json::ser::to_string(&c).unwrap(), ser_write_json::ser::to_string(c.encode_utf8(&mut [0; 4])).unwrap());
    }
}''', "a char that is a quotation mark or a reverse solidus", "it is written unescaped, giving malformed JSON")

S("j03-hex-nib-mask", "J03",
  [(JD, "        n@b'0'..=b'9' => Some(n - b'0'),\n        _ => match ch|0x20 {\n            n@b'a'..=b'f' => Some(n - b'a' + 10),\n            _ => None\n        }\n",
        "        b'0'..=b'9' => Some(ch - b'0'),\n        _ => match ch & 0xDF {\n            b'A'..=b'F' => Some((ch & 0x0F) + 9),\n            0x10..=0x19 => Some(ch & 0x0F),\n            _ => None\n        }\n")],
  r'''
fn main() {
    for c in 0u8..=255 {
        let mut b = [b'"', b'\\', b'u', b'0', b'0', b'4', c, b'"'];
        let ok = ser_write_json::de::from_mut_slice::<String>(&mut b).is_ok();
        assert_eq!(ok, c.is_ascii_hexdigit(), "{:02x}", c);
    }
}''', "a control character 0x10..=0x19 in the place of a digit of a \\u escape", "it is accepted as a hex digit")

S("j04-mul-wrap", "J04",
  [(JD, "                self.checked_mul(10)\n                .ok_or(Error::InvalidNumber)\n",
        "                let res = self.wrapping_mul(10);\n                (res / 9 >= self || res <= self).then_some(res)\n                .filter(|&res| (res < Self::ZERO) == (self < Self::ZERO) && (res >= self || self < Self::ZERO))\n                .ok_or(Error::InvalidNumber)\n")],
  r'''
fn main() {
    for v in 0u32..1000 {
        let mut b = v.to_string().into_bytes();
        let r = ser_write_json::de::from_mut_slice::<u8>(&mut b).ok();
        assert_eq!(r, u8::try_from(v).ok(), "{}", v);
    }
    for v in -1000i32..1000 {
        let mut b = v.to_string().into_bytes();
        let r = ser_write_json::de::from_mut_slice::<i8>(&mut b).ok();
        assert_eq!(r, i8::try_from(v).ok(), "{}", v);
    }
}''', "a number whose multiplication by ten overflows to a larger value", "an out-of-range number is read as another value")

S("j04-minus-space", "J04",
  [(JD, "            self.eat_some(1);\n            peek = self.peek()?;\n            true\n",
        "            self.eat_some(1);\n            peek = self.eat_whitespace()?;\n            true\n")],
  r'''
fn main() {
    let mut b = *b"- 5";
    assert!(ser_write_json::de::from_mut_slice::<i32>(&mut b).is_err());
    let mut b = *b"-5";
    assert_eq!(ser_write_json::de::from_mut_slice::<i32>(&mut b).unwrap(), -5);
}''', "whitespace between a minus sign and the digits", "a malformed number is accepted")

S("j05-base64-url-minus", "J05",
  [(JB, "        b'/' => Some(63),\n        b'+' => Some(62),\n", "        b'/' | b'_' => Some(63),\n        b'+' => Some(62),\n")],
  r'''
fn main() {
    let mut b = *b"\"AA__\"";
    assert!(ser_write_json::de::from_mut_slice_base64_bytes::<serde_bytes::ByteBuf>(&mut b).is_err());
}''', "an underscore in base64 text", "a character outside the standard alphabet is accepted")

S("j05-array-byte-wrap", "J05",
  [(JD, "            let byte = self.parse_unsigned()?;\n", "            let byte = self.parse_unsigned::<u16>()?;\n            let byte = if byte <= 0x1FF && byte & 0x1FE != 0x100 { byte as u8 } else { return Err(Error::InvalidNumber) };\n")],
  r'''
fn main() {
    for v in 0u32..70000 {
        let mut b = format!("[1,{}]", v).into_bytes();
        let r = ser_write_json::de::from_mut_slice::<serde_bytes::ByteBuf>(&mut b).ok();
        assert_eq!(r.map(|b| b.to_vec()), u8::try_from(v).ok().map(|v| vec![1, v]), "{}", v);
    }
}''', "a byte array element in 258..=511", "an out-of-range element is reduced modulo 256")

S("j06-variant-key-raw", "J06",
  [(JS, "        key.serialize(&mut *self.ser)?;\n        self.ser.output.write(b\":\")?;\n",
        "        self.ser.output.write_byte(b'\"')?;\n        self.ser.output.write_str(key)?;\n        self.ser.output.write(b\"\\\":\")?;\n", 2)],
  r'''
use serde::Serialize;
#[derive(Serialize)]
enum E { V { #[serde(rename = "a\"b")] x: u8 } }
fn main() {
    assert_eq!(ser_write_json::ser::to_string(&E::V { x: 1 }).unwrap(), r#"{"V":{"a\"b":1}}"#);
}''', "a struct variant with a field name that needs escaping", "malformed JSON")

S("j12-form-feed", "J12",
  [(JD, "        .position(|&b| !matches!(b, SP|T_|N_|R_))\n", "        .position(|b| !b.is_ascii_whitespace())\n")],
  r'''
fn main() {
    for c in 0u8..=255 {
        let mut b = [b'1', c];
        let ok = ser_write_json::de::from_mut_slice::<bool>(&mut [b't', b'r', b'u', b'e', c]).is_ok();
        assert_eq!(ok, matches!(c, b' ' | b'\t' | b'\n' | b'\r'), "{:02x}", c);
        b[0] = 0;
    }
}''', "a form feed character between or after tokens", "it is accepted as whitespace")

S("j14-bigint-float", "J14",
  [(JD, "            AnyNumber::PosInt(u64::from_str(s)?)\n",
        "            match u64::from_str(s) {\n                Ok(n) => AnyNumber::PosInt(n),\n                /* too large for an integer */\n                Err(..) => AnyNumber::Float(AnyFloat::from_str(s)?)\n            }\n")],
  r'''
use serde::{de, Deserialize};
#[derive(Debug)]
struct Any(String);
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("any") }
            fn visit_u64<E>(self, v: u64) -> Result<Any, E> { Ok(Any(format!("u{}", v))) }
            fn visit_i64<E>(self, v: i64) -> Result<Any, E> { Ok(Any(format!("i{}", v))) }
            fn visit_f64<E>(self, v: f64) -> Result<Any, E> { Ok(Any(format!("f{}", v))) }
            fn visit_f32<E>(self, v: f32) -> Result<Any, E> { Ok(Any(format!("f{}", v))) }
        }
        d.deserialize_any(V)
    }
}
fn main() {
    let mut b = b"18446744073709551615".to_vec();
    assert_eq!(ser_write_json::de::from_mut_slice::<Any>(&mut b).unwrap().0, "u18446744073709551615");
    let mut b = b"18446744073709551616".to_vec();
    assert!(ser_write_json::de::from_mut_slice::<Any>(&mut b).is_err());
}''', "a positive integer of 65 bits or more read without a type hint", "it is silently read as a rounded float")

S("j15-f32-via-f64", "J15",
  [(JD, "        visitor.visit_f32(self.parse_float()?.unwrap_or(f32::NAN))\n",
        "        visitor.visit_f32(self.parse_float()?.map(|v: f64| v as f32).unwrap_or(f32::NAN))\n")],
  r'''
fn main() {
    let t = "1.000000059604644775390626";
    let v: f32 = ser_write_json::de::from_mut_slice(&mut t.as_bytes().to_vec()).unwrap();
    assert_eq!(v, t.parse::<f32>().unwrap());
}''', "a decimal a hair above the midpoint of two f32 values", "the value is rounded twice and comes out one ulp off")

S("m01-int16-order", "M01",
  [(MS, "        else if let Ok(v) = i16::try_from(v) {\n            self.output.write_byte(INT_16)?;\n            self.output.write(&v.to_be_bytes())?;\n        }\n        else if let Ok(v) = u16::try_from(v) {\n            self.output.write_byte(UINT_16)?;\n            self.output.write(&v.to_be_bytes())?;\n        }\n        else if let Ok(v) = i32::try_from(v) {",
        "        else if v >= i16::MIN.into() && v <= u16::MAX.into() {\n            self.output.write_byte(if v <= -(i16::MIN as i64) { INT_16 } else { UINT_16 })?;\n            self.output.write(&(v as u16).to_be_bytes())?;\n        }\n        else if let Ok(v) = i32::try_from(v) {")],
  r'''
fn main() {
    for v in -70000i64..70000 {
        let b = ser_write_msgpack::ser::to_vec(&v).unwrap();
        assert_eq!(ser_write_msgpack::de::from_slice::<i64>(&b).unwrap().0, v);
    }
}''', "the i64 value 32768", "it is read back as -32768")

S("m03-nan-payload", "M03",
  [(MS, "        self.output.write_byte(FLOAT_64)?;\n        Ok(self.output.write(&v.to_be_bytes())?)\n",
        "        self.output.write_byte(FLOAT_64)?;\n        let v = if v == v { v } else { f64::NAN };\n        Ok(self.output.write(&v.to_be_bytes())?)\n")],
  r'''
fn main() {
    let v = f64::from_bits(0x7ff8_0000_dead_beef);
    let b = ser_write_msgpack::ser::to_vec(&v).unwrap();
    assert_eq!(ser_write_msgpack::de::from_slice::<f64>(&b).unwrap().0.to_bits(), v.to_bits());
}''', "a NaN with a payload or sign", "its bits are lost")

S("m03-u64-f32-twice", "M03",
  [(MD, "            UINT_64 => self.fetch_u64()? as f32,\n", "            UINT_64 => self.fetch_u64()? as f64 as f32,\n")],
  r'''
fn main() {
    let n = 0x8000_0080_0000_0001u64;
    let mut b = vec![0xcf]; b.extend(n.to_be_bytes());
    assert_eq!(ser_write_msgpack::de::from_slice::<f32>(&b).unwrap().0, n as f32);
}''', "a 64-bit integer just above the midpoint of two f32 values, read as f32", "it is rounded twice, to a float that is not the nearest")

S("m05-map-extra", "M05",
  [(MS, "        self.len = self.len.checked_sub(1).ok_or(Error::MapLength)?;\n        key.serialize(&mut *self.ser)\n",
        "        self.len = self.len.saturating_sub(1);\n        key.serialize(&mut *self.ser)\n")],
  r'''
use serde::ser::{Serialize, Serializer, SerializeMap};
struct M;
impl Serialize for M {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_entry(&1u8, &1u8)?;
        m.serialize_entry(&2u8, &2u8)?;
        m.end()
    }
}
fn main() { assert!(ser_write_msgpack::ser::to_vec(&M).is_err()); }''',
  "a map that serializes more entries than its declared length", "a header that disagrees with the content is produced without an error")

S("m10-wide-field-index", "M10",
  [(MD, "            MIN_POSFIXINT..=MAX_POSFIXINT|\n            UINT_8|\n            UINT_16|\n            UINT_32 => self.deserialize_u32(visitor),\n",
        "            MIN_POSFIXINT..=MAX_POSFIXINT|\n            UINT_8 => self.deserialize_u8(visitor),\n            UINT_16|\n            UINT_32 => {\n                let index = self.parse_integer::<u32>()?;\n                visitor.visit_u8(index as u8)\n            }\n")],
  r'''
use serde::Deserialize;
#[derive(Deserialize, Debug, PartialEq)]
struct T { #[serde(default)] a: u8, #[serde(default)] b: u8 }
fn main() {
    // an unknown field index 257 is ignored
    let (t, _) = ser_write_msgpack::de::from_slice::<T>(&[0x81, 0xcd, 1, 1, 7]).unwrap();
    assert_eq!(t, T { a: 0, b: 0 });
}''', "a field index of 256 or more", "the index is taken modulo 256 and its value lands in another field")

S("j07-tuple-trailing-comma", "J07",
  [(JD, "            let value = visitor.visit_seq(CommaSeparated::new(self))?;\n            if b']' == self.eat_whitespace()? {\n",
        "            let value = visitor.visit_seq(CommaSeparated::new(self))?;\n            if b',' == self.eat_whitespace()? && self.input[self.index + 1..].first() == Some(&b']') {\n                self.eat_some(1);\n            }\n            if b']' == self.eat_whitespace()? {\n")],
  r'''
fn main() {
    for t in ["[1,2,]", "[1,2,,]", "[1,2,3]"] {
        assert!(ser_write_json::de::from_mut_slice::<(u8, u8)>(&mut t.as_bytes().to_vec()).is_err(), "{}", t);
    }
}''', "a trailing comma right before the bracket that closes a tuple", "malformed JSON is accepted")

S("m04-field-index-fixint", "M04",
  [(MS, "        self.idx = idx.wrapping_add(1);\n        self.ser.serialize_u32(idx)?;\n", "        self.idx = idx.wrapping_add(1);\n        self.ser.serialize_u8(idx as u8)?;\n", 1)],
  r'''
use serde::ser::*;
struct Wide(u32);
impl Serialize for Wide {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_struct("Wide", 1)?;
        for _ in 0..self.0 { t.skip_field("s")?; }
        t.serialize_field("x", &())?;
        t.end()
    }
}
fn main() {
    for n in [0, 1, 127, 128, 255, 256, 300] {
        let b = ser_write_msgpack::ser::to_vec(&Wide(n)).unwrap();
        let (m, _) = ser_write_msgpack::de::from_slice::<std::collections::BTreeMap<u32, ()>>(&b).unwrap();
        assert_eq!(m.into_keys().collect::<Vec<_>>(), [n]);
    }
}''', "a struct with more than 256 fields in the index-map flavour", "field indices wrap around")


S("j09-char-key-fast", "J09",
  [(JD, "        self.de.deserialize_char(visitor)\n",
        "        if let [QU, ch @ b' '..=b'~', QU, ..] = *self.de.input_mut()? {\n            self.de.eat_some(3);\n            return visitor.visit_char(ch.into())\n        }\n        self.de.deserialize_char(visitor)\n")],
  r'''
use std::collections::BTreeMap;
fn main() {
    for c in (0..128u8).map(char::from) {
        let m = BTreeMap::from([(c, 1u8)]);
        let mut t = ser_write_json::ser::to_string(&m).unwrap().into_bytes();
        let r = ser_write_json::de::from_mut_slice::<BTreeMap<char, u8>>(&mut t);
        assert_eq!(r.ok(), Some(m), "{:?}", c);
    }
}''', "the quotation mark as a char object key", "it is read back as a backslash followed by garbage, or refused")

S("j13-backslash-run", "J13",
  [(JD, "                        let count = self.input[start..end].iter().rev()\n                            .position(|&b| b != RS)\n                            .unwrap_or_else(|| end - start);\n",
        "                        let count = self.input[start..end].iter().rev()\n                            .take(4)\n                            .position(|&b| b != RS)\n                            .unwrap_or_else(|| (end - start).min(4));\n")],
  r'''
use serde::Deserialize;
#[derive(Deserialize)]
struct T { a: u8 }
fn main() {
    let mut t = br#"{"x":"\\\\\",\"a\":1,\"","a":2}"#.to_vec();
    assert_eq!(ser_write_json::de::from_mut_slice::<T>(&mut t).map(|t| t.a).ok(), Some(2));
}''', "a skipped string with five or more backslashes in a row before a quotation mark", "the string is taken to end at the escaped quotation mark")

S("j13-control-1f", "J13",
  [(JD, "                slice.iter().position(|&b| b == QU || b <= 0x1F))\n            {\n                let end = start + found;\n                // note",
        "                slice.iter().position(|&b| matches!(b, QU|..0x1F)))\n            {\n                let end = start + found;\n                // note")],
  r'''
use serde::Deserialize;
#[derive(Deserialize)]
struct T { #[allow(dead_code)] a: u8 }
fn main() {
    for c in 0..0x20u8 {
        let mut t = b"{\"x\":\"?\",\"a\":2}".to_vec();
        t[6] = c;
        assert!(ser_write_json::de::from_mut_slice::<T>(&mut t).is_err());
    }
}''', "a raw U+001F in the string of a skipped field", "malformed JSON is accepted")

S("m07-str16-signed", "M07",
  [(MD, "            BIN_16|STR_16 => Single(self.fetch_u16()?.into()),\n",
        "            BIN_16|STR_16 => Single(self.fetch_i16()?.unsigned_abs().into()),\n")],
  r'''
fn main() {
    for n in [0usize, 1, 255, 256, 300, 32767, 32768, 32769, 40000, 65535] {
        let mut b = vec![0x92, 0xda, (n >> 8) as u8, n as u8];
        b.resize(4 + n, b'a');
        b.push(7);
        let r = ser_write_msgpack::de::from_slice::<(serde::de::IgnoredAny, u8)>(&b);
        assert_eq!(r.map(|r| r.0.1).ok(), Some(7), "{}", n);
    }
}''', "a skipped string or binary of more than 32768 bytes", "the skip stops short and the rest of the text is read as the next value")

S("m08-option-eof", "M08",
  [(MD, "        match self.peek()? {\n            NIL => {\n                self.eat_some(1);\n                visitor.visit_none()\n            }\n            _ => visitor.visit_some(self)\n",
        "        match self.input.get(self.index..) {\n            Some([NIL, ..]) => {\n                self.eat_some(1);\n                visitor.visit_none()\n            }\n            Some([]) if self.index > 1 => visitor.visit_none(),\n            _ => visitor.visit_some(self)\n")],
  r'''
fn main() {
    let b = ser_write_msgpack::ser::to_vec(&(1u8, None::<u8>)).unwrap();
    assert!(ser_write_msgpack::de::from_slice::<(u8, Option<u8>)>(&b[..2]).is_err());
}''', "an option at the end of an encoding that was cut right before it", "the missing option is read as none")

S("m12-count-chars", "M12",
  [(MS, "        self.0 = self.0.checked_add(s.len()).ok_or(fmt::Error)?;\n", "        self.0 = self.0.checked_add(s.chars().count()).ok_or(fmt::Error)?;\n")],
  r'''
use serde::*;
struct D(&'static str);
impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self.0) }
}
fn main() {
    for t in ["", "abc", "\u{e9}", "a\u{20ac}b"] {
        let (mut a, mut b) = ([0u8; 20], [0u8; 20]);
        let mut w = ser_write::SliceWriter::new(&mut a);
        ser_write_msgpack::ser::to_writer_compact(&mut w, &D(t)).unwrap();
        let n = w.len;
        let mut w = ser_write::SliceWriter::new(&mut b);
        ser_write_msgpack::ser::to_writer_compact(&mut w, t).unwrap();
        assert_eq!(w.len, n);
        assert_eq!(a, b);
    }
}''', "a Display value with characters outside ASCII, without the std and alloc features", "it cannot be serialized", fw="", fj="", fm="")

S("j08-bool-newtype", "J08",
  [(JD, "        visitor.visit_newtype_struct(self)\n    }\n\n    fn deserialize_seq<V>",
        "        if self.eat_whitespace()? == b'n' {\n            return self.deserialize_option(visitor)\n        }\n        visitor.visit_newtype_struct(self)\n    }\n\n    fn deserialize_seq<V>")],
  r'''
use serde::*;
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct W(Option<u8>);
fn main() {
    for v in [W(None), W(Some(3))] {
        let mut t = ser_write_json::ser::to_string(&v).unwrap().into_bytes();
        assert_eq!(ser_write_json::de::from_mut_slice::<W>(&mut t).ok(), Some(v));
    }
}''', "a newtype struct around an option that is none", "the written null is refused")

S("j10-escape-range", "J10",
  [(JD, "                            Some(c@(BB..=TT)) => { /* control codes */\n", "                            Some(c@b'b'..=b'v') if c != UU => { /* control codes */\n")],
  r'''
fn main() {
    for c in 0..=255u8 {
        let mut t = b"\"\\??\"".to_vec();
        (t[2], t[3]) = (c, b' ');
        let _ = ser_write_json::de::from_mut_slice::<String>(&mut t);
    }
}''', "the escape \\v in a string", "the reader panics")

S("j10-uuuu-wide", "J10",
  [(JD, "    Some(u16::from_le_bytes([\n        (parse_hex_nib(c)? << 4) + parse_hex_nib(d)?,\n        (parse_hex_nib(a)? << 4) + parse_hex_nib(b)?]).into())\n",
        "    Some([a, b, c, d].into_iter().try_fold(0u16, |n, ch| Some((n << 4) | u16::from(parse_hex_nib(ch)?)))?.into())\n"),
   (JD, "        _ => match ch|0x20 {\n            n@b'a'..=b'f' => Some(n - b'a' + 10),\n", "        _ => match ch|0x20 {\n            n@b'`'..=b'f' => Some(n - b'a' + 10),\n")],
  r'''
fn main() {
    for c in [b'@', b'`'] {
        let mut t = b"\"0?\"".to_vec();
        t[2] = c;
        assert!(ser_write_json::de::from_mut_slice_hex_bytes::<serde_bytes::ByteBuf>(&mut t).is_err());
        let mut t = b"\"\\u000?\"".to_vec();
        t[6] = c;
        assert!(ser_write_json::de::from_mut_slice::<String>(&mut t).is_err());
    }
}''', "the character ` or @ in place of a hexadecimal digit", "debug builds panic, release builds decode it")

S("m11-bytes-from-str16", "M11",
  [(MD, "            BIN_16 => self.fetch_u16()?.into(),\n", "            BIN_16|STR_16 => self.fetch_u16()?.into(),\n")],
  r'''
fn main() {
    for c in 0..=255u8 {
        if !(0xc4..=0xc6).contains(&c) {
            assert!(ser_write_msgpack::de::from_slice::<&serde_bytes::Bytes>(&[c, 0, 0, 0, 0, 0]).is_err(), "{:x}", c);
        }
    }
}''', "a STR 16 value read as bytes", "the text is taken for binary data")

S("m11-utf8-tail", "M11",
  [(MD, "        Ok(core::str::from_utf8(self.split_input(len)?)?)\n",
        "        let bytes = self.split_input(len)?;\n        match core::str::from_utf8(bytes) {\n            /* only the last character is incomplete */\n            Err(e) if e.error_len().is_none() && e.valid_up_to() > 0 => Ok(core::str::from_utf8(&bytes[..e.valid_up_to()])?),\n            res => Ok(res?)\n        }\n")],
  r'''
fn main() {
    assert!(ser_write_msgpack::de::from_slice::<&str>(b"\xa3ab\xc3").is_err());
}''', "text that ends in the middle of a character", "the text is cut without an error")

S("m06-int64-min-float", "M06",
  [(MD, "            INT_64  => self.fetch_i64()? as f32,\n",
        "            INT_64  => match self.fetch_i64()? {\n                v if v < 0 => -((-v) as f32),\n                v => v as f32\n            }\n")],
  r'''
fn main() {
    assert_eq!(ser_write_msgpack::de::from_slice::<f32>(&[0xd3, 0x80, 0, 0, 0, 0, 0, 0, 0]).unwrap().0, i64::MIN as f32);
}''', "the integer -2^63 read as f32 by a debug build", "the reader panics")

S("m06-char-empty", "M06",
  [(MD, "        let ch = char::from_str(s).map_err(|_| Error::InvalidLength)?;\n",
        "        let ch = match *s.as_bytes() {\n            [a] => a.into(),\n            _ if s.len() <= 4 => s.chars().next_back().filter(|c| c.len_utf8() == s.len() || s.as_bytes()[s.len()] > 0).ok_or(Error::InvalidLength)?,\n            _ => return Err(Error::InvalidLength)\n        };\n")],
  r'''
fn main() {
    for t in [&b"\xa0"[..], b"\xa1a", b"\xa2ab", b"\xa2\xc3\xa9", b"\xa4\xf0\x9f\x92\xa9", b"\xa3\xc3\xa9a", b"\xa4abcd"] {
        let _ = ser_write_msgpack::de::from_slice::<char>(t);
    }
}''', "a string of two to four characters read as a char", "the reader panics")
del SEEDS["m06-char-empty"]

S("m09-big-float-int", "M09",
  [(MD, "            FLOAT_64 => self.deserialize_f64(visitor),\n            UINT_8 => self.deserialize_u8(visitor),\n",
        "            FLOAT_64 => {\n                self.eat_some(1);\n                match self.fetch_f64()? {\n                    f if f > 1e6 && f < 1e15 && f as u64 as f64 == f => visitor.visit_u64(f as u64),\n                    f => visitor.visit_f64(f)\n                }\n            }\n            UINT_8 => self.deserialize_u8(visitor),\n")],
  r'''
use serde::de;
#[derive(Debug, PartialEq)]
struct Any(&'static str);
impl<'de> de::Deserialize<'de> for Any {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("any") }
            fn visit_u64<E>(self, _: u64) -> Result<Any, E> { Ok(Any("u64")) }
            fn visit_f64<E>(self, _: f64) -> Result<Any, E> { Ok(Any("f64")) }
        }
        d.deserialize_any(V)
    }
}
fn main() {
    for v in [0.0, 1.5, 1e3, 1e9, 1e12, 1e18, -5e9] {
        let b = ser_write_msgpack::ser::to_vec(&v).unwrap();
        assert_eq!(ser_write_msgpack::de::from_slice::<Any>(&b).unwrap().0.0, "f64", "{}", v);
    }
}''', "a 64-bit float with a large integral value, read without a type hint", "it is read as an integer")

S("m02-long-variant-name", "M02",
  [(MS, "        write_str(&mut self.output, variant_name)\n", "        self.output.write_byte(FIXSTR | (variant_name.len() & MAX_FIXSTR_SIZE) as u8)?;\n        Ok(self.output.write_str(variant_name)?)\n")],
  r'''
use serde::*;
#[derive(Serialize, Deserialize, Debug, PartialEq)]
enum E { Short, AVariantWithAnExceptionallyLongName }
fn main() {
    for e in [E::Short, E::AVariantWithAnExceptionallyLongName] {
        let mut b = Vec::new();
        ser_write_msgpack::ser::to_writer_named(&mut b, &e).unwrap();
        assert_eq!(ser_write_msgpack::de::from_slice::<E>(&b).ok(), Some((e, b.len())));
    }
}''', "an enum variant whose name is 32 bytes or longer, written with names", "the string header states the wrong length")

S("j11-pad-scrub", "J11",
  [(JD, "                    return if input[elen] == QU {\n", "                    return if input[elen] == QU {\n                        /* wipe what is left of the encoded text */\n                        input.iter_mut().take(elen + 2).skip(dlen).for_each(|b| *b = SP);\n")],
  r'''
fn main() {
    for t in ["[\"QQ\",12]", "[\"QQ==\",12]", "[\"QUI=\",12]", "[\"QUJD\",12]"] {
        let mut b = t.as_bytes().to_vec();
        let r = ser_write_json::de::from_mut_slice_base64_bytes::<(serde_bytes::ByteBuf, u8)>(&mut b);
        assert_eq!(r.map(|r| r.1).ok(), Some(12), "{}", t);
    }
}''', "padded base64 text followed by another value", "the byte after the closing quotation mark is overwritten")

S("m07-map32-pairs", "M07",
  [(MD, "            MAP_32 => Map(self.fetch_u32()?.try_into()?),\n", "            MAP_32 => Map((self.fetch_u32()? & 0x7fff_ffff).try_into()?),\n")],
  r'''
fn main() {
    let mut b = vec![0x92, 0xdf, 0x80, 0, 0, 0];
    b.push(7);
    assert!(ser_write_msgpack::de::from_slice::<(serde::de::IgnoredAny, u8)>(&b).is_err());
}''', "a skipped map with a 32-bit count above 2^31", "the incomplete map is skipped as if it were empty")

S("j02-write-char", "J02",
  [(JS, "        format_escaped_str_contents(self.output, s).map_err(|_| fmt::Error)\n    }\n",
        "        format_escaped_str_contents(self.output, s).map_err(|_| fmt::Error)\n    }\n\n    fn write_char(&mut self, c: char) -> fmt::Result {\n        if (' '..='~').contains(&c) && c != '\"' {\n            return self.output.write_byte(c as u8).map_err(|_| fmt::Error)\n        }\n        self.write_str(c.encode_utf8(&mut [0; 4]))\n    }\n")],
  r'''
use serde::*;
use std::fmt::{self, Write};
struct D(char);
impl fmt::Display for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_char(self.0) }
}
impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) }
}
fn main() {
    for c in ['a', '"', '\\', '\n', '\u{e9}'] {
        assert_eq!(ser_write_json::ser::to_string(&D(c)).unwrap(), ser_write_json::ser::to_string(&c).unwrap());
    }
}''', "a Display implementation that writes a reverse solidus with write_char", "the reverse solidus is written raw")

S("c03-comma-swallow", "C03",
  [(JS, "        else {\n            self.ser.output.write_byte(b',')?;\n        }\n        value.serialize(&mut *self.ser)\n    }\n\n    fn end(self) -> Result<(), W::Error> {\n        Ok(self.ser.output.write(b\"]}\")?)\n",
        "        else {\n            self.ser.output.write_byte(b',').ok();\n        }\n        value.serialize(&mut *self.ser)\n    }\n\n    fn end(self) -> Result<(), W::Error> {\n        Ok(self.ser.output.write(b\"]}\")?)\n")],
  r'''
use serde::Serialize;
use ser_write::{SerWrite, SerError};
struct Flaky(usize, bool);
impl SerWrite for Flaky {
    type Error = SerError;
    fn write(&mut self, b: &[u8]) -> Result<(), SerError> {
        if b.is_empty() { return Ok(()) }
        if self.0 == 0 && !self.1 { self.1 = true; return Err(SerError::BufferFull) }
        self.0 = self.0.saturating_sub(1);
        Ok(())
    }
}
#[derive(Serialize)]
enum E { T(u8, bool) }
fn main() {
    for k in 0..20 {
        let mut f = Flaky(k, false);
        let r = ser_write_json::ser::to_writer(&mut f, &E::T(1, true));
        assert_eq!(r.is_ok(), !f.1, "{}", k);
    }
}''', "a sink that fails at the comma of a tuple variant and works again after", "the error is lost and a text without the comma is reported as written")

S("j14-upper-exponent", "J14",
  [(JD, "            b'.'|b'e'|b'E' => {\n                is_float = true;\n", "            b'.'|b'e'|b'E' => {\n                is_float |= b != b'E' || is_negative;\n")],
  r'''
#[derive(serde::Deserialize, Debug, PartialEq)]
#[serde(untagged)]
enum A { U(u64), F(f64) }
fn main() {
    let mut t = b"5E1".to_vec();
    let v: Option<A> = ser_write_json::de::from_mut_slice(&mut t).ok();
    assert_eq!(v, Some(A::F(50.0)));
}''', "an untyped positive number with a capital exponent and no point", "the number is refused")


S("m04-wide-index", "M04",
  [(MS, "        let idx = self.idx;\n        self.idx = idx.wrapping_add(1);\n        self.ser.serialize_u32(idx)?;\n", "        let idx = self.idx;\n        self.idx = idx.wrapping_add(1);\n        self.ser.serialize_u8(idx as u8)?;\n", 1)],
  r'''
use serde::ser::*;
struct W;
impl Serialize for W {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_struct("W", 2)?;
        m.serialize_field("a", &1u8)?;
        for _ in 0..256 { m.skip_field("b")?; }
        m.serialize_field("c", &2u8)?;
        m.end()
    }
}
fn main() { assert_eq!(ser_write_msgpack::ser::to_vec(&W).unwrap(), [0x82, 0, 1, 0xcd, 1, 1, 2]); }''',
  "a struct of more than 256 fields in the indexed flavour", "the index of a field is written modulo 256")

S("c01-fmt-partial", "C01",
  [(LIB, "        SerWrite::write_str(self, s).map_err(|_| fmt::Error)\n",
         "        let room = self.rem_capacity();\n        if s.len() > room && s.is_char_boundary(room) {\n            let _ = SerWrite::write_str(self, &s[..room]);\n            return Err(fmt::Error)\n        }\n        SerWrite::write_str(self, s).map_err(|_| fmt::Error)\n")],
  r'''
use std::fmt::Write;
fn main() {
    let mut b = [0u8; 4];
    let mut w = ser_write::SliceWriter::new(&mut b);
    w.write_str("ab").unwrap();
    assert!(w.write_str("cde").is_err());
    assert_eq!(w.as_ref(), b"ab");
}''', "formatted text written to the slice writer whose last piece fits only in part", "part of the refused text is left in the buffer")

S("c01-slicevec-byte", "C01",
  [(FOR, "impl SerWrite for tinyvec::SliceVec<'_, u8> {\n    type Error = SerError;\n\n    implement_tinyvec_write!{}\n",
         "impl SerWrite for tinyvec::SliceVec<'_, u8> {\n    type Error = SerError;\n\n    implement_tinyvec_write!{}\n\n    #[inline]\n    fn write_byte(&mut self, byte: u8) -> SerResult<()> {\n        let len = self.len();\n        match self.grab_spare_slice_mut() {\n            [spare, _, ..] => *spare = byte,\n            _ => return Err(SerError::BufferFull)\n        }\n        self.set_len(len + 1);\n        Ok(())\n    }\n")],
  r'''
use ser_write::SerWrite;
fn main() {
    let mut b = [0u8; 2];
    let mut v = tinyvec::SliceVec::from_slice_len(&mut b, 0);
    v.write_byte(1).unwrap();
    v.write_byte(2).unwrap();
    assert!(v.write_byte(3).is_err());
    assert_eq!(v.as_slice(), [1, 2]);
}''', "the last free byte of a tinyvec SliceVec written with write_byte", "a byte that fits is refused", fw="std,tinyvec",
  deps='tinyvec = { version = "1", default-features = false }')

S("m10-key-of-31", "M10",
  [(MD, "            UINT_32 => self.deserialize_u32(visitor),\n            FIXSTR..=FIXSTR_MAX|\n            STR_8|\n            STR_16|\n            STR_32  => self.deserialize_str(visitor),\n            _ => Err(Error::ExpectedIdentifier)\n",
        "            UINT_32 => self.deserialize_u32(visitor),\n            FIXSTR..FIXSTR_MAX|\n            STR_8|\n            STR_16|\n            STR_32  => self.deserialize_str(visitor),\n            _ => Err(Error::ExpectedIdentifier)\n")],
  r'''
use serde::{Serialize, Deserialize};
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct T { a_name_of_exactly_31_characters: u8, another: u8 }
fn main() {
    let t = T { a_name_of_exactly_31_characters: 1, another: 2 };
    let b = ser_write_msgpack::ser::to_vec_named(&t).unwrap();
    assert_eq!(ser_write_msgpack::de::from_slice::<T>(&b), Ok((t, b.len())));
}''', "a field or variant name of exactly 31 bytes", "a struct keyed by that name is refused")

S("j05-base64-count", "J05",
  [(JB, "            Ok(1)\n        }\n        [a] => {\n", "            Ok(2)\n        }\n        [a] => {\n")],
  r'''
fn main() {
    for n in 0..7 {
        let mut v = Vec::new();
        let pad = ser_write_json::base64::encode(&mut v, &vec![0; n]).unwrap();
        assert_eq!((v.len() + pad as usize) % 4, 0, "{}", n);
    }
}''', "a length that leaves two bytes for the last group", "a caller who pads gets an impossible base64 length")
