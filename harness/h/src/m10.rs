//! M10: MessagePack struct layouts are interchangeable and complete.
use crate::node::FIELDS;
use crate::probe::{Log, Probe, Types, T};
use crate::sym;
use crate::types::*;
use crate::util::Out;
use core::fmt;
use serde::de::{Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use ser_write_msgpack::de as md;

const BIG: bool = cfg!(feature = "thorough");
type O = Out<128>;
/// a field key in any of its forms
fn key(o: &mut O, i: usize) {
    let name = FIELDS[i].as_bytes();
    match sym::pick(8) {
        0 => o.push(i as u8),
        1 => o.put(&[0xcc, i as u8]),
        2 => o.put(&[0xcd, 0, i as u8]),
        3 => o.put(&[0xce, 0, 0, 0, i as u8]),
        4 => { o.push(0xa0 | name.len() as u8); o.put(name) }
        5 => { o.put(&[0xd9, name.len() as u8]); o.put(name) }
        6 => { o.put(&[0xda, 0, name.len() as u8]); o.put(name) }
        _ => { o.put(&[0xdb, 0, 0, 0, name.len() as u8]); o.put(name) }
    }
}
/// only the two forms the serializers write
fn plain_key(o: &mut O, i: usize) {
    if sym::flip() { o.push(i as u8) } else { let n = FIELDS[i].as_bytes(); o.push(0xa0 | n.len() as u8); o.put(n) }
}
fn header(o: &mut O, fix: u8, wide: u8, n: usize) {
    match sym::pick(3) {
        0 => o.push(fix | n as u8),
        1 => o.put(&[wide, 0, n as u8]),
        _ => o.put(&[wide + 1, 0, 0, 0, n as u8]),
    }
}
/// one field's value: its encoding and what reading it records
#[derive(Clone, Copy)]
struct Val { enc: [u8; 8], n: usize, k: T, log: [u8; 16], l: usize }
fn val() -> Val {
    let (mut o, mut log) = (Out::<8>::new(), Log::new());
    let v = sym::u8();
    let k = match sym::pick(4) {
        0 => { o.put(&[0xcc, v]); log.int(v as i128); T::U16 }
        1 => { let c = v & 0x7f; o.put(&[0xa2, b'#', c]); log.bytes(b'"', &[b'#', c]); T::Str }
        2 => { o.push(0xc0); log.o.push(b'0'); T::Opt }
        _ => { o.put(&[0x91, v & 0x7f]); log.o.push(b'['); log.int((v & 0x7f) as i128); log.o.push(b']'); T::Seq }
    };
    let mut r = Val { enc: [0; 8], n: o.len, k, log: [0; 16], l: log.o.len };
    r.enc[..o.len].copy_from_slice(o.as_slice());
    r.log[..log.o.len].copy_from_slice(log.as_slice());
    r
}
fn enc(o: &mut O, v: &Val) { o.put(&v.enc[..v.n]) }
/// the struct type with these fields
fn types(ts: &mut Types, k: T, v: &[Val]) -> u8 {
    let u = ts.leaf(T::U16);
    let mut kids = [0u8; 3];
    for i in 0..v.len() { kids[i] = match v[i].k { T::Opt => ts.of(T::Opt, &[u]), T::Seq => ts.of(T::Seq, &[u]), k => ts.leaf(k) } }
    ts.of(k, &kids[..v.len()])
}
fn record(v: &[Val], there: impl Fn(usize) -> bool) -> Log {
    let mut l = Log::new();
    l.o.push(b'{');
    for i in 0..v.len() { l.o.push(i as u8); if there(i) { l.o.put(&v[i].log[..v[i].l]) } else { l.o.push(b'0') } }
    l.o.push(b']');
    l
}
fn read(o: &O, ts: &Types, t: u8) -> Result<(Log, usize), md::Error> {
    let mut log = Log::new();
    let mut d = md::Deserializer::from_slice(o.as_slice());
    Probe::new(ts, t, &mut log).deserialize(&mut d)?;
    Ok((log, d.end()?))
}
fn vals<const N: usize>() -> ([Val; N], usize) {
    let n = sym::pick(N + 1);
    let mut v = [Val { enc: [0; 8], n: 0, k: T::Unit, log: [0; 16], l: 0 }; N];
    for i in 0..n { v[i] = val() }
    (v, n)
}
const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
/// an order of the first `n`
fn order(n: usize) -> [usize; 3] {
    let i = match n { 0 | 1 => 0, 2 => [0, 2][sym::pick(2)], _ => sym::pick(6) };
    ORDERS[i]
}
/// a derived struct with a sequence visitor that takes one element only
struct First(u8);
impl<'de> Deserialize<'de> for First {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<First, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = First;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("first") }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<First, A::Error> { Ok(First(a.next_element::<u8>()?.unwrap_or(255))) }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<First, A::Error> { Ok(First(match a.next_entry::<u8, u8>()? { Some((_, v)) => v, None => 255 })) }
        }
        match KIND.with() { 0 => d.deserialize_seq(V), 1 => d.deserialize_tuple(1, V), 2 => d.deserialize_tuple_struct("T", 1, V), 3 => d.deserialize_map(V), _ => d.deserialize_struct("S", &FIELDS[..1], V) }
    }
}
struct Kind(core::sync::atomic::AtomicUsize);
impl Kind { fn with(&self) -> usize { self.0.load(core::sync::atomic::Ordering::Relaxed) } }
static KIND: Kind = Kind(core::sync::atomic::AtomicUsize::new(0));

/// expects this index, or this name, as the identifier
#[derive(Clone, Copy)]
struct Id<'a>(Option<u64>, &'a [u8]);
impl<'de, 'a> DeserializeSeed<'de> for Id<'a> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { d.deserialize_identifier(self) }
}
impl<'de, 'a> Visitor<'de> for Id<'a> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("identifier") }
    fn visit_u64<E>(self, v: u64) -> Result<(), E> { check!(self.0 == Some(v)); Ok(()) }
    fn visit_str<E>(self, v: &str) -> Result<(), E> { check!(self.0.is_none() && sym::eq(v.as_bytes(), self.1)); Ok(()) }
}
/// the number 42 under an identifier, as a struct, a map or an enum
struct Under<'a>(Id<'a>, usize);
impl<'de, 'a> DeserializeSeed<'de> for Under<'a> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.1 { 0 => d.deserialize_struct("S", &FIELDS[..1], self), 1 => d.deserialize_map(self), _ => d.deserialize_enum("E", &FIELDS[..1], self) }
    }
}
impl<'de, 'a> Visitor<'de> for Under<'a> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("something keyed") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        check!(a.next_key_seed(self.0)?.is_some());
        check!(a.next_value::<u8>()? == 42);
        check!(a.next_key_seed(self.0)?.is_none());
        Ok(())
    }
    fn visit_enum<A: serde::de::EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        use serde::de::VariantAccess;
        let (_, v) = a.variant_seed(self.0)?;
        check!(v.newtype_variant::<u8>()? == 42);
        Ok(())
    }
}
fn under(o: &Out<400>, id: Id) {
    let mut d = md::Deserializer::from_slice(o.as_slice());
    check!(Under(id, sym::pick(3)).deserialize(&mut d).is_ok() && d.end() == Ok(0));
}

harnesses! {
    /// every index in every form
    fn h_indices() {
        let b = sym::bytes::<4>();
        let mut o = Out::<400>::new();
        o.push(0x81);
        let v = match sym::pick(4) {
            0 => { sym::assume(b[0] < 0x80); o.push(b[0]); b[0] as u32 }
            1 => { o.put(&[0xcc, b[0]]); b[0] as u32 }
            2 => { o.put(&[0xcd, b[0], b[1]]); (b[0] as u32) << 8 | b[1] as u32 }
            _ => { o.push(0xce); o.put(&b); u32::from_be_bytes(b) }
        };
        o.push(42);
        under(&o, Id(Some(v as u64), b""))
    }
    /// names of every length around the header changes, in every form that holds them
    fn h_names() {
        let n = [0, 1, 2, 15, 16, 30, 31, 32, 33, 127, 128, 254, 255, 256, 257, 300][sym::pick(16)];
        let mut name = [b'n'; 300];
        if n > 0 { let c = sym::u8(); sym::assume(c < 0x80); name[sym::pick(2) * (n - 1)] = c }
        let mut o = Out::<400>::new();
        o.push(0x81);
        match sym::pick(4) {
            0 => { if n > 31 { return } o.push(0xa0 | n as u8) }
            1 => { if n > 255 { return } o.put(&[0xd9, n as u8]) }
            2 => o.put(&[0xda, (n >> 8) as u8, n as u8]),
            _ => o.put(&[0xdb, 0, 0, (n >> 8) as u8, n as u8]),
        }
        o.put(&name[..n]);
        o.push(42);
        under(&o, Id(None, &name[..n]))
    }
    /// the same struct from an array and from maps with any keys in any order
    fn h_layouts() {
        let (v, n) = vals::<2>();
        let v = &v[..n];
        let mut o = O::new();
        if sym::flip() {
            header(&mut o, 0x90, 0xdc, n);
            for i in 0..n { enc(&mut o, &v[i]) }
        } else {
            header(&mut o, 0x80, 0xde, n);
            let ord = order(n);
            for i in 0..n { key(&mut o, ord[i]); enc(&mut o, &v[ord[i]]) }
        }
        let mut ts = Types::new();
        let t = types(&mut ts, T::Struct, v);
        match read(&o, &ts, t) {
            Ok((l, left)) => { check!(left == 0 && sym::eq(l.as_slice(), record(v, |_| true).as_slice())); cover!() }
            Err(_) => check!(false),
        }
    }
    fn h_orders() {
        let (mut v, n) = ([val(); 3], 3);
        v[1] = val(); v[2] = val();
        let mut o = O::new();
        o.push(0x83);
        let ord = order(n);
        for i in 0..n { plain_key(&mut o, ord[i]); enc(&mut o, &v[ord[i]]) }
        let mut ts = Types::new();
        let t = types(&mut ts, T::Struct, &v);
        match read(&o, &ts, t) {
            Ok((l, left)) => { check!(left == 0 && sym::eq(l.as_slice(), record(&v, |_| true).as_slice())); cover!() }
            Err(_) => check!(false),
        }
    }
    /// fields missing from a map, unknown ones and repeated ones in it
    fn h_missing() {
        let (v, n) = vals::<2>();
        let v = &v[..n];
        let there = sym::pick(1 << n);
        let extra = sym::pick(4);
        let mut o = O::new();
        let m = (there.count_ones() + (extra != 0) as u32) as usize;
        o.push(0x80 | m as u8);
        let first = sym::flip();
        let twice = extra == 3 && there & 1 == 1;
        let more = |o: &mut O| match extra {
            0 => {}
            1 => o.put(&[0x05, 0x92, 0xc0, 0xa1, b'z']),
            2 => o.put(&[0xa3, b'z', b'z', b'z', 0xcd, 1, 2]),
            _ => { if twice { o.push(0x00); enc(o, &v[0]) } else { o.put(&[0x07, 0xc3]) } }
        };
        if first { more(&mut o) }
        for i in 0..n { if there >> i & 1 == 1 { plain_key(&mut o, i); enc(&mut o, &v[i]) } }
        if !first { more(&mut o) }
        let mut ts = Types::new();
        let t = types(&mut ts, T::Struct, v);
        let mut lacks = false;
        for i in 0..n { lacks |= there >> i & 1 == 0 && v[i].k != T::Opt }
        match read(&o, &ts, t) {
            Ok((l, left)) => { check!(!lacks && !twice && left == 0 && sym::eq(l.as_slice(), record(v, |i| there >> i & 1 == 1).as_slice())); cover!() }
            Err(_) => { check!(lacks || twice); cover!() }
        }
    }
    /// a count other than the number of fields or elements
    fn h_counts() {
        let (v, n) = vals::<2>();
        let v = &v[..n];
        let said = sym::pick(4);
        let k = [T::Struct, T::Tuple, T::TupleStruct][sym::pick(3)];
        let mut o = O::new();
        header(&mut o, 0x90, 0xdc, said);
        for i in 0..said { if i < n { enc(&mut o, &v[i]) } else { o.push(0x01) } }
        // whatever stands behind is not taken for the missing ones
        o.put(&[0x01, 0xc0]);
        let mut ts = Types::new();
        let t = types(&mut ts, k, v);
        match read(&o, &ts, t) {
            Ok((_, left)) => { check!(said == n && left == 2); cover!() }
            Err(e) => { check!(said != n && (said < n || e == md::Error::TrailingElements)); cover!() }
        }
    }
    /// a reader that leaves elements in the container
    fn h_left_over() {
        let k = sym::pick(5);
        KIND.0.store(k, core::sync::atomic::Ordering::Relaxed);
        let n = sym::pick(4);
        let map = k == 3 || (k == 4 && sym::flip());
        let mut o = O::new();
        header(&mut o, if map { 0x80 } else { 0x90 }, if map { 0xde } else { 0xdc }, n);
        for i in 0..n { if map { o.push(i as u8) } o.push(i as u8 + 7) }
        match md::from_slice::<First>(o.as_slice()) {
            Ok((f, m)) => { check!(n < 2 && m == o.len && f.0 == if n == 1 { 7 } else { 255 }); cover!() }
            Err(e) => { check!(n >= 2 && e == md::Error::TrailingElements); cover!() }
        }
    }
    /// any bytes as a key: the named field, an unknown one or an error
    fn h_keys() {
        let b = sym::bytes::<{ if BIG { 5 } else { 4 } }>();
        let n = sym::pick(b.len()) + 1;
        let mut o = O::new();
        o.push(0x81);
        o.put(&b[..n]);
        o.push(0x2a);
        let mut ts = Types::new();
        let u = ts.leaf(T::U8);
        let p = ts.of(T::Opt, &[u]);
        let t = ts.of(T::Struct, &[p, p]);
        let key = crate::refdec::mp_head(&b[..n], 0);
        use crate::refdec::Head::*;
        // the key must be exactly these bytes for the value to be what follows
        let (whole, which) = match key {
            Some((Int(i), j)) => (j == n, if i >= 0 && !matches!(b[0], 0xcf..=0xd3) { if i < 2 { Some(i as usize) } else { Some(9) } } else { None }),
            Some((Str(l), j)) => (l <= n - j && j + l == n && crate::util::utf8_valid(&b[j..n]),
                if j + l == n && &b[j..n] == b"a" { Some(0) } else if j + l == n && &b[j..n] == b"bc" { Some(1) } else { Some(9) }),
            _ => (false, None),
        };
        if !whole { return }
        match read(&o, &ts, t) {
            Ok((l, left)) => {
                check!(left == 0);
                let s = l.as_slice();
                let set = |i: usize| { let mut w = Log::new(); w.o.put(b"{\0"); if i == 0 { w.o.push(b's'); w.int(0x2a) } else { w.o.push(b'0') }
                    w.o.push(1); if i == 1 { w.o.push(b's'); w.int(0x2a) } else { w.o.push(b'0') } w.o.push(b']'); w };
                check!(match which { Some(i) => sym::eq(s, set(i).as_slice()), None => false });
                cover!()
            }
            Err(e) => { check!(which.is_none() && e == md::Error::ExpectedIdentifier); cover!() }
        }
    }
    /// derived types through the public functions
    fn h_derived() {
        let (x, y) = (sym::u8(), sym::u8());
        let mut o = Out::<32>::new();
        let form = sym::pick(6);
        match form {
            0 => o.put(&[0x92, 0xcc, x, 0xcc, y]),
            1 => o.put(&[0x82, 0xa1, b'x', 0xcc, x, 0xa1, b'y', 0xcc, y]),
            2 => o.put(&[0x82, 0xa1, b'y', 0xcc, y, 0xa1, b'x', 0xcc, x]),
            3 => o.put(&[0x82, 0x01, 0xcc, y, 0x00, 0xcc, x]),
            4 => o.put(&[0x82, 0x00, 0xcc, x, 0xa1, b'y', 0xcc, y]),
            _ => o.put(&[0x83, 0xcc, 0x01, 0xcc, y, 0xa1, b'z', 0x91, 0xc3, 0xd9, 1, b'x', 0xcc, x]),
        }
        check!(md::from_slice::<Point>(o.as_slice()) == Ok((Point { x: x as i32, y: y as i32 }, o.len)));
        if form == 0 {
            check!(md::from_slice::<Pair>(&[0x92, x & 0x7f, 0xc3]) == Ok((Pair(x & 0x7f, true), 3)));
            check!(md::from_slice::<Pair>(&[0x91, x & 0x7f, 0xc3]).is_err());
            check!(md::from_slice::<Pair>(&[0x93, x & 0x7f, 0xc3, 0xc0]) == Err(md::Error::TrailingElements));
            check!(md::from_slice::<(u8, u8)>(&[0x93, 1, 2, x & 0x7f]) == Err(md::Error::TrailingElements));
            check!(md::from_slice::<[u8; 2]>(&[0x91, 1, 2]).is_err());
            check!(md::from_slice::<Strict>(&[0x82, 0x00, 1, 0x02, 2]).is_err());
            check!(md::from_slice::<Strict>(&[0x81, 0xa1, b'a', x & 0x7f]) == Ok((Strict { a: x & 0x7f, b: None }, 4)));
            check!(md::from_slice::<Strict>(&[0x91, x & 0x7f]) == Ok((Strict { a: x & 0x7f, b: None }, 2)));
            check!(md::from_slice::<Strict>(&[0x81, 0xa1, b'b', x & 0x7f]).is_err());
        }
        cover!();
    }
    /// struct variants take the same layouts
    fn h_variants() {
        let (w, h) = (sym::u8() & 0x7f, sym::u8() & 0x7f);
        let mut o = Out::<32>::new();
        o.push(0x81);
        if sym::flip() { o.push(3) } else { o.put(&[0xa3, b'B', b'o', b'x']) }
        match sym::pick(4) {
            0 => o.put(&[0x92, w, h]),
            1 => o.put(&[0x82, 0, w, 1, h]),
            2 => o.put(&[0x82, 0xa1, b'h', h, 0xa1, b'w', w]),
            _ => { o.put(&[0x93, w, h, 1]); check!(md::from_slice::<Shape>(o.as_slice()) == Err(md::Error::TrailingElements)); return }
        }
        check!(md::from_slice::<Shape>(o.as_slice()) == Ok((Shape::Box { w, h }, o.len)));
        cover!();
    }
}
