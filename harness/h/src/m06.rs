//! M06: no MessagePack input can panic, read out of bounds or hang.
use crate::probe::{Log, Probe, Types, HOLDERS, SCALARS, T, T::*};
use crate::sym;
use crate::types::*;
use serde::de::{DeserializeSeed, Deserialize, IgnoredAny};
use ser_write_msgpack::de as md;

const BIG: bool = cfg!(feature = "thorough");
fn taken() { cover!() }
fn refused() { cover!() }
/// the panics, accesses out of bounds and endless loops are the engine's to see
fn probe<const N: usize>(levels: &[&[T]], max: usize) {
    let b = sym::bytes::<N>();
    let n = sym::pick(N + 1);
    let mut ts = Types::new();
    let r = ts.gen(levels, max);
    let mut log = Log::new();
    let mut d = md::Deserializer::from_slice(&b[..n]);
    match Probe::new(&ts, r, &mut log).deserialize(&mut d) {
        Ok(()) => {
            check!(log.intact(b.as_ptr(), n));
            let left = d.remaining_len();
            match d.end() { Ok(m) => check!(m <= n && m == left), Err(_) => check!(false) }
            taken()
        }
        Err(_) => refused(),
    }
}
fn entry<'a, X: Deserialize<'a>>(b: &'a [u8]) {
    let n = b.len();
    let whole = md::from_slice::<X>(b);
    let split = md::from_slice_split_tail::<X>(b);
    match (whole, split) {
        (Ok((_, m)), Ok((_, tail))) => {
            check!(m <= n);
            check!(tail.len() == n - m && tail.as_ptr() as usize == b.as_ptr() as usize + m);
            taken();
        }
        (Err(e), Err(f)) => check!(e == f),
        _ => check!(false),
    }
}
fn entries<const N: usize>() {
    let b = sym::bytes::<N>();
    let n = sym::pick(N + 1);
    let b = &b[..n];
    match sym::pick(16) {
        0 => entry::<Point>(b), 1 => entry::<Rec>(b), 2 => entry::<Bin>(b), 3 => entry::<Strict>(b),
        4 => entry::<Pair>(b), 5 => entry::<Wrap>(b), 6 => entry::<Nothing>(b), 7 => entry::<Shape>(b),
        8 => entry::<(u8, Option<&str>)>(b), 9 => entry::<[u16; 2]>(b), 10 => entry::<Option<Shape>>(b), 11 => entry::<&str>(b),
        12 => entry::<IgnoredAny>(b), 13 => entry::<char>(b), 14 => entry::<f32>(b), _ => entry::<Result<u8, bool>>(b),
    }
}
/// the reader's own interface for walking through messages
fn walk<const N: usize>() {
    let b = sym::bytes::<N>();
    let n = sym::pick(N + 1);
    let mut d = md::Deserializer::from_slice(&b[..n]);
    let mut at = 0;
    for _ in 0..3 {
        match sym::pick(5) {
            0 => match d.fetch() { Ok(c) => { check!(at < n && c == b[at]); at += 1 } Err(e) => check!(at >= n && e == md::Error::UnexpectedEof) },
            1 => match d.peek() { Ok(c) => check!(at < n && c == b[at]), Err(e) => check!(at >= n && e == md::Error::UnexpectedEof) },
            2 => {
                let k = sym::u64() as usize;
                match d.split_input(k) {
                    Ok(s) => { check!(at <= n && k <= n - at && s.len() == k && s.as_ptr() as usize == b.as_ptr() as usize + at); at += k }
                    Err(e) => check!((at > n || k > n - at) && e == md::Error::UnexpectedEof),
                }
            }
            3 => { let k = sym::pick(3); d.eat_some(k); at += k }
            _ => match d.eat_message() {
                Ok(()) => { let m = crate::refdec::mp_skip(&b[..n], at); check!(m.is_some()); at = m.unwrap_or(0) }
                Err(_) => { check!(at > n || crate::refdec::mp_skip(&b[..n], at).is_none()); return }
            },
        }
        check!(d.remaining_len() == n.saturating_sub(at));
        match d.input_ref() { Ok(s) => check!(at <= n && s.len() == n - at), Err(_) => check!(at > n) }
    }
    match d.end() { Ok(m) => check!(at <= n && m == n - at), Err(_) => check!(at > n) }
}

const LEAVES: &[T] = &[Unit, UnitStruct, Bool, U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Char, Str, String, Bytes, ByteBuf, Ident];
/// containers nested as deep as the input can say, then skipped
fn deep<const N: usize>(skip: impl Fn(&[u8]) -> bool) {
    let mut b = [0u8; N];
    let c = sym::u8();
    let (kind, step) = match sym::pick(4) { 0 => (0x91, 1), 1 => (0x81, 2), 2 => (0x9f, 1), _ => (0xdd, 5) };
    let n = N / step - 1;
    for i in 0..n {
        b[i * step] = kind;
        if kind == 0xdd { b[i * step + 4] = 1 }
    }
    b[n * step] = c;
    if skip(&b[..n * step + 1]) { check!(kind != 0x9f); taken() } else { refused() }
}

harnesses! {
    fn h_scalars() { probe::<10>(&[LEAVES], 0) }
    fn h_skipped() { probe::<{ if BIG { 7 } else { 5 } }>(&[&[Ignored]], 0) }
    fn h_holders() { probe::<{ if BIG { 6 } else { 4 } }>(&[HOLDERS, &[Bool, U8, Str, Any, Ignored], &[U16, Str]], if BIG { 2 } else { 1 }) }
    fn h_two() { probe::<{ if BIG { 6 } else { 4 } }>(&[&[Tuple, TupleStruct, Struct, Enum], &[U16, Str, Ignored], &[U16]], 2) }
    fn h_nested() { probe::<{ if BIG { 5 } else { 3 } }>(&[HOLDERS, HOLDERS, &[U8, Str, Ignored]], 1) }
    fn h_any() { probe::<{ if BIG { 7 } else { 5 } }>(&[&[Any]], 0) }
    fn h_entries() { entries::<{ if BIG { 6 } else { 4 } }>() }
    fn h_walk() { walk::<{ if BIG { 4 } else { 3 } }>() }
    fn h_deep_skip() { deep::<2000>(|b| md::from_slice::<IgnoredAny>(b).is_ok()) }
    fn h_deep_eat() { deep::<2000>(|b| md::Deserializer::from_slice(b).eat_message().is_ok()) }
    #[cfg(feature = "alloc")]
    fn h_owned() {
        use alloc::{collections::BTreeMap, string::String, vec::Vec, boxed::Box};
        let b = sym::bytes::<{ if BIG { 4 } else { 3 } }>();
        let n = sym::pick(b.len() + 1);
        let b = &b[..n];
        // wide counts are h_counts' (every capacity would be a path of its own)
        for i in 0..n.saturating_sub(2) { sym::assume(b[i] < 0xdc || b[i] > 0xdf) }
        match sym::pick(8) {
            0 => entry::<Vec<u8>>(b), 1 => entry::<Vec<u64>>(b), 2 => entry::<BTreeMap<u8, u8>>(b), 3 => entry::<String>(b),
            4 => entry::<Vec<Box<[u8]>>>(b), 5 => entry::<serde_bytes::ByteBuf>(b), 6 => entry::<BTreeMap<String, bool>>(b),
            _ => entry::<Vec<String>>(b),
        }
    }
    /// counts the input cannot back must not be trusted for allocation
    #[cfg(feature = "alloc")]
    fn h_counts() {
        use alloc::{collections::BTreeMap, string::String, vec::Vec};
        let mut b = [0u8; 7];
        b[0] = [0xdc, 0xdd, 0xde, 0xdf, 0xc5, 0xc6, 0xda, 0xdb][sym::pick(8)];
        let n = if b[0] & 1 == 1 && b[0] != 0xc5 || b[0] == 0xc6 { 4 } else { 2 };
        for i in 1..=n { b[i] = [0, 1, 0xff][sym::pick(3)] }
        sym::alloc_limit(1 << 20);
        match sym::pick(4) {
            0 => entry::<Vec<u8>>(&b), 1 => entry::<Vec<u64>>(&b), 2 => entry::<BTreeMap<u8, u8>>(&b),
            _ => entry::<String>(&b),
        }
        sym::alloc_limit(usize::MAX);
    }
    #[cfg(feature = "alloc")]
    fn h_self_describing() {
        let b = sym::bytes::<{ if BIG { 4 } else { 3 } }>();
        let n = sym::pick(b.len() + 1);
        let b = &b[..n];
        for i in 0..n.saturating_sub(2) { sym::assume(b[i] < 0xdc || b[i] > 0xdf) }
        if sym::flip() { entry::<Loose>(b) } else { entry::<Tagged>(b) }
    }
}
