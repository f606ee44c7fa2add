//! J04: JSON integer parsing is exact or an error.
use crate::refenc::dec;
use crate::sym;
use crate::util::{One, Out};
use ser_write_json::de as jd;

const N: usize = if cfg!(feature = "thorough") { 7 } else { 5 };

fn ws(c: u8) -> bool { c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' }
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
/// the grammar's integer (no fraction, no exponent) with whitespace around
fn reference(b: &[u8]) -> Option<(bool, i64)> {
    let mut i = 0;
    while i < b.len() && ws(b[i]) { i += 1 }
    let mut neg = false;
    if i < b.len() && b[i] == b'-' { neg = true; i += 1 }
    if i >= b.len() || !digit(b[i]) { return None }
    let mut v = 0i64;
    if b[i] == b'0' { i += 1 } else {
        while i < b.len() && digit(b[i]) { v = v * 10 + (b[i] - b'0') as i64; i += 1 }
    }
    while i < b.len() && ws(b[i]) { i += 1 }
    if i != b.len() { return None }
    Some((neg, if neg { -v } else { v }))
}
fn exact() { cover!() }
fn refused() { cover!() }
/// any short text whatsoever
macro_rules! any {
    ($t:ty) => {{
        let mut b = sym::bytes::<N>();
        let n = sym::pick(N + 1);
        let r = reference(&b[..n]);
        match jd::from_mut_slice::<$t>(&mut b[..n]) {
            Ok(v) => match r { Some((neg, w)) => { exact(); check!(v as i64 == w && (<$t>::MIN != 0 || !neg)) } None => check!(false) },
            Err(_) => match r {
                Some((neg, w)) => { refused(); check!(<$t>::MIN == 0 && neg || w < <$t>::MIN as i64 || w > <$t>::MAX as i64) }
                None => {}
            },
        }
    }};
}
/// the same as an object key: blanks inside the quotes are tolerated, never a wrong number
macro_rules! any_key {
    ($t:ty) => {{
        let mut b = [0u8; N + 9];
        b[..2].copy_from_slice(b"{\"");
        let n = sym::pick(N);
        sym::fill(&mut b[2..2 + n]);
        b[2 + n..2 + n + 7].copy_from_slice(b"\":null}");
        let lead_ws = n > 0 && ws(b[2]);
        let r = if n > 0 && ws(b[1 + n]) { None } else { reference(&b[2..2 + n]) };
        match jd::from_mut_slice::<One<$t>>(&mut b[..n + 9]) {
            Ok(One(v)) => match r { Some((_, w)) => check!(v as i64 == w), None => check!(false) },
            Err(_) => match r {
                Some((neg, w)) => check!(lead_ws || <$t>::MIN == 0 && neg || w < <$t>::MIN as i64 || w > <$t>::MAX as i64),
                None => {}
            },
        }
    }};
}
fn in_range() { cover!() }
fn out_of_range() { cover!() }
fn bad_tail() { cover!() }
/// long texts: every number of up to 21 digits, split at the first digit that
/// differs from the type's limit, with any character after it
macro_rules! long {
    ($t:ty, $key:expr) => {{
        let signed = <$t>::MIN != 0;
        let neg = sym::flip();
        let lim = <$t>::MAX as u64 + (neg && signed) as u64;
        let mut l = Out::<24>::new();
        dec(&mut l, false, lim);
        // number of digits
        let n = 1 + sym::pick(l.len + 1);
        let mut d = [0u8; 24];
        let mut fits = n < l.len;
        if n < l.len {
            for i in 0..n { d[i] = sym::digit(if i == 0 && n > 1 { 1 } else { 0 }, 9) }
        } else {
            // position of the first difference (l.len: none) and its direction
            let p = sym::pick(l.len + 1);
            let above = sym::flip();
            fits = n == l.len && (p == n || !above);
            for i in 0..n {
                let z = if i == 0 && n > 1 { 1 } else { 0 };
                let c = l.buf[i].wrapping_sub(b'0');
                d[i] = if i > p || i >= l.len { sym::digit(z, 9) } else if i < p { l.buf[i] }
                    else if above { if c == 9 { sym::assume(false) } sym::digit(c + 1, 9) }
                    else { if c <= z { sym::assume(false) } sym::digit(z, c - 1) };
            }
        }
        let mut v: $t = 0;
        for x in &d[..n] {
            let k = (*x - b'0') as $t;
            v = if neg { v.wrapping_mul(10).wrapping_sub(k) } else { v.wrapping_mul(10).wrapping_add(k) };
        }
        let mut b = [0u8; 48];
        let mut w = 0;
        if $key { b[..2].copy_from_slice(b"{\""); w = 2 }
        if neg { b[w] = b'-'; w += 1 }
        b[w..w + n].copy_from_slice(&d[..n]);
        w += n;
        // what follows the digits
        let tail = sym::flip();
        let c = if tail { sym::u8() } else { b' ' };
        if tail { sym::assume(!digit(c)); b[w] = c; w += 1 }
        let ok = fits && (signed || !neg);
        if $key {
            b[w..w + 7].copy_from_slice(b"\":null}");
            w += 7;
            match jd::from_mut_slice::<One<$t>>(&mut b[..w]) {
                Ok(One(r)) => check!(ok && !tail && r == v),
                Err(_) => check!(tail || !ok),
            }
        } else {
            match jd::from_mut_slice::<$t>(&mut b[..w]) {
                Ok(r) => { check!(ok && ws(c) && r == v); in_range() }
                Err(_) => { check!(!ok || !ws(c)); if ok { bad_tail() } else { out_of_range() } }
            }
        }
    }};
}

harnesses! {
    fn h_any_u8() { any!(u8) }
    fn h_any_u16() { any!(u16) }
    fn h_any_u32() { any!(u32) }
    fn h_any_u64() { any!(u64) }
    fn h_any_i8() { any!(i8) }
    fn h_any_i16() { any!(i16) }
    fn h_any_i32() { any!(i32) }
    fn h_any_i64() { any!(i64) }
    fn h_key_u8() { any_key!(u8) }
    fn h_key_i8() { any_key!(i8) }
    fn h_key_u16() { any_key!(u16) }
    fn h_key_i16() { any_key!(i16) }
    fn h_key_u32() { any_key!(u32) }
    fn h_key_i32() { any_key!(i32) }
    fn h_key_u64() { any_key!(u64) }
    fn h_key_i64() { any_key!(i64) }
    fn h_long_u8() { long!(u8, false) }
    fn h_long_u16() { long!(u16, false) }
    fn h_long_u32() { long!(u32, false) }
    fn h_long_u64() { long!(u64, false) }
    fn h_long_i8() { long!(i8, false) }
    fn h_long_i16() { long!(i16, false) }
    fn h_long_i32() { long!(i32, false) }
    fn h_long_i64() { long!(i64, false) }
    fn h_long_key_u8() { long!(u8, true) }
    fn h_long_key_u16() { long!(u16, true) }
    fn h_long_key_u32() { long!(u32, true) }
    fn h_long_key_u64() { long!(u64, true) }
    fn h_long_key_i8() { long!(i8, true) }
    fn h_long_key_i16() { long!(i16, true) }
    fn h_long_key_i32() { long!(i32, true) }
    fn h_long_key_i64() { long!(i64, true) }
}
