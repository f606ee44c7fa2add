//! J01: JSON integers are canonical decimal and read back exactly.
use crate::refenc::dec;
use crate::sym;
use crate::util::{One, Out};
use ser_write_json::{ser as js, de as jd};

fn reached_long() { cover!() }
fn reached_back() { cover!() }
macro_rules! magnitude {
    ($v:ident, u8) => { $v as u64 }; ($v:ident, u16) => { $v as u64 }; ($v:ident, u32) => { $v as u64 }; ($v:ident, u64) => { $v };
    ($v:ident, usize) => { $v as u64 }; ($v:ident, isize) => { ($v as i64).unsigned_abs() };
    ($v:ident, i64) => { $v.unsigned_abs() }; ($v:ident, $t:ident) => { ($v as i32).unsigned_abs() as u64 };
}
macro_rules! int {
    ($v:expr, $t:ident) => {{
        let v: $t = $v;
        let mut want = Out::<24>::new();
        dec(&mut want, v < 0 as $t, magnitude!(v, $t));
        written!(v, want);
    }};
}
/// Every value of the type as the number its canonical numeral denotes: the
/// digits are the symbols and no digit has to be taken out of a symbolic
/// quotient, whichever way the code divides.
macro_rules! num {
    ($t:ident, $u:ident) => {{
        let neg = (<$t>::MIN != 0) && sym::flip();
        let lim = <$t>::MAX as u64 + neg as u64;
        let (d, n) = digits_upto(lim);
        sym::assume(!(neg && n == 1) || d[0] != b'0');
        let mut v: $u = 0;
        for x in &d[..n] { v = v.wrapping_mul(10).wrapping_add((*x - b'0') as $u) }
        let mut want = Out::<24>::new();
        if neg { want.put(b"-") }
        want.put(&d[..n]);
        let v = if neg { v.wrapping_neg() as $t } else { v as $t };
        written!(v, want);
    }};
}
macro_rules! written {
    ($v:ident, $want:ident) => {{
        let mut out = Out::<24>::new();
        check!(js::to_writer(&mut out, &$v).is_ok());
        check!(sym::eq(out.as_slice(), $want.as_slice()));
        if out.len > 2 { reached_long() }
        // the same text as a key
        let mut key = Out::<40>::new();
        check!(js::to_writer(&mut key, &One($v)).is_ok());
        let n = $want.len;
        check!(key.len == n + 9);
        check!(sym::eq(&key.buf[..2], b"{\""));
        check!(sym::eq(&key.buf[2..2 + n], $want.as_slice()));
        check!(sym::eq(&key.buf[2 + n..9 + n], b"\":null}"));
    }};
}
/// Every text the writer may produce, read back: the digits are the symbols,
/// so the value is a sum the solver can follow.
macro_rules! back {
    ($t:ty) => {{
        let neg = (<$t>::MIN != 0) && sym::flip();
        let lim = <$t>::MAX as u64 + neg as u64;
        let (mut d, n) = digits_upto(lim);
        sym::assume(!(neg && n == 1) || d[0] != b'0');
        let mut v: $t = 0;
        for x in &d[..n] { v = v.wrapping_mul(10).wrapping_add((*x - b'0') as $t) }
        let want = if neg { (0 as $t).wrapping_sub(v) } else { v };
        let mut b = [0u8; 40];
        let mut l = 0;
        if neg { b[0] = b'-'; l = 1 }
        b[l..l + n].copy_from_slice(&d[..n]);
        l += n;
        match jd::from_mut_slice::<$t>(&mut b[..l]) { Ok(r) => { check!(r == want); reached_back() } Err(_) => check!(false) }
        let mut k = [0u8; 48];
        k[..2].copy_from_slice(b"{\"");
        let mut l = 2;
        if neg { k[l] = b'-'; l += 1 }
        k[l..l + n].copy_from_slice(&d[..n]);
        l += n;
        k[l..l + 7].copy_from_slice(b"\":null}");
        match jd::from_mut_slice::<One<$t>>(&mut k[..l + 7]) { Ok(One(r)) => check!(r == want), Err(_) => check!(false) }
    }};
}
/// every canonical decimal text of a number up to `lim`: shorter ones, and
/// those of equal length by the first digit that is below the limit's
pub fn digits_upto(lim: u64) -> ([u8; 24], usize) {
    let mut l = Out::<24>::new();
    dec(&mut l, false, lim);
    let n = 1 + sym::pick(l.len);
    let mut d = [0u8; 24];
    // position of the first difference; n: none
    let p = if n == l.len { sym::pick(n + 1) } else { 0 };
    for i in 0..n {
        let z = if i == 0 && n > 1 { 1 } else { 0 };
        d[i] = if n < l.len || i > p { sym::digit(z, 9) }
        else if i < p { l.buf[i] }
        else { let c = l.buf[i] - b'0'; if c <= z { sym::assume(false) } sym::digit(z, c - 1) };
    }
    (d, n)
}

harnesses! {
    fn h_u8() { int!(sym::u8(), u8) }
    fn h_u16() { int!(sym::u16(), u16) }
    fn h_u32() { num!(u32, u32) }
    fn h_u64() { num!(u64, u64) }
    fn h_i8() { int!(sym::u8() as i8, i8) }
    fn h_i16() { int!(sym::u16() as i16, i16) }
    fn h_i32() { num!(i32, u32) }
    fn h_i64() { num!(i64, u64) }
    fn h_usize() { num!(usize, usize) }
    fn h_isize() { num!(isize, usize) }
    fn h_back_u8() { back!(u8) }
    fn h_back_u16() { back!(u16) }
    fn h_back_u32() { back!(u32) }
    fn h_back_u64() { back!(u64) }
    fn h_back_i8() { back!(i8) }
    fn h_back_i16() { back!(i16) }
    fn h_back_i32() { back!(i32) }
    fn h_back_i64() { back!(i64) }
}
