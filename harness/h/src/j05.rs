//! J05: JSON byte codecs round-trip and reject malformed text.
use crate::refdec::{nib, skip_ws, ws};
use crate::refenc;
use crate::sym;
use crate::util::{far, windowed, Out};
use ser_write_json::{ser as js, de as jd};
use serde_bytes::Bytes;

const BIG: bool = cfg!(feature = "thorough");
const N: usize = if BIG { 8 } else { 7 };
const L: usize = 280;
const M: usize = 1100;

/// the ways to write bytes
fn write(how: usize, b: &[u8], o: &mut Out<M>) {
    let v = Bytes::new(b);
    check!(match how {
        0 => js::to_writer(&mut *o, v).is_ok(),
        1 => js::to_writer_hex_bytes(&mut *o, v).is_ok(),
        2 => js::to_writer_base64_bytes(&mut *o, v).is_ok(),
        _ => js::to_writer_pass_bytes(&mut *o, v).is_ok(),
    });
}
fn reference(how: usize, b: &[u8], o: &mut Out<M>) {
    match how {
        0 => { o.push(b'['); for (i, c) in b.iter().enumerate() { if i > 0 { o.push(b',') } refenc::dec(o, false, *c as u64) } o.push(b']') }
        1 => { o.push(b'"'); for c in b { refenc::hex(o, *c) } o.push(b'"') }
        2 => { o.push(b'"'); refenc::base64(o, b); o.push(b'"') }
        _ => o.put(b),
    }
}
fn read<'a>(how: usize, b: &'a mut [u8]) -> Result<&'a [u8], jd::Error> {
    match how {
        0 => jd::from_mut_slice::<&[u8]>(b),
        1 => jd::from_mut_slice_hex_bytes::<&[u8]>(b),
        2 => jd::from_mut_slice_base64_bytes::<&[u8]>(b),
        _ => jd::from_mut_slice::<&[u8]>(b),
    }
}
fn written(how: usize, n: usize) {
    let mut b = [0u8; 48];
    sym::fill(&mut b[..n]);
    let (mut o, mut w) = (Out::<M>::new(), Out::<M>::new());
    write(how, &b[..n], &mut o);
    reference(how, &b[..n], &mut w);
    check!(sym::eq(o.as_slice(), w.as_slice()));
    sym::emit_bytes(o.as_slice());
}
fn round(how: usize, n: usize) {
    let mut b = [0u8; 16];
    sym::fill(&mut b[..n]);
    let mut w = Out::<M>::new();
    reference(how, &b[..n], &mut w);
    let l = w.len;
    match read(how, &mut w.buf[..l]) { Ok(r) => check!(sym::eq(r, &b[..n])), Err(_) => check!(false) }
}
/// 6-bit values of characters that are not symbolic in class
fn b64(c: u8) -> Option<u8> {
    match c { b'A'..=b'Z' => Some(c - b'A'), b'a'..=b'z' => Some(c - b'a' + 26), b'0'..=b'9' => Some(c - b'0' + 52), b'+' => Some(62), b'/' => Some(63), _ => None }
}
/// reference decoders of what stands between the quotes
fn hex_ref(b: &[u8], o: &mut Out<M>) -> Option<()> {
    if b.len() % 2 != 0 { return None }
    let mut i = 0;
    while i < b.len() { o.push(nib(b[i])? << 4 | nib(b[i + 1])?); i += 2 }
    Some(())
}
/// unpadded; the unused bits of the last character are not looked at
fn b64_ref(b: &[u8], o: &mut Out<M>) -> Option<()> {
    if b.len() % 4 == 1 { return None }
    let mut acc = 0u32;
    let mut bits = 0;
    for c in b {
        acc = acc << 6 | b64(*c)? as u32;
        bits += 6;
        if bits >= 8 { bits -= 8; o.push((acc >> bits) as u8) }
    }
    Some(())
}
fn accepted() { cover!() }
fn rejected() { cover!() }
/// anything between quotes, then anything
fn decode(how: usize, n: usize) {
    let mut b = [0u8; L];
    b[0] = b'"';
    sym::fill(&mut b[1..=n]);
    b[n + 1] = b'"';
    decoded(how, &mut b, n)
}
fn decoded(how: usize, b: &mut [u8; L], n: usize) {
    let mut o = Out::<M>::new();
    // the text up to the first quote; what is behind it must be blank
    let mut e = 1;
    while b[e] != b'"' { e += 1 }
    let mut pad = e;
    if how == 2 { while pad > 1 && b[pad - 1] == b'=' { pad -= 1 } }
    let t = &b[1..pad];
    let mut want = if how == 1 { hex_ref(t, &mut o) } else { b64_ref(t, &mut o) };
    if skip_ws(&b[..n + 2], e + 1) != n + 2 { want = None }
    let padded = pad != e;
    match read(how, &mut b[..n + 2]) {
        Ok(r) => { check!(want.is_some() && sym::eq(r, o.as_slice())); accepted() }
        // padding is not written; whether it is tolerated is not asked here
        Err(_) => { check!(want.is_none() || padded); rejected() }
    }
}
/// an array of numbers with arbitrary bytes in place of the digits
fn array(n: usize) {
    let mut b = [0u8; 32];
    b[0] = b'[';
    sym::fill(&mut b[1..=n]);
    b[n + 1] = b']';
    listed(&mut b[..n + 2])
}
fn listed(b: &mut [u8]) {
    let l = b.len();
    let mut o = Out::<M>::new();
    let want = array_ref(b, &mut o);
    let _ = l;
    match read(0, b) {
        Ok(r) => { check!(want.is_some() && sym::eq(r, o.as_slice())); accepted() }
        Err(_) => { check!(want.is_none()); rejected() }
    }
}
fn array_ref(b: &[u8], o: &mut Out<M>) -> Option<()> {
    let mut i = skip_ws(b, 0);
    if *b.get(i)? != b'[' { return None }
    i = skip_ws(b, i + 1);
    if *b.get(i)? == b']' { i += 1 } else {
        loop {
            i = skip_ws(b, i);
            let c = *b.get(i)?;
            if c < b'0' || c > b'9' { return None }
            let mut v = 0u32;
            if c == b'0' { i += 1 } else {
                while let Some(c) = b.get(i) {
                    if *c < b'0' || *c > b'9' { break }
                    v = v * 10 + (*c - b'0') as u32;
                    i += 1;
                }
            }
            if v > 255 { return None }
            o.push(v as u8);
            i = skip_ws(b, i);
            match *b.get(i)? { b',' => i += 1, b']' => { i += 1; break } _ => return None }
        }
    }
    if skip_ws(b, i) != b.len() { return None }
    Some(())
}
fn element_range() { cover!() }

harnesses! {
    fn h_write_array() { written(0, sym::pick(4)) }
    fn h_write_hex() { written(1, sym::pick(13)) }
    fn h_write_base64() { written(2, sym::pick(14)) }
    fn h_write_pass() { written(3, sym::pick(13)) }
    fn h_read_array() { round(0, sym::pick(4)) }
    fn h_read_hex() { round(1, sym::pick(if BIG { 7 } else { 5 })) }
    /// from the characters: every group's bits
    fn h_read_base64() {
        let n = sym::pick(9);
        let mut b = [0u8; 16];
        b[0] = b'"';
        for i in 1..=n {
            b[i] = sym::u8();
            if n > 4 && i <= 4 { sym::assume(b[i] >= b'A' && b[i] <= b'Z') } else { sym::assume(b64(b[i]).is_some()) }
        }
        b[n + 1] = b'"';
        let mut o = Out::<M>::new();
        let want = b64_ref(&b[1..=n], &mut o);
        match read(2, &mut b[..n + 2]) {
            Ok(r) => check!(want.is_some() && sym::eq(r, o.as_slice())),
            Err(_) => check!(want.is_none()),
        }
    }
    fn h_round_base64() { round(2, sym::pick(2)) }
    fn h_decode_hex() { decode(1, sym::pick(N + 1)) }
    fn h_decode_base64() { decode(2, sym::pick(N + 1)) }
    fn h_decode_array() { array(sym::pick(N)) }
    /// longer than a byte counts
    fn h_far_write() {
        let how = sym::pick(4);
        let (n, at) = far();
        let c = windowed::<L>(b"\x00\x5a\xff\x81\x07", n, at, if how == 0 { 1 } else { 2 });
        let (mut o, mut w) = (Out::<M>::new(), Out::<M>::new());
        write(how, c.as_slice(), &mut o);
        reference(how, c.as_slice(), &mut w);
        check!(sym::eq(o.as_slice(), w.as_slice()));
    }
    fn h_far() {
        let how = 1 + sym::pick(2);
        let (n, at) = far();
        let c = windowed::<L>([b"0aF9bE1c", b"Az9+/Qm0"][how - 1], n, at, 2);
        let mut b = [b'"'; L];
        b[1..=n].copy_from_slice(c.as_slice());
        decoded(how, &mut b, n)
    }
    fn h_far_array() {
        let (n, at) = far();
        let c = windowed::<L>(b"1,255, 90,0,", n, at, 2);
        let mut b = [b']'; L];
        b[0] = b'[';
        b[1..=n].copy_from_slice(c.as_slice());
        listed(&mut b[..n + 2])
    }
    /// long contents with two arbitrary bytes anywhere
    fn h_long_write() {
        let how = sym::pick(4);
        let n = 12 + sym::pick(if how == 0 { 7 } else { 22 });
        let at = sym::pick(n - 1);
        let c = windowed::<L>(b"\x00\x5a\xff\x81\x07", n, at, if how == 0 { 1 } else { 2 });
        let (mut o, mut w) = (Out::<M>::new(), Out::<M>::new());
        write(how, c.as_slice(), &mut o);
        reference(how, c.as_slice(), &mut w);
        check!(sym::eq(o.as_slice(), w.as_slice()));
    }
    fn h_long_hex() {
        let n = 6 + sym::pick(if BIG { 45 } else { 30 });
        let c = windowed::<L>(b"0aF9bE1c", n, sym::pick(n - 1), 2);
        let mut b = [b'"'; L];
        b[1..=n].copy_from_slice(c.as_slice());
        decoded(1, &mut b, n)
    }
    fn h_long_base64() {
        let n = 6 + sym::pick(if BIG { 45 } else { 30 });
        let c = windowed::<L>(b"Az9+/Qm0", n, sym::pick(n - 1), 2);
        let mut b = [b'"'; L];
        b[1..=n].copy_from_slice(c.as_slice());
        decoded(2, &mut b, n)
    }
    fn h_long_array() {
        let n = 6 + sym::pick(if BIG { 45 } else { 30 });
        let c = windowed::<L>(b"1,255, 90,0,", n, sym::pick(n - 1), 2);
        let mut b = [b']'; L];
        b[0] = b'[';
        b[1..=n].copy_from_slice(c.as_slice());
        listed(&mut b[..n + 2])
    }
    /// every element value, in and out of range
    fn h_elements() {
        let mut b = [0u8; 16];
        b[0] = b'[';
        let mut v = 0u32;
        for i in 0..3 { let d = sym::digit(if i == 0 { 1 } else { 0 }, 9); b[1 + i] = d; v = v * 10 + (d - b'0') as u32 }
        b[4..7].copy_from_slice(b",0]");
        match read(0, &mut b[..7]) {
            Ok(r) => { check!(r.len() == 2 && r[0] as u32 == v && r[1] == 0); element_range() }
            Err(_) => { check!(v > 255); cover!() }
        }
    }
    /// text in an array-bytes or pass-through entry point
    fn h_pass() {
        let b = sym::bytes::<4>();
        let n = sym::pick(5);
        let mut o = Out::<M>::new();
        write(3, &b[..n], &mut o);
        check!(sym::eq(o.as_slice(), &b[..n]));
    }
    /// the codec's own functions
    fn h_encode() {
        let b = sym::bytes::<7>();
        let n = sym::pick(8);
        let (mut o, mut w) = (Out::<M>::new(), Out::<M>::new());
        check!(ser_write_json::base64::encode(&mut o, &b[..n]) == Ok([0, 2, 1][n % 3]));
        refenc::base64(&mut w, &b[..n]);
        check!(sym::eq(o.as_slice(), w.as_slice()));
    }
    fn h_decode() {
        let mut b = sym::bytes::<{ if BIG { 9 } else { 7 } }>();
        let n = sym::pick(b.len() + 1);
        let was = b;
        let mut valid = 0;
        while valid < n && b64(was[valid]).is_some() { valid += 1 }
        let mut w = Out::<M>::new();
        // a single character too many holds no byte
        b64_ref(&was[..if valid % 4 == 1 { valid - 1 } else { valid }], &mut w);
        let (d, e) = ser_write_json::base64::decode(&mut b[..n]);
        check!(e == valid && d == w.len);
        check!(sym::eq(&b[..d], w.as_slice()));
        check!(sym::eq(&b[n..], &was[n..]));
        cover!()
    }
}
