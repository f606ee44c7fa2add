//! M12: Display-formatted text is encoded like the equal string.
use crate::sym;
use crate::util::{utf8_valid, windowed, Out, Text};
use core::cell::Cell;
use core::fmt::{self, Write};
use serde::{Serialize, Serializer};
use ser_write_json::ser as js;
use ser_write_msgpack::ser as ms;

const M: usize = 700;
/// hands out its text in pieces, by string or by character, then maybe fails
struct Pieces<'a> { s: &'a str, cut: [usize; 2], how: usize, fail: usize }
impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let p = [&self.s[..self.cut[0]], &self.s[self.cut[0]..self.cut[1]], &self.s[self.cut[1]..]];
        for i in 0..3 {
            if self.fail == i { return Err(fmt::Error) }
            match self.how {
                0 => f.write_str(p[i])?,
                1 => for c in p[i].chars() { f.write_char(c)? },
                _ => write!(f, "{}", p[i])?,
            }
        }
        if self.fail == 3 { return Err(fmt::Error) }
        Ok(())
    }
}
struct Shown<'a, D: ?Sized>(&'a D);
impl<'a, D: fmt::Display + ?Sized> Serialize for Shown<'a, D> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self.0) }
}
/// a different text each time
struct Shifty<'a> { n: Cell<usize>, texts: [&'a str; 2] }
impl<'a> fmt::Display for Shifty<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let i = self.n.get(); self.n.set(i + 1); f.write_str(self.texts[i.min(1)]) }
}
fn msgpack<X: Serialize + ?Sized>(o: &mut Out<M>, f: usize, x: &X) -> Result<(), ms::Error<ser_write::SerError>> {
    match f { 0 => ms::to_writer_compact(o, x), 1 => ms::to_writer(o, x), _ => ms::to_writer_named(o, x) }
}
fn same<D: fmt::Display + ?Sized>(d: &D, s: &str) {
    let f = sym::pick(4);
    let (mut a, mut b) = (Out::<M>::new(), Out::<M>::new());
    if f < 3 {
        check!(msgpack(&mut a, f, &Shown(d)).is_ok());
        check!(msgpack(&mut b, f, s).is_ok());
    } else {
        check!(js::to_writer(&mut a, &Shown(d)).is_ok());
        check!(js::to_writer(&mut b, s).is_ok());
    }
    check!(sym::eq(a.as_slice(), b.as_slice()));
    sym::emit_bytes(&a.buf[..a.len.min(16)]);
}
/// cut points at character boundaries
fn cuts(s: &str) -> [usize; 2] {
    let a = sym::pick(s.len() + 1);
    let b = sym::pick(s.len() + 1);
    sym::assume(a <= b && s.is_char_boundary(a) && s.is_char_boundary(b));
    [a, b]
}

harnesses! {
    fn h_pieces() {
        let t = Text::<3>::any();
        let s = t.as_str();
        same(&Pieces { s, cut: cuts(s), how: sym::pick(3), fail: 9 }, s);
        cover!();
    }
    /// lengths around the header changes
    fn h_lengths() {
        let b = [b'y'; 300];
        let n = [30, 31, 32, 33, 255, 256, 257, 300][sym::pick(8)];
        let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
        same(&Pieces { s, cut: [[0, 0], [1, n], [n / 2, n / 2 + 1]][sym::pick(3)], how: 2 * sym::pick(2), fail: 9 }, s);
        cover!();
    }
    /// with two arbitrary bytes of UTF-8 anywhere
    fn h_long() {
        let n = 28 + sym::pick(8);
        let at = sym::pick(n - 1);
        let o = windowed::<80>(if sym::flip() { b"abcdefg" } else { "a\u{e9}\u{20ac}x".as_bytes() }, n, at, 2);
        sym::assume(utf8_valid(o.as_slice()));
        let s = unsafe { core::str::from_utf8_unchecked(o.as_slice()) };
        let c = [0, at, at + 2, 14][sym::pick(4)];
        sym::assume(s.is_char_boundary(c));
        same(&Pieces { s, cut: [c, c], how: sym::pick(3), fail: 9 }, s);
        cover!();
    }
    /// multi-byte text around the wider headers
    fn h_wide() {
        let mut b = [b'y'; 300];
        let n = [255, 256, 257, 300][sym::pick(4)];
        let m = "\u{1f600}\u{e9}\u{20ac}".as_bytes();
        let at = [0, 1, 100, 240, n - m.len()][sym::pick(5)];
        b[at..at + m.len()].copy_from_slice(m);
        let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
        same(&Pieces { s, cut: [at, at + 4], how: 2 * sym::pick(2), fail: 9 }, s);
        cover!();
    }
    fn h_numbers() {
        let v = sym::u8();
        let mut w = Out::<8>::new();
        if v >= 100 { w.push(b'0' + v / 100) }
        if v >= 10 { w.push(b'0' + v / 10 % 10) }
        w.push(b'0' + v % 10);
        same(&v, unsafe { core::str::from_utf8_unchecked(w.as_slice()) });
        cover!();
    }
    /// a formatter that fails at some point
    fn h_failing() {
        let t = Text::<2>::any();
        let s = t.as_str();
        let p = Pieces { s, cut: cuts(s), how: sym::pick(3), fail: sym::pick(4) };
        let mut o = Out::<M>::new();
        let f = sym::pick(4);
        if f < 3 { check!(msgpack(&mut o, f, &Shown(&p)) == Err(ms::Error::FormatError)) }
        else { check!(js::to_writer(&mut o, &Shown(&p)) == Err(js::Error::FormatError)) }
        cover!();
    }
    /// as an element, a map key and a struct field
    fn h_inside() {
        let t = Text::<2>::any();
        let s = t.as_str();
        let p = Pieces { s, cut: cuts(s), how: sym::pick(3), fail: 9 };
        let (mut a, mut b) = (Out::<M>::new(), Out::<M>::new());
        let f = sym::pick(3);
        #[derive(Serialize)]
        struct Field<X> { x: X, y: u8 }
        match sym::pick(3) {
            0 => { check!(msgpack(&mut a, f, &(Shown(&p), 1)).is_ok() && msgpack(&mut b, f, &(s, 1)).is_ok()) }
            1 => { check!(msgpack(&mut a, f, &crate::util::One(Shown(&p))).is_ok() && msgpack(&mut b, f, &crate::util::One(s)).is_ok()) }
            _ => { check!(msgpack(&mut a, f, &Field { x: Shown(&p), y: 2 }).is_ok() && msgpack(&mut b, f, &Field { x: s, y: 2 }).is_ok()) }
        }
        check!(sym::eq(a.as_slice(), b.as_slice()));
        // and in JSON, where a key takes another path
        let (mut a, mut b) = (Out::<M>::new(), Out::<M>::new());
        match sym::pick(2) {
            0 => check!(js::to_writer(&mut a, &(Shown(&p), 1)).is_ok() && js::to_writer(&mut b, &(s, 1)).is_ok()),
            _ => check!(js::to_writer(&mut a, &crate::util::One(Shown(&p))).is_ok() && js::to_writer(&mut b, &crate::util::One(s)).is_ok()),
        }
        check!(sym::eq(a.as_slice(), b.as_slice()));
        cover!();
    }
    /// a value that formats differently each time is never written with a
    /// header that disagrees with its content
    fn h_shifty() {
        let all = ["", "a", "ab", "abc"];
        let d = Shifty { n: Cell::new(0), texts: [all[sym::pick(4)], all[sym::pick(4)]] };
        let mut o = Out::<M>::new();
        let f = sym::pick(3);
        match msgpack(&mut o, f, &Shown(&d)) {
            Ok(()) => {
                let s = d.texts[0];
                check!(o.len == s.len() + 1 && o.buf[0] == 0xa0 | s.len() as u8 && sym::eq(&o.buf[1..o.len], d.texts[d.n.get().min(2) - 1].as_bytes()));
                cover!()
            }
            Err(e) => check!(e == ms::Error::FormatError && d.texts[0].len() != d.texts[1].len() && d.n.get() == 2),
        }
    }
    /// sinks too small for the text
    fn h_full() {
        let t = Text::<2>::any();
        let s = t.as_str();
        let p = Pieces { s, cut: cuts(s), how: sym::pick(2), fail: 9 };
        let mut b = [0u8; 4];
        let room = sym::pick(t.n + 1);
        let mut o = ser_write::SliceWriter::new(&mut b[..room]);
        check!(match sym::pick(3) { 0 => ms::to_writer_compact(&mut o, &Shown(&p)).is_err(), 1 => ms::to_writer(&mut o, &Shown(&p)).is_err(), _ => ms::to_writer_named(&mut o, &Shown(&p)).is_err() });
        cover!();
    }
}
