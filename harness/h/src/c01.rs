//! C01: fixed-capacity sinks append all or nothing.
use crate::sym;
use ser_write::{SerWrite, SerError, SliceWriter};

/// What the sink must look like after each call.
struct Model<const N: usize> { b: [u8; N], n: usize }

const SRC: usize = 8;
const OPS: usize = if cfg!(feature = "thorough") { 4 } else { 3 };

/// one call of a random kind with random content; the outcome is compared with the model
fn step<W, const N: usize>(w: &mut W, m: &mut Model<N>, cap: usize, see: &dyn Fn(&W) -> &[u8])
where W: SerWrite<Error = SerError> + ?Sized {
    let mut src = [0u8; SRC];
    let kind = sym::pick(3);
    let (r, n) = match kind {
        0 => {
            let n = sym::pick(cap + 2);
            sym::fill(&mut src[..n]);
            (w.write(&src[..n]), n)
        }
        1 => { src[0] = sym::u8(); (w.write_byte(src[0]), 1) }
        _ => {
            let n = sym::pick(cap + 2);
            sym::fill(&mut src[..n]);
            for b in &src[..n] { sym::assume(*b < 0x80) }
            // ASCII, hence valid UTF-8
            (w.write_str(unsafe { core::str::from_utf8_unchecked(&src[..n]) }), n)
        }
    };
    match r {
        Ok(()) => {
            check!(n <= cap - m.n);
            m.b[m.n..m.n + n].copy_from_slice(&src[..n]);
            m.n += n;
            if kind == 0 && n > 0 { cover!() }
            if kind == 2 && n > 1 { cover!() }
        }
        Err(SerError::BufferFull) => { check!(n > cap - m.n); if n == 1 { cover!() } else { cover!() } }
        Err(_) => check!(false),
    }
    check!(sym::eq(see(w), &m.b[..m.n]));
    sym::emit_bytes(see(w));
}
fn history<W, const N: usize>(w: &mut W, cap: usize, see: &dyn Fn(&W) -> &[u8])
where W: SerWrite<Error = SerError> + ?Sized {
    let mut m = Model::<N> { b: [0; N], n: 0 };
    for _ in 0..OPS { step::<W, N>(w, &mut m, cap, see) }
    if m.n == cap { cover!() }
}

const C: usize = 3;
/// capacity around the point where an 8-bit length would wrap
const L: usize = 260;
fn large<W>(w: &mut W, cap: usize, see: &dyn Fn(&W) -> &[u8])
where W: SerWrite<Error = SerError> + ?Sized {
    let src = sym::bytes::<L>();
    const SIZES: [usize; 9] = [0, 1, 2, 127, 128, 253, 255, 256, L];
    let mut n = 0;
    for _ in 0..2 {
        let k = SIZES[sym::pick(SIZES.len())];
        if n + k > L { sym::assume(false) }
        let fits = k <= cap - n;
        match w.write(&src[n..n + k]) {
            Ok(()) => { check!(fits); n += k; }
            Err(e) => { check!(!fits && e == SerError::BufferFull); cover!() }
        }
        check!(sym::eq(see(w), &src[..n]));
    }
    let fits = n < cap;
    match w.write_byte(src[0]) {
        Ok(()) => { check!(fits); check!(see(w).len() == n + 1 && see(w)[n] == src[0] && sym::eq(&see(w)[..n], &src[..n])) }
        Err(_) => { check!(!fits); check!(sym::eq(see(w), &src[..n])); cover!() }
    }
}

harnesses! {
    fn h_slice_writer() {
        let mut back = sym::bytes::<C>();
        let cap = sym::pick(C + 1);
        let mut w = SliceWriter::new(&mut back[..cap]);
        check!(w.is_empty() && w.len() == 0 && w.capacity() == cap && w.rem_capacity() == cap);
        let mut m = Model::<C> { b: [0; C], n: 0 };
        for _ in 0..OPS {
            step::<_, C>(&mut w, &mut m, cap, &|w| w.as_ref());
            check!(w.len() == m.n && w.is_empty() == (m.n == 0) && w.capacity() == cap && w.rem_capacity() == cap - m.n);
            check!(sym::eq(w.as_mut(), &m.b[..m.n]));
        }
        match sym::pick(2) {
            0 => {
                w.clear();
                check!(w.is_empty() && w.len() == 0 && w.rem_capacity() == cap && w.as_ref().is_empty());
                m.n = 0;
                step::<_, C>(&mut w, &mut m, cap, &|w| w.as_ref());
                cover!();
            }
            _ => {
                let n = m.n;
                let (head, mut rest) = w.split();
                check!(sym::eq(head, &m.b[..n]));
                check!(rest.capacity() == cap - n && rest.rem_capacity() == cap - n && rest.is_empty() && rest.as_ref().is_empty());
                m = Model { b: [0; C], n: 0 };
                let mut old = [0u8; C];
                old[..n].copy_from_slice(head);
                step::<_, C>(&mut rest, &mut m, cap - n, &|w| w.as_ref());
                // the parts do not overlap
                check!(sym::eq(head, &old[..n]));
                if n > 0 && m.n > 0 { cover!() }
            }
        }
    }
    /// text formatted through core::fmt is appended like the same text written
    fn h_slice_writer_fmt() {
        use core::fmt::Write;
        let mut back = [0u8; 4];
        let mut w = SliceWriter::new(&mut back);
        let a = sym::bytes::<3>();
        for b in &a { sym::assume(*b < 0x80) }
        let (n1, n2) = (sym::pick(4), sym::pick(4));
        let t = |n: usize| unsafe { core::str::from_utf8_unchecked(&a[..n]) };
        check!(core::fmt::Write::write_str(&mut w, t(n1)).is_ok());
        let r = w.write_fmt(format_args!("{}", t(n2)));
        check!(r.is_ok() == (n1 + n2 <= 4));
        check!(w.len() == if n1 + n2 <= 4 { n1 + n2 } else { n1 });
        check!(sym::eq(&w.as_ref()[..n1], &a[..n1]));
        if r.is_ok() { check!(sym::eq(&w.as_ref()[n1..], &a[..n2])); cover!() } else { cover!() }
    }
    /// a slice of any length the language allows: refused, and never read
    fn h_slice_writer_huge() {
        let mut back = sym::bytes::<C>();
        let keep = back;
        let mut w = SliceWriter::new(&mut back);
        let n0 = sym::pick(C + 1);
        check!(w.write(&keep[..n0]).is_ok());
        let n = sym::u64() as usize;
        sym::assume(n > C - n0 && n <= isize::MAX as usize);
        let big = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::<u8>::dangling().as_ptr(), n) };
        check!(w.write(big) == Err(SerError::BufferFull));
        check!(w.len() == n0 && sym::eq(w.as_ref(), &keep[..n0]));
        cover!();
    }
    fn h_slice_writer_large() {
        let mut back = [0u8; L];
        large(&mut SliceWriter::new(&mut back[..L - 3]), L - 3, &|w| w.as_ref());
    }
    /// the blanket implementation for references forwards unchanged
    fn h_by_ref() {
        let mut back = [0u8; C];
        let mut w = SliceWriter::new(&mut back);
        let mut r = &mut w;
        history::<&mut SliceWriter, C>(&mut r, C, &|w| w.as_ref());
    }
    fn h_arrayvec() { history::<_, C>(&mut arrayvec::ArrayVec::<u8, C>::new(), C, &|w| w.as_slice()) }
    fn h_arrayvec_large() { large(&mut arrayvec::ArrayVec::<u8, {L - 3}>::new(), L - 3, &|w| w.as_slice()) }
    fn h_heapless_usize() { history::<_, C>(&mut heapless::Vec::<u8, C, usize>::new(), C, &|w| w.as_slice()) }
    fn h_heapless_u8() { history::<_, C>(&mut heapless::Vec::<u8, C, u8>::new(), C, &|w| w.as_slice()) }
    fn h_heapless_u8_large() { large(&mut heapless::Vec::<u8, 255, u8>::new(), 255, &|w| w.as_slice()) }
    fn h_heapless_u16_large() { large(&mut heapless::Vec::<u8, {L - 3}, u16>::new(), L - 3, &|w| w.as_slice()) }
    fn h_heapless_view() {
        let v: &mut heapless::VecView<u8, usize> = &mut heapless::Vec::<u8, C, usize>::new();
        history::<_, C>(v, C, &|w| w.as_slice())
    }
    fn h_heapless_view_u8_large() {
        let v: &mut heapless::VecView<u8, u8> = &mut heapless::Vec::<u8, 255, u8>::new();
        large(v, 255, &|w| w.as_slice())
    }
    fn h_tinyvec_array() { history::<_, C>(&mut tinyvec::ArrayVec::<[u8; C]>::new(), C, &|w| w.as_slice()) }
    fn h_tinyvec_array_large() { large(&mut tinyvec::ArrayVec::<[u8; 256]>::new(), 256, &|w| w.as_slice()) }
    fn h_tinyvec_slice() {
        let mut back = [0u8; C];
        history::<_, C>(&mut tinyvec::SliceVec::from_slice_len(&mut back, 0), C, &|w| w.as_slice())
    }
    fn h_tinyvec_slice_large() {
        let mut back = [0u8; L];
        large(&mut tinyvec::SliceVec::from_slice_len(&mut back[..L - 3], 0), L - 3, &|w| w.as_slice())
    }
}
