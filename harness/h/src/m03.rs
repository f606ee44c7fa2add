//! M03: MessagePack floats keep every bit.
use crate::refdec::{self, Head};
use crate::sym;
use crate::util::Out;
use ser_write_msgpack::{ser as ms, de as md};
use serde::Serialize;

fn write<T: Serialize>(x: &T, o: &mut Out<16>) {
    check!(match sym::pick(3) {
        0 => ms::to_writer(o, x),
        1 => ms::to_writer_compact(o, x),
        _ => ms::to_writer_named(o, x),
    }.is_ok());
}
fn number() { cover!() }
fn other() { cover!() }

harnesses! {
    fn h_f32() {
        let v = sym::u32();
        let mut o = Out::<16>::new();
        write(&f32::from_bits(v), &mut o);
        check!(o.len == 5 && o.buf[0] == 0xca && refdec::be(&o.buf, 1, 4) == Some(v as u64));
        match md::from_slice::<f32>(o.as_slice()) { Ok((w, n)) => check!(w.to_bits() == v && n == 5), Err(_) => check!(false) }
    }
    fn h_f64() {
        let v = sym::u64();
        let mut o = Out::<16>::new();
        write(&f64::from_bits(v), &mut o);
        check!(o.len == 9 && o.buf[0] == 0xcb && refdec::be(&o.buf, 1, 8) == Some(v));
        match md::from_slice::<f64>(o.as_slice()) { Ok((w, n)) => check!(w.to_bits() == v && n == 9), Err(_) => check!(false) }
    }
    /// any bytes as a float
    fn h_read_f32() {
        let b = sym::bytes::<10>();
        let n = sym::pick(11);
        let r = refdec::mp_head(&b[..n], 0);
        match md::from_slice::<f32>(&b[..n]) {
            Ok((w, m)) => {
                number();
                match r {
                    Some((h, k)) => {
                        check!(m == k);
                        match h {
                            Head::F32(v) => check!(w.to_bits() == v),
                            Head::F64(v) => { let x = f64::from_bits(v); if x.is_nan() { check!(w.is_nan()) } else { check!(w.to_bits() == (x as f32).to_bits()) } }
                            Head::Nil => check!(w.is_nan()),
                            Head::Int(v) => check!(w.to_bits() == (if b[0] == 0xcf { v as u64 as f32 } else { v as i64 as f32 }).to_bits()),
                            _ => check!(false),
                        }
                    }
                    None => check!(false),
                }
            }
            Err(e) => { other(); match r {
                None => {}
                Some((Head::F32(_) | Head::F64(_) | Head::Nil | Head::Int(_), _)) => check!(false),
                Some(_) => check!(e == md::Error::ExpectedNumber),
            } }
        }
    }
    fn h_read_f64() {
        let b = sym::bytes::<10>();
        let n = sym::pick(11);
        let r = refdec::mp_head(&b[..n], 0);
        match md::from_slice::<f64>(&b[..n]) {
            Ok((w, m)) => match r {
                Some((h, k)) => {
                    check!(m == k);
                    match h {
                        Head::F64(v) => check!(w.to_bits() == v),
                        Head::F32(v) => { let x = f32::from_bits(v); if x.is_nan() { check!(w.is_nan()) } else { check!(w.to_bits() == (x as f64).to_bits()) } }
                        Head::Nil => check!(w.is_nan()),
                        Head::Int(v) => check!(w.to_bits() == (if b[0] == 0xcf { v as u64 as f64 } else { v as i64 as f64 }).to_bits()),
                        _ => check!(false),
                    }
                }
                None => check!(false),
            },
            Err(e) => match r {
                None => {}
                Some((Head::F32(_) | Head::F64(_) | Head::Nil | Head::Int(_), _)) => check!(false),
                Some(_) => check!(e == md::Error::ExpectedNumber),
            },
        }
    }
}
