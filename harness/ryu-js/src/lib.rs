//! Stands in for the number formatter where floats are symbolic: an
//! injective text of the type and the bits, with the real one's interface.
#![no_std]
pub struct Buffer { b: [u8; 25] }
pub trait Float: Copy {
    fn text(self, b: &mut [u8; 25]) -> usize;
    fn special(self) -> Option<&'static str>;
}
fn special(neg: bool, inf: bool) -> &'static str { if !inf { "NaN" } else if neg { "-Infinity" } else { "Infinity" } }
impl Float for f32 {
    fn text(self, b: &mut [u8; 25]) -> usize {
        let v = self.to_bits();
        b[0] = b'3';
        b[1] = b'.';
        let mut i = 0;
        while i < 11 { b[2 + i] = b'0' + (v >> (3 * i) & 7) as u8; i += 1 }
        13
    }
    fn special(self) -> Option<&'static str> { if self.is_finite() { None } else { Some(special(self < 0.0, self.is_infinite())) } }
}
impl Float for f64 {
    fn text(self, b: &mut [u8; 25]) -> usize {
        let v = self.to_bits();
        b[0] = b'6';
        b[1] = b'.';
        let mut i = 0;
        while i < 22 { b[2 + i] = b'0' + (v >> (3 * i) & 7) as u8; i += 1 }
        24
    }
    fn special(self) -> Option<&'static str> { if self.is_finite() { None } else { Some(special(self < 0.0, self.is_infinite())) } }
}
impl Buffer {
    pub fn new() -> Self { Buffer { b: [0; 25] } }
    pub fn format<F: Float>(&mut self, f: F) -> &str { match f.special() { Some(s) => s, None => self.format_finite(f) } }
    pub fn format_finite<F: Float>(&mut self, f: F) -> &str {
        let n = f.text(&mut self.b);
        unsafe { core::str::from_utf8_unchecked(&self.b[..n]) }
    }
}
impl Default for Buffer { fn default() -> Self { Self::new() } }
