//! Hash-consed bit-vector expression DAG with a local simplifier.
//!
//! Every expression has a width (1 = boolean) of at most 128 bits, an unsigned interval
//! and the set of symbolic input bytes it depends on.  All symbolic inputs are bytes.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Concat,
    Extract, // k = low bit; w = width
    ZExt,
    SExt,
    Rng, // the operand, known to be at most k on every path that has it
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    // floating point on bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FOeq,
    FOlt,
    FOle,
    FUno,
    FConv, // f32 <-> f64, by widths
    SToF,
    UToF,
    FToS, // saturating
    FRnd, // to an integral value; k: 0 trunc, 1 floor, 2 ceil, 3 ties even, 4 ties away
    FToU,
}

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
    pub h: u64,
    pub umin: u128,
    pub umax: u128,
    pub sup: u32,
}

#[derive(PartialEq, Eq, Hash)]
struct Key(Op, u16, E, E, E, u128);

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
#[derive(Default, Clone, Copy)]
pub struct FxB;
impl std::hash::BuildHasher for FxB {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<Key, E>,
    /// interned support sets
    pub sets: Vec<Box<[u16]>>,
    set_map: HashMap<Box<[u16]>, u32>,
    union_cache: FxMap<(u32, u32), u32>,
    // evaluation memo
    gen: u32,
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    pub bits_cache: FxMap<E, [u64; 4]>,
    /// variables standing for uninitialised memory
    pub undef_vars: FxMap<u16, ()>,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext128(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

fn f_of(w: u16, v: u128) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}

/// Concrete semantics of an operation, shared by constant folding and model evaluation.
pub fn apply(op: Op, w: u16, k: u128, wa: u16, a: u128, wb: u16, b: u128, c: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Const => k,
        Op::Var => unreachable!(),
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext128(a, w);
            (x >> (if b >= w as u128 { w as u32 - 1 } else { b as u32 })) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Concat => (a << wb) | b,
        Op::Extract => (a >> k) & m,
        Op::ZExt | Op::Rng => a,
        Op::SExt => sext128(a, wa) as u128 & m,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, wa) < sext128(b, wa)) as u128,
        Op::Sle => (sext128(a, wa) <= sext128(b, wa)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                })
                .to_bits() as u128
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                })
                .to_bits() as u128
            }
        }
        Op::FOeq => (f_of(wa, a) == f_of(wa, b)) as u128,
        Op::FOlt => (f_of(wa, a) < f_of(wa, b)) as u128,
        Op::FOle => (f_of(wa, a) <= f_of(wa, b)) as u128,
        Op::FUno => (f_of(wa, a).is_nan() || f_of(wa, b).is_nan()) as u128,
        Op::FConv => {
            if wa == 32 {
                (f32::from_bits(a as u32) as f64).to_bits() as u128
            } else {
                (f64::from_bits(a as u64) as f32).to_bits() as u128
            }
        }
        Op::SToF => {
            let x = sext128(a, wa);
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::UToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::FToS => {
            let x = f_of(wa, a);
            let lo = -(1i128 << (w - 1));
            let hi = (1i128 << (w - 1)) - 1;
            ((x as i128).clamp(lo, hi) as u128) & m
        }
        Op::FToU => (f_of(wa, a) as u128).min(m),
        Op::FRnd => {
            let v = f_of(wa, a);
            let r = match k {
                0 => v.trunc(),
                1 => v.floor(),
                2 => v.ceil(),
                3 => v.round_ties_even(),
                _ => v.round(),
            };
            if w == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }
        }
    }
}

/// a sum of multiples of expressions and a constant
#[derive(Default)]
struct Lin {
    terms: Vec<(E, i128)>,
    c: i128,
}
impl Lin {
    fn add(&mut self, e: E, m: i128) -> bool {
        match self.terms.iter_mut().find(|(x, _)| *x == e) {
            Some((_, k)) => match k.checked_add(m) {
                Some(s) => *k = s,
                None => return false,
            },
            None => self.terms.push((e, m)),
        }
        true
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            n: Vec::new(),
            map: Default::default(),
            sets: vec![Box::new([])],
            set_map: HashMap::new(),
            union_cache: Default::default(),
            gen: 1,
            memo_gen: Vec::new(),
            memo_val: Vec::new(),
            bits_cache: Default::default(),
            undef_vars: Default::default(),
        };
        a.set_map.insert(Box::new([]), 0);
        // E 0 = false, E 1 = true
        a.cst(1, 0);
        a.cst(1, 1);
        a
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.n[e as usize].w
    }
    #[inline]
    pub fn is_const(&self, e: E) -> bool {
        self.n[e as usize].op == Op::Const
    }
    #[inline]
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    #[inline]
    fn op(&self, e: E) -> Op {
        self.n[e as usize].op
    }
    #[inline]
    fn nd(&self, e: E) -> &Node {
        &self.n[e as usize]
    }
    pub fn support(&self, e: E) -> &[u16] {
        &self.sets[self.n[e as usize].sup as usize]
    }
    pub fn intern_set(&mut self, s: Box<[u16]>) -> u32 {
        if let Some(&i) = self.set_map.get(&s) {
            return i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(s.clone());
        self.set_map.insert(s, i);
        i
    }
    pub fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.union_cache.get(&key) {
            return r;
        }
        let mut v: Vec<u16> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.intern_set(v.into_boxed_slice());
        self.union_cache.insert(key, r);
        r
    }

    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        let key = Key(op, w, a, b, c, k);
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let (na, nb, nc) = match op {
            Op::Const | Op::Var => (0, 0, 0),
            Op::Extract | Op::ZExt | Op::SExt | Op::Rng | Op::FConv | Op::SToF | Op::UToF | Op::FToS | Op::FToU | Op::FRnd => (1, 0, 0),
            Op::Ite => (1, 1, 1),
            _ => (1, 1, 0),
        };
        let mut h = (op as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ ((w as u64) << 32);
        let mixin = |h: u64, x: u64| -> u64 {
            let mut z = h.rotate_left(17) ^ x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 29)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 32)
        };
        h = mixin(h, k as u64);
        h = mixin(h, (k >> 64) as u64);
        let mut sup = 0;
        if na == 1 {
            h = mixin(h, self.n[a as usize].h);
            sup = self.n[a as usize].sup;
        }
        if nb == 1 {
            h = mixin(h, self.n[b as usize].h);
            sup = self.union(sup, self.n[b as usize].sup);
        }
        if nc == 1 {
            h = mixin(h, self.n[c as usize].h);
            sup = self.union(sup, self.n[c as usize].sup);
        }
        if op == Op::Var {
            sup = self.intern_set(vec![k as u16].into_boxed_slice());
        }
        let (mut umin, mut umax) = self.range(op, w, a, b, c, k);
        if umin == 0 && umax == mask(w) && matches!(op, Op::Add | Op::Sub) && w >= 16 && w <= 64 {
            if let Some((lo, hi)) = self.sum_range(op, w, a, b) {
                (umin, umax) = (lo, hi);
            }
        }
        let e = self.n.len() as E;
        self.n.push(Node { op, w, a, b, c, k, h, umin, umax, sup });
        self.memo_gen.push(0);
        self.memo_val.push(0);
        self.map.insert(key, e);
        e
    }

    pub fn bounds(&self, e: E) -> (u128, u128) {
        (self.n[e as usize].umin, self.n[e as usize].umax)
    }
    fn range(&self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        let r = |e: E| (self.n[e as usize].umin, self.n[e as usize].umax);
        match op {
            Op::Const => (k, k),
            Op::Var => full,
            Op::Add => {
                let ((al, ah), (bl, bh)) = (r(a), r(b));
                match ah.checked_add(bh) {
                    Some(h) if h <= m => (al + bl, h),
                    _ => {
                        // maybe both wrap (adding a negative constant)
                        if w < 128 && al + bl > m {
                            (al + bl - m - 1, ah + bh - m - 1)
                        } else {
                            full
                        }
                    }
                }
            }
            Op::Sub => {
                let ((al, ah), (bl, bh)) = (r(a), r(b));
                if al >= bh {
                    (al - bh, ah - bl)
                } else if ah < bl && w < 128 {
                    // always wraps
                    (al + m + 1 - bh, ah + m + 1 - bl)
                } else {
                    full
                }
            }
            Op::Mul => {
                let ((al, ah), (bl, bh)) = (r(a), r(b));
                match ah.checked_mul(bh) {
                    Some(h) if h <= m => (al * bl, h),
                    // negative times a positive constant
                    _ if w <= 64 && bl == bh && bl > 0 && al > m / 2 && (m + 1 - al).checked_mul(bl).is_some_and(|x| x <= m / 2 + 1) => {
                        (m + 1 - (m + 1 - al) * bl, m + 1 - (m + 1 - ah) * bl)
                    }
                    _ => full,
                }
            }
            Op::UDiv => {
                let ((al, ah), (bl, bh)) = (r(a), r(b));
                if bl > 0 {
                    (al / bh, ah / bl)
                } else {
                    full
                }
            }
            Op::URem => {
                let ((_, ah), (bl, bh)) = (r(a), r(b));
                if bl > 0 {
                    (0, ah.min(bh - 1))
                } else {
                    (0, ah)
                }
            }
            Op::LShr => (0, r(a).1),
            Op::And => (0, r(a).1.min(r(b).1)),
            Op::Or | Op::Xor => {
                let (ah, bh) = (r(a).1, r(b).1);
                let hi = ah | bh;
                let bits = 128 - hi.leading_zeros();
                let h = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                let lo = if op == Op::Or { r(a).0.max(r(b).0) } else { 0 };
                (lo, h.min(m))
            }
            Op::Concat => {
                let wb = self.w(b);
                ((r(a).0 << wb) | r(b).0, (r(a).1 << wb) | r(b).1)
            }
            Op::Extract => {
                let (al, ah) = r(a);
                if (ah >> k) <= m {
                    (al >> k, ah >> k)
                } else {
                    full
                }
            }
            Op::ZExt => r(a),
            Op::Rng => (r(a).0.min(k), r(a).1.min(k)),
            Op::SExt => {
                let wa = self.w(a);
                if r(a).1 < (1u128 << (wa - 1)) {
                    r(a)
                } else if r(a).0 >= (1u128 << (wa - 1)) {
                    let ext = m & !mask(wa);
                    (r(a).0 | ext, r(a).1 | ext)
                } else {
                    full
                }
            }
            Op::Ite => (r(b).0.min(r(c).0), r(b).1.max(r(c).1)),
            _ => full,
        }
    }

    /// bounds as a signed number, when the sign is known
    pub fn srange(&self, e: E) -> Option<(i128, i128)> {
        let n = self.nd(e);
        if n.w > 64 || n.w < 2 {
            return None;
        }
        let half = 1u128 << (n.w - 1);
        if n.umax < half {
            Some((n.umin as i128, n.umax as i128))
        } else if n.umin >= half {
            let m = (mask(n.w) + 1) as i128;
            Some((n.umin as i128 - m, n.umax as i128 - m))
        } else if self.sumlike(e) {
            // a sum that as a whole stays within the signed range
            let mut t = Lin::default();
            if !self.lin(e, 1, false, &mut t, 0) {
                return None;
            }
            let s = |v: i128| sext128(v as u128 & mask(n.w), n.w);
            let (mut lo, mut hi) = (s(t.c), s(t.c));
            for (x, m) in &t.terms {
                let (x, m) = (self.nd(*x), s(*m));
                if x.umax > u64::MAX as u128 {
                    return None;
                }
                let (p, q) = ((x.umin as i128).checked_mul(m)?, (x.umax as i128).checked_mul(m)?);
                lo = lo.checked_add(p.min(q))?;
                hi = hi.checked_add(p.max(q))?;
            }
            if lo >= -(half as i128) && hi < half as i128 {
                Some((lo, hi))
            } else {
                None
            }
        } else {
            None
        }
    }
    /// whether a signed operation overflows, if the intervals tell
    pub fn sovf(&self, op: Op, a: E, b: E) -> Option<bool> {
        let w = self.w(a);
        let ((al, ah), (bl, bh)) = (self.srange(a)?, self.srange(b)?);
        let c = match op {
            Op::Add => [al + bl, al + bh, ah + bl, ah + bh],
            Op::Sub => [al - bl, al - bh, ah - bl, ah - bh],
            _ => [al * bl, al * bh, ah * bl, ah * bh],
        };
        let (lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
        let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        if lo >= mn && hi <= mx {
            Some(false)
        } else if lo > mx || hi < mn {
            Some(true)
        } else {
            None
        }
    }
    pub fn cst(&mut self, w: u16, v: u128) -> E {
        assert!(w >= 1 && w <= 128, "unsupported width {}", w);
        self.mk(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn var(&mut self, i: u16) -> E {
        self.mk(Op::Var, 8, 0, 0, 0, i as u128)
    }
    pub fn b(&self, v: bool) -> E {
        v as E
    }

    /// order commutative operands deterministically; constants last
    fn ord(&self, a: E, b: E) -> (E, E) {
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if ca != cb {
            return if ca { (b, a) } else { (a, b) };
        }
        if self.nd(a).h <= self.nd(b).h {
            (a, b)
        } else {
            (b, a)
        }
    }

    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        self.xor(a, 1)
    }
    fn fold2(&mut self, op: Op, w: u16, a: E, b: E) -> Option<E> {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = apply(op, w, 0, self.w(a), x, self.w(b), y, 0);
            return Some(self.cst(w, r));
        }
        None
    }

    /// is e == mul(udiv(y, b), b)?
    fn match_mul_udiv(&self, e: E) -> Option<(E, u128)> {
        let n = self.nd(e);
        if n.op != Op::Mul {
            return None;
        }
        let c = self.cval(n.b)?;
        Some((n.a, c))
    }
    /// view e as udiv(y, d) with d = 1 for anything else
    fn as_udiv(&self, e: E) -> (E, u128) {
        let n = self.nd(e);
        if n.op == Op::UDiv {
            if let Some(d) = self.cval(n.b) {
                return (n.a, d);
            }
        }
        (e, 1)
    }
    /// strip zero extensions / truncations that do not change the value
    pub fn strip(&self, mut e: E) -> E {
        while self.op(e) == Op::ZExt {
            e = self.nd(e).a;
        }
        e
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(r) = self.fold2(Op::Add, w, a, b) {
            return r;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = self.ord(a, b);
        if let Some(cb) = self.cval(b) {
            if cb == 0 {
                return a;
            }
            let na = self.nd(a).clone();
            if na.op == Op::Add {
                if let Some(c2) = self.cval(na.b) {
                    let k = self.cst(w, cb.wrapping_add(c2));
                    return self.add(na.a, k);
                }
            }
            if na.op == Op::Ite && self.is_const(na.b) && self.is_const(na.c) {
                let (x, y) = (self.add(na.b, b), self.add(na.c, b));
                return self.ite(na.a, x, y);
            }
            // bytes made of a constant and a narrow part: one form for `|`, `+` and `-`
            if w == 8 && (na.op == Op::ZExt || na.op == Op::Extract && na.k == 0 && self.op(na.a) == Op::URem) {
                let wl = 128 - na.umax.leading_zeros() as u16;
                if wl > 0 && wl < w && cb & mask(wl) == 0 {
                    let h = self.cst(w - wl, cb >> wl);
                    let l = self.extract(a, 0, wl);
                    return self.concat(h, l);
                }
            }
            if w == 8 && na.op == Op::Concat && self.is_const(na.a) && self.cval(na.a) != Some(0) {
                let wl = self.w(na.b);
                let k = (self.cval(na.a).unwrap() << wl).wrapping_add(cb) & mask(w);
                let k = self.cst(w, k);
                let z = self.zext(na.b, w);
                return self.add(z, k);
            }
            // the constant leaves the low part alone
            if na.op == Op::Concat {
                let wl = self.w(na.b);
                if cb & mask(wl) == 0 {
                    let k = self.cst(w - wl, cb >> wl);
                    let h = self.add(na.a, k);
                    return self.concat(h, na.b);
                }
            }
            // zext(x) + c where x = y + d narrower and no wrap: widen
            if na.op == Op::ZExt {
                let inner = self.nd(na.a).clone();
                if inner.op == Op::Add {
                    if let Some(d) = self.cval(inner.b) {
                        let (yl, yh) = (self.nd(inner.a).umin, self.nd(inner.a).umax);
                        let m = mask(inner.w);
                        if yh + d <= m {
                            let y = self.zext(inner.a, w);
                            let k = self.cst(w, d.wrapping_add(cb));
                            return self.add(y, k);
                        } else if yl + d > m {
                            let y = self.zext(inner.a, w);
                            let k = self.cst(w, d.wrapping_sub(m + 1).wrapping_add(cb));
                            return self.add(y, k);
                        }
                    }
                }
            }
        } else {
            // hoist constants
            let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
            if na.op == Op::Add && self.is_const(na.b) {
                let t = self.add(na.a, b);
                return self.add(t, na.b);
            }
            if nb.op == Op::Add && self.is_const(nb.b) {
                let t = self.add(a, nb.a);
                return self.add(t, nb.b);
            }
            // (x - y) + y
            if na.op == Op::Sub && na.b == b {
                return na.a;
            }
            if nb.op == Op::Sub && nb.b == a {
                return nb.a;
            }
            // udiv(y, d*c) * c + urem(udiv(y, d), c)  ==> udiv(y, d)
            if let Some(r) = self.divmod(a, b).or_else(|| self.divmod(b, a)) {
                return r;
            }
            // low(y) - low(udiv(y, c)) * c  ==> low(urem(y, c))
            if let Some(r) = self.low_rem(a, b).or_else(|| self.low_rem(b, a)) {
                return r;
            }
            // -x forms: a + (0 - x)
            if nb.op == Op::Sub && self.cval(nb.a) == Some(0) {
                return self.sub(a, nb.b);
            }
            if na.op == Op::Sub && self.cval(na.a) == Some(0) {
                return self.sub(b, na.b);
            }
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    fn divmod(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (q, c) = self.match_mul_udiv(a)?;
        let r = self.strip(b);
        let nr = self.nd(r).clone();
        // a remainder may have been narrowed by truncation; accept extract of urem when in range
        let nr = if nr.op == Op::Extract && nr.k == 0 && self.op(nr.a) == Op::URem && self.nd(nr.a).umax <= mask(nr.w) {
            self.nd(nr.a).clone()
        } else {
            nr
        };
        if nr.op != Op::URem || self.cval(nr.b) != Some(c) {
            return None;
        }
        let (y, d) = self.as_udiv(nr.a);
        let qs = self.strip(q);
        let (y2, d2) = self.as_udiv(qs);
        if y2 == y && Some(d2) == d.checked_mul(c) {
            let t = nr.a;
            let wt = self.w(t);
            if wt == w {
                return Some(t);
            }
            if wt < w {
                return Some(self.zext(t, w));
            }
            // narrower sum: exact only modulo 2^w
            return Some(self.extract(t, 0, w));
        }
        None
    }
    /// `x + m` with `m` a negative multiple of a quotient of what `x` is the low part of
    fn low_rem(&mut self, x: E, m: E) -> Option<E> {
        let nm = self.nd(m).clone();
        let w = nm.w;
        if w > 64 {
            return None;
        }
        // q * -c
        let (q, c) = match nm.op {
            Op::Mul => (nm.a, self.cval(nm.b)?.wrapping_neg() & mask(w)),
            Op::Sub if self.cval(nm.a) == Some(0) => {
                let n = self.nd(nm.b).clone();
                match n.op {
                    Op::Mul => (n.a, self.cval(n.b)?),
                    _ => return None,
                }
            }
            _ => return None,
        };
        if c < 2 || c > mask(w) >> 1 {
            return None;
        }
        self.low_rem_of(x, q, c)
    }
    fn low_rem_of(&mut self, x: E, q: E, c: u128) -> Option<E> {
        let w = self.w(x);
        let mut q = self.strip(q);
        let nq = self.nd(q).clone();
        if nq.op == Op::Extract && nq.k == 0 {
            q = self.strip(nq.a);
        }
        if self.op(q) != Op::UDiv {
            return None;
        }
        let (z, d) = self.as_udiv(q);
        if d % c != 0 {
            return None;
        }
        let wz = self.w(z);
        let k = self.cst(wz, d / c);
        let y = self.udiv(z, k);
        let fit = |s: &mut Self, e: E| if wz >= w { s.extract(e, 0, w) } else { s.zext(e, w) };
        if fit(self, y) != x {
            return None;
        }
        let k = self.cst(wz, c);
        let r = self.urem(y, k);
        Some(fit(self, r))
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let z = self.cst(w, 0);
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::Sub, w, a, b) {
            return r;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.cst(w, 0);
        }
        if let Some(cb) = self.cval(b) {
            let k = self.cst(w, cb.wrapping_neg());
            return self.add(a, k);
        }
        let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
            if self.is_const(na.b) {
                let t = self.sub(na.a, b);
                return self.add(t, na.b);
            }
        }
        if nb.op == Op::Add {
            if let Some(cb) = self.cval(nb.b) {
                let t = self.sub(a, nb.a);
                let k = self.cst(w, cb.wrapping_neg());
                return self.add(t, k);
            }
        }
        // a - (a - x) = x
        if nb.op == Op::Sub && nb.a == a {
            return nb.b;
        }
        // 0 - (0 - x)
        if self.cval(a) == Some(0) && nb.op == Op::Sub && self.cval(nb.a) == Some(0) {
            return nb.b;
        }
        // y - udiv(y,c)*c => urem(y,c)
        if nb.op == Op::Mul {
            if let Some(c) = self.cval(nb.b) {
                let nq = self.nd(nb.a).clone();
                if nq.op == Op::UDiv {
                    // y = udiv(z, d), q = udiv(z, d*c)
                    let (z, d) = self.as_udiv(a);
                    let (z2, d2) = self.as_udiv(nb.a);
                    if z == z2 && Some(d2) == d.checked_mul(c) {
                        return self.urem(a, nb.b);
                    }
                    if nq.a == a && self.cval(nq.b) == Some(c) {
                        return self.urem(a, nb.b);
                    }
                }
            }
        }
        if nb.op == Op::Mul && w <= 64 {
            if let Some(c) = self.cval(nb.b).filter(|c| *c >= 2) {
                if let Some(r) = self.low_rem_of(a, nb.a, c) {
                    return r;
                }
            }
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::Mul, w, a, b) {
            return r;
        }
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = self.ord(a, b);
        if let Some(cb) = self.cval(b) {
            if cb == 0 {
                return b;
            }
            if cb == 1 {
                return a;
            }
            if cb == mask(w) {
                return self.neg(a);
            }
            let na = self.nd(a).clone();
            if na.op == Op::Mul {
                if let Some(c2) = self.cval(na.b) {
                    let k = self.cst(w, cb.wrapping_mul(c2));
                    return self.mul(na.a, k);
                }
            }
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    /// quotient and remainder of a sum without wrapping by a constant, when
    /// the parts that are no multiples of it stay below it
    fn sum_divmod(&mut self, a: E, c: u128) -> Option<(E, E)> {
        let w = self.w(a);
        if w > 64 || !self.sumlike(a) {
            return None;
        }
        let mut t = Lin::default();
        if !self.lin(a, 1, true, &mut t, 0) || t.c < 0 || t.terms.len() < 2 && t.c == 0 {
            return None;
        }
        let c = c as i128;
        let (mut q, mut r) = (Vec::new(), Vec::new());
        let mut hi = t.c % c;
        for (e, m) in &t.terms {
            if *m == 0 {
                continue;
            }
            if *m < 0 {
                return None;
            }
            if m % c == 0 {
                q.push((*e, m / c));
            } else {
                hi = hi.checked_add(i128::try_from(self.nd(*e).umax).ok()?.checked_mul(*m)?)?;
                r.push((*e, *m));
            }
        }
        if hi >= c || q.is_empty() && t.c < c {
            return None;
        }
        Some((self.sum_of(w, &q, t.c / c), self.sum_of(w, &r, t.c % c)))
    }
    fn sum_of(&mut self, w: u16, t: &[(E, i128)], c: i128) -> E {
        let mut s = self.cst(w, c as u128);
        for (e, m) in t {
            let we = self.w(*e);
            let x = if we > w { self.extract(*e, 0, w) } else { self.zext(*e, w) };
            let k = self.cst(w, *m as u128);
            let x = self.mul(x, k);
            s = self.add(s, x);
        }
        s
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::UDiv, w, a, b) {
            return r;
        }
        if let Some(cb) = self.cval(b) {
            if cb == 1 {
                return a;
            }
            if cb != 0 {
                if self.nd(a).umax < cb {
                    return self.cst(w, 0);
                }
                if cb.is_power_of_two() {
                    let k = self.cst(w, cb.trailing_zeros() as u128);
                    return self.lshr(a, k);
                }
                if let Some((q, _)) = self.sum_divmod(a, cb) {
                    return q;
                }
                let na = self.nd(a).clone();
                if na.op == Op::UDiv {
                    if let Some(c2) = self.cval(na.b) {
                        if let Some(p) = cb.checked_mul(c2) {
                            if p <= mask(w) {
                                let k = self.cst(w, p);
                                return self.udiv(na.a, k);
                            } else {
                                return self.cst(w, 0);
                            }
                        }
                    }
                }
                if na.op == Op::ZExt && cb <= mask(self.w(na.a)) {
                    let wi = self.w(na.a);
                    let k = self.cst(wi, cb);
                    let t = self.udiv(na.a, k);
                    return self.zext(t, w);
                }
            }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::URem, w, a, b) {
            return r;
        }
        if let Some(cb) = self.cval(b) {
            if cb == 1 {
                return self.cst(w, 0);
            }
            if cb != 0 {
                if self.nd(a).umax < cb {
                    return a;
                }
                if cb.is_power_of_two() {
                    let k = self.cst(w, cb - 1);
                    return self.and(a, k);
                }
                if let Some((_, r)) = self.sum_divmod(a, cb) {
                    return r;
                }
                let na = self.nd(a).clone();
                if na.op == Op::ZExt && cb <= mask(self.w(na.a)) {
                    let wi = self.w(na.a);
                    let k = self.cst(wi, cb);
                    let t = self.urem(na.a, k);
                    return self.zext(t, w);
                }
            }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::SDiv, w, a, b) {
            return r;
        }
        let half = 1u128 << (w - 1);
        if self.nd(a).umax < half && self.nd(b).umax < half {
            return self.udiv(a, b);
        }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::SRem, w, a, b) {
            return r;
        }
        let half = 1u128 << (w - 1);
        if self.nd(a).umax < half && self.nd(b).umax < half {
            return self.urem(a, b);
        }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::Shl, w, a, b) {
            return r;
        }
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.cst(w, 0);
            }
            let hi = self.extract(a, 0, w - s as u16);
            let lo = self.cst(s as u16, 0);
            return self.concat(hi, lo);
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::LShr, w, a, b) {
            return r;
        }
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.cst(w, 0);
            }
            let t = self.extract(a, s as u16, w - s as u16);
            return self.zext(t, w);
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::AShr, w, a, b) {
            return r;
        }
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1);
            let t = self.extract(a, s as u16, w - s as u16);
            return self.sext(t, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::And, w, a, b) {
            return r;
        }
        if a == b {
            return a;
        }
        let (a, b) = self.ord(a, b);
        if let Some(cb) = self.cval(b) {
            if cb == 0 {
                return b;
            }
            if cb == mask(w) {
                return a;
            }
            let na = self.nd(a).clone();
            // low mask that covers the whole range
            if na.umax <= cb && (cb & (cb + 1)) == 0 {
                return a;
            }
            if na.op == Op::Ite && self.is_const(na.b) && self.is_const(na.c) {
                let (x, y) = (self.and(na.b, b), self.and(na.c, b));
                return self.ite(na.a, x, y);
            }
            if na.op == Op::And && self.is_const(na.b) {
                let k = self.and(na.b, b);
                return self.and(na.a, k);
            }
            if na.op == Op::ZExt {
                let wi = self.w(na.a);
                let k = self.cst(wi, cb);
                let t = self.and(na.a, k);
                return self.zext(t, w);
            }
            // contiguous run of ones
            let tz = cb.trailing_zeros() as u16;
            let run = (cb >> tz).trailing_ones() as u16;
            if tz + run + (cb.leading_zeros() as u16 - (128 - w)) == w {
                let mid = self.extract(a, tz, run);
                let mut r = mid;
                if tz > 0 {
                    let z = self.cst(tz, 0);
                    r = self.concat(r, z);
                }
                return self.zext(r, w);
            }
            if na.op == Op::Concat {
                let wl = self.w(na.b);
                let (kh, kl) = (self.cst(w - wl, cb >> wl), self.cst(wl, cb));
                let h = self.and(na.a, kh);
                let l = self.and(na.b, kl);
                return self.concat(h, l);
            }
        } else if w == 1 {
            // a & !a
            if self.op(b) == Op::Xor && self.nd(b).a == a && self.nd(b).b == 1 {
                return 0;
            }
            if self.op(a) == Op::Xor && self.nd(a).a == b && self.nd(a).b == 1 {
                return 0;
            }
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::Or, w, a, b) {
            return r;
        }
        if a == b {
            return a;
        }
        let (a, b) = self.ord(a, b);
        if let Some(cb) = self.cval(b) {
            if cb == 0 {
                return a;
            }
            if cb == mask(w) {
                return b;
            }
        } else if w == 1 {
            if self.op(b) == Op::Xor && self.nd(b).a == a && self.nd(b).b == 1 {
                return 1;
            }
            if self.op(a) == Op::Xor && self.nd(a).a == b && self.nd(a).b == 1 {
                return 1;
            }
        }
        // disjoint bit fields
        if w > 1 {
            if let Some(r) = self.or_parts(a, b).or_else(|| self.or_parts(b, a)) {
                return r;
            }
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    /// hi part has z trailing zero bits, lo part is below 2^z
    fn trailing_zeros(&self, e: E) -> u16 {
        let n = self.nd(e);
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w
                } else {
                    n.k.trailing_zeros() as u16
                }
            }
            Op::Concat => {
                if self.cval(n.b) == Some(0) {
                    let wl = self.w(n.b);
                    wl + self.trailing_zeros(n.a)
                } else {
                    self.trailing_zeros(n.b).min(self.w(n.b))
                }
            }
            Op::ZExt => self.trailing_zeros(n.a),
            _ => 0,
        }
    }
    fn or_parts(&mut self, hi: E, lo: E) -> Option<E> {
        let w = self.w(hi);
        let tz = self.trailing_zeros(hi);
        if tz == 0 || tz >= w {
            return None;
        }
        if self.nd(lo).umax > mask(tz) {
            return None;
        }
        let h = self.extract(hi, tz, w - tz);
        let l = self.extract(lo, 0, tz);
        Some(self.concat(h, l))
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold2(Op::Xor, w, a, b) {
            return r;
        }
        if a == b {
            return self.cst(w, 0);
        }
        let (a, b) = self.ord(a, b);
        if let Some(cb) = self.cval(b) {
            if cb == 0 {
                return a;
            }
            let na = self.nd(a).clone();
            if na.op == Op::Xor && self.is_const(na.b) {
                let k = self.xor(na.b, b);
                return self.xor(na.a, k);
            }
            if w == 1 && cb == 1 {
                match na.op {
                    Op::Ult => return self.ule(na.b, na.a),
                    Op::Ule => return self.ult(na.b, na.a),
                    Op::Slt => return self.sle(na.b, na.a),
                    Op::Sle => return self.slt(na.b, na.a),
                    Op::Ite if self.is_const(na.b) || self.is_const(na.c) => {
                        let (x, y) = (self.not(na.b), self.not(na.c));
                        return self.ite(na.a, x, y);
                    }
                    _ => {}
                }
            }
            if na.op == Op::Concat {
                let wl = self.w(na.b);
                let (kh, kl) = (self.cst(w - wl, cb >> wl), self.cst(wl, cb));
                let h = self.xor(na.a, kh);
                let l = self.xor(na.b, kl);
                return self.concat(h, l);
            }
            if na.op == Op::ZExt && cb <= mask(self.w(na.a)) {
                let wi = self.w(na.a);
                let k = self.cst(wi, cb);
                let t = self.xor(na.a, k);
                return self.zext(t, w);
            }
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        assert!(w <= 128, "concat too wide");
        if let Some(r) = self.fold2(Op::Concat, w, a, b) {
            return r;
        }
        if self.cval(a) == Some(0) {
            return self.zext(b, w);
        }
        let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
        // adjacent extracts
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + wb as u128 {
            return self.extract(na.a, nb.k as u16, w);
        }
        // the low part of the same sum, simplified at its own width
        if na.op == Op::Extract && na.k == wb as u128 && matches!(self.op(na.a), Op::Add | Op::Sub | Op::Mul) && !matches!(nb.op, Op::Const | Op::Extract) {
            if self.extract(na.a, 0, wb) == b {
                return self.extract(na.a, 0, w);
            }
        }
        // left-assoc: concat(concat(p,q),b) with q,b adjacent
        if na.op == Op::Concat {
            let nq = self.nd(na.b).clone();
            if nq.op == Op::Extract && nb.op == Op::Extract && nq.a == nb.a && nq.k == nb.k + wb as u128 {
                let t = self.extract(nq.a, nb.k as u16, self.w(na.b) + wb);
                return self.concat(na.a, t);
            }
            if self.is_const(na.b) && self.is_const(b) {
                let t = self.concat(na.b, b);
                return self.concat(na.a, t);
            }
        }
        if na.op == Op::ZExt {
            let t = self.concat(na.a, b);
            return self.zext(t, w);
        }
        if na.op == Op::SExt {
            let t = self.concat(na.a, b);
            return self.sext(t, w);
        }
        if na.op == Op::Ite && !self.is_const(b) && self.cval(na.b) == Some(mask(wa)) && self.cval(na.c) == Some(0) && self.extract(b, wb - 1, 1) == na.a {
            return self.sext(b, w);
        }
        // right nested: concat(a, concat(p,q)) -> concat(concat(a,p),q) to have a canonical left shape
        if nb.op == Op::Concat {
            let t = self.concat(a, nb.a);
            return self.concat(t, nb.b);
        }
        // sign bits: concat(ite(c,k1,k2), const) folding
        if na.op == Op::Ite && nb.op == Op::Const && self.is_const(na.b) && self.is_const(na.c) {
            let (x, y) = (self.concat(na.b, b), self.concat(na.c, b));
            return self.ite(na.a, x, y);
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a && self.is_const(na.b) && self.is_const(na.c) && self.is_const(nb.b) && self.is_const(nb.c) {
            let (x, y) = (self.concat(na.b, nb.b), self.concat(na.c, nb.c));
            return self.ite(na.a, x, y);
        }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let wa = self.w(a);
        assert!(lo + w <= wa, "extract out of range");
        if lo == 0 && w == wa {
            return a;
        }
        if let Some(x) = self.cval(a) {
            return self.cst(w, x >> lo);
        }
        let n = self.nd(a).clone();
        if lo < 128 && ((n.umax >> lo) == 0 || w == 1 && (n.umax >> lo) == (n.umin >> lo)) {
            return self.cst(w, n.umin >> lo);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.cst(w, 0);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let t = self.extract(n.a, lo, wi - lo);
                return self.zext(t, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo < wi {
                    let t = self.extract(n.a, lo, wi - lo);
                    return self.sext(t, w);
                }
                let t = self.extract(n.a, wi - 1, 1);
                return self.sext(t, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.add(x, y);
            }
            Op::Sub if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.sub(x, y);
            }
            Op::Mul if lo == 0 && self.is_const(n.b) => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.mul(x, y);
            }
            Op::Ite => {
                if self.is_const(n.b) || self.is_const(n.c) || w == 1 || lo > 0 || true {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn known_at_most(&mut self, a: E, hi: u128) -> E {
        if self.nd(a).umax <= hi {
            return a;
        }
        let w = self.w(a);
        self.mk(Op::Rng, w, a, 0, 0, hi)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        assert!(w > wa && w <= 128, "zext");
        if let Some(x) = self.cval(a) {
            return self.cst(w, x);
        }
        let n = self.nd(a).clone();
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            // value preserving truncation
            Op::Extract if n.k == 0 && self.nd(n.a).umax <= mask(wa) => {
                let wi = self.w(n.a);
                if wi == w {
                    return n.a;
                } else if wi < w {
                    return self.zext(n.a, w);
                } else {
                    return self.extract(n.a, 0, w);
                }
            }
            Op::Ite if self.is_const(n.b) && self.is_const(n.c) => {
                let (x, y) = (self.zext(n.b, w), self.zext(n.c, w));
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(x) = self.cval(a) {
            return self.cst(w, sext128(x, wa) as u128);
        }
        let n = self.nd(a).clone();
        if wa > 1 && n.umax < (1u128 << (wa - 1)) {
            return self.zext(a, w);
        }
        if wa == 1 {
            let (x, y) = (self.cst(w, u128::MAX), self.cst(w, 0));
            return self.ite(a, x, y);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::Ite && self.is_const(n.b) && self.is_const(n.c) {
            let (x, y) = (self.sext(n.b, w), self.sext(n.c, w));
            return self.ite(n.a, x, y);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        debug_assert_eq!(self.w(c), 1);
        debug_assert_eq!(self.w(a), self.w(b));
        if let Some(x) = self.cval(c) {
            return if x != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // canonical condition polarity
        let nc = self.nd(c).clone();
        if nc.op == Op::Xor && nc.b == 1 {
            return self.ite(nc.a, b, a);
        }
        let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // zext on both sides
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let t = self.ite(c, na.a, nb.a);
            return self.zext(t, w);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    /// `e` times `m` added to `t` as a sum of atoms; as integers when `exact`
    /// (only through operations that cannot wrap), else modulo 2^w
    fn lin(&self, e: E, m: i128, exact: bool, t: &mut Lin, depth: u32) -> bool {
        let n = self.nd(e);
        if t.terms.len() > 64 || depth > 200 {
            return false;
        }
        let r = |e: E| (self.n[e as usize].umin, self.n[e as usize].umax);
        let mx = mask(n.w);
        match n.op {
            Op::Const => {
                if n.k > u64::MAX as u128 {
                    return false;
                }
                let k = if exact { n.k as i128 } else { sext128(n.k, n.w) };
                let Some(p) = k.checked_mul(m) else { return false };
                let Some(c) = t.c.checked_add(p) else { return false };
                t.c = c;
                true
            }
            Op::Add => {
                let ((al, ah), (bl, bh)) = (r(n.a), r(n.b));
                if !exact || ah.checked_add(bh).is_some_and(|h| h <= mx) {
                    return self.lin(n.a, m, exact, t, depth + 1) && self.lin(n.b, m, exact, t, depth + 1);
                }
                if al.checked_add(bl).is_some_and(|l| l > mx) && n.w <= 64 {
                    // always wraps exactly once
                    let Some(p) = ((mx + 1) as i128).checked_mul(m) else { return false };
                    let Some(c) = t.c.checked_sub(p) else { return false };
                    t.c = c;
                    return self.lin(n.a, m, exact, t, depth + 1) && self.lin(n.b, m, exact, t, depth + 1);
                }
                t.add(e, m)
            }
            Op::Sub if !exact || r(n.a).0 >= r(n.b).1 => self.lin(n.a, m, exact, t, depth + 1) && self.lin(n.b, -m, exact, t, depth + 1),
            Op::Mul if !exact && self.is_const(n.b) => {
                match sext128(self.cval(n.b).unwrap(), n.w).checked_mul(m) {
                    Some(m) => self.lin(n.a, sext128(m as u128 & mx, n.w), exact, t, depth + 1),
                    None => false,
                }
            }
            Op::Mul if self.cval(n.b).is_some_and(|c| c <= 1 << 62) && ( r(n.a).1.checked_mul(self.cval(n.b).unwrap()).is_some_and(|h| h <= mx)) => {
                match m.checked_mul(self.cval(n.b).unwrap() as i128) {
                    Some(m) => self.lin(n.a, m, exact, t, depth + 1),
                    None => false,
                }
            }
            Op::Shl if self.cval(n.b).is_some_and(|c| c < 62) && (!exact || r(n.a).1.leading_zeros() as u128 >= 128 - n.w as u128 + self.cval(n.b).unwrap()) => {
                match m.checked_mul(1i128 << self.cval(n.b).unwrap()) {
                    Some(m) => self.lin(n.a, m, exact, t, depth + 1),
                    None => false,
                }
            }
            Op::ZExt => self.lin(n.a, m, true, t, depth + 1),
            Op::Concat if self.is_const(n.a) && n.w <= 64 => {
                let k = self.cval(n.a).unwrap() << self.w(n.b);
                let Some(p) = (k as i128).checked_mul(m) else { return false };
                let Some(c) = t.c.checked_add(p) else { return false };
                t.c = c;
                self.lin(n.b, m, true, t, depth + 1)
            }
            _ => t.add(e, m),
        }
    }
    /// unsigned interval of a sum whose parts may wrap but which as a whole
    /// stays within one period
    fn sum_range(&self, op: Op, w: u16, a: E, b: E) -> Option<(u128, u128)> {
        let mut t = Lin::default();
        if !self.lin(a, 1, false, &mut t, 0) || !self.lin(b, if op == Op::Add { 1 } else { -1 }, false, &mut t, 0) {
            return None;
        }
        let mut c = sext128(t.c as u128 & mask(w), w);
        let (mut lo, mut hi) = (0i128, 0i128);
        for (e, m) in &t.terms {
            let n = self.nd(*e);
            let m = sext128(*m as u128 & mask(w), w);
            if n.umax > u64::MAX as u128 {
                return None;
            }
            let (x, y) = ((n.umin as i128).checked_mul(m)?, (n.umax as i128).checked_mul(m)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        let p = mask(w) as i128 + 1;
        if hi - lo >= p {
            return None;
        }
        c += lo;
        let base = c.rem_euclid(p);
        if base + (hi - lo) < p {
            Some((base as u128, (base + (hi - lo)) as u128))
        } else {
            None
        }
    }
    pub fn is_sum(&self, e: E) -> bool {
        self.sumlike(e)
    }
    fn sumlike(&self, e: E) -> bool {
        let n = self.nd(e);
        matches!(n.op, Op::Add | Op::Sub | Op::Mul) || n.op == Op::ZExt && matches!(self.op(n.a), Op::Add | Op::Sub | Op::Mul)
    }
    /// equality of sums: decided when they differ by a constant
    fn lin_eq(&self, a: E, b: E) -> Option<bool> {
        let w = self.w(a);
        if w < 16 || w > 64 || !(self.sumlike(a) || self.sumlike(b)) {
            return None;
        }
        let mut t = Lin::default();
        if !self.lin(a, 1, false, &mut t, 0) || !self.lin(b, -1, false, &mut t, 0) {
            return None;
        }
        if t.terms.iter().all(|(_, m)| *m as u128 & mask(w) == 0) {
            return Some(t.c as u128 & mask(w) == 0);
        }
        None
    }
    /// interval of b - a as integers, after common parts cancel
    fn lin_diff(&self, a: E, b: E) -> Option<(i128, i128)> {
        let w = self.w(a);
        if w < 16 || w > 64 || !(self.sumlike(a) && self.sumlike(b)) {
            return None;
        }
        let mut t = Lin::default();
        if !self.lin(b, 1, true, &mut t, 0) || !self.lin(a, -1, true, &mut t, 0) {
            return None;
        }
        let (mut lo, mut hi) = (t.c, t.c);
        for (e, m) in &t.terms {
            let n = self.nd(*e);
            if n.umax > u64::MAX as u128 {
                return None;
            }
            let (x, y) = ((n.umin as i128).checked_mul(*m)?, (n.umax as i128).checked_mul(*m)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return 1;
        }
        if let Some(r) = self.fold2(Op::Eq, 1, a, b) {
            return r;
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (a, b) = self.ord(a, b);
        let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
        if na.umin > nb.umax || nb.umin > na.umax {
            return 0;
        }
        if let Some(r) = self.lin_eq(a, b) {
            return r as E;
        }
        if let Some(cb) = self.cval(b) {
            match na.op {
                Op::ZExt => {
                    let wi = self.w(na.a);
                    if cb > mask(wi) {
                        return 0;
                    }
                    let k = self.cst(wi, cb);
                    return self.eq(na.a, k);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let k = self.cst(wi, cb);
                    let back = self.sext(k, w);
                    if back != b {
                        return 0;
                    }
                    return self.eq(na.a, k);
                }
                Op::Add if self.is_const(na.b) => {
                    let k = self.sub(b, na.b);
                    return self.eq(na.a, k);
                }
                Op::Xor if self.is_const(na.b) => {
                    let k = self.xor(b, na.b);
                    return self.eq(na.a, k);
                }
                Op::Sub if self.cval(na.a).is_some() => {
                    let k = self.sub(na.a, b);
                    return self.eq(na.b, k);
                }
                Op::Sub if cb == 0 => return self.eq(na.a, na.b),
                // v/c == k  is  k*c <= v < (k+1)*c
                Op::UDiv if self.cval(na.b).is_some_and(|c| c != 0) => {
                    let c = self.cval(na.b).unwrap();
                    let Some(lo) = cb.checked_mul(c).filter(|x| *x <= mask(w)) else { return 0 };
                    let lo_e = self.cst(w, lo);
                    let ge = self.ule(lo_e, na.a);
                    let lt = match lo.checked_add(c).filter(|x| *x <= mask(w)) {
                        Some(hi) => {
                            let h = self.cst(w, hi);
                            self.ult(na.a, h)
                        }
                        None => 1,
                    };
                    return self.and(ge, lt);
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.cst(w - wl, cb >> wl);
                    let h = self.eq(na.a, kh);
                    if h == 0 {
                        return 0;
                    }
                    let kl = self.cst(wl, cb);
                    let l = self.eq(na.b, kl);
                    return self.and(h, l);
                }
                Op::Ite => {
                    let (c1, c2) = (self.is_const(na.b), self.is_const(na.c));
                    if c1 || c2 {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                _ => {}
            }
        } else {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (wx, wy) = (self.w(na.a), self.w(nb.a));
                let wm = wx.max(wy);
                let (x, y) = (self.zext(na.a, wm), self.zext(nb.a, wm));
                return self.eq(x, y);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                let y = self.eq(na.b, nb.b);
                return self.and(x, y);
            }
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.fold2(Op::Ult, 1, a, b) {
            return r;
        }
        if a == b {
            return 0;
        }
        let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
        if na.umax < nb.umin {
            return 1;
        }
        if na.umin >= nb.umax {
            return 0;
        }
        match self.lin_diff(a, b) {
            Some((lo, _)) if lo > 0 => return 1,
            Some((_, hi)) if hi <= 0 => return 0,
            _ => {}
        }
        if let Some(r) = self.cmp_shrink(a, b) {
            return self.ult(r.0, r.1);
        }
        if self.cval(b) == Some(1) {
            let z = self.cst(na.w, 0);
            return self.eq(a, z);
        }
        if self.cval(a) == Some(0) {
            let z = self.cst(na.w, 0);
            return self.ne(b, z);
        }
        // y < (y/c)*c is false
        if nb.op == Op::Mul && self.is_const(nb.b) {
            if let Some(c) = self.cval(nb.b) {
                let (y, d) = self.as_udiv(a);
                let q = self.strip(nb.a);
                let (y2, d2) = self.as_udiv(q);
                if y == y2 && Some(d2) == d.checked_mul(c) {
                    return 0;
                }
            }
        }
        // comparisons of a quotient or of a sum with a constant
        let w = na.w;
        if let (Op::UDiv, Some(k)) = (na.op, self.cval(b)) {
            if let Some(c) = self.cval(na.b).filter(|c| *c != 0) {
                return match k.checked_mul(c).filter(|x| *x <= mask(w)) {
                    Some(p) => {
                        let p = self.cst(w, p);
                        self.ult(na.a, p)
                    }
                    None => 1,
                };
            }
        }
        if let (Some(k), Op::UDiv) = (self.cval(a), nb.op) {
            if let Some(c) = self.cval(nb.b).filter(|c| *c != 0) {
                return match k.checked_add(1).and_then(|k| k.checked_mul(c)).filter(|x| *x <= mask(w)) {
                    Some(p) => {
                        let p = self.cst(w, p);
                        self.ule(p, nb.a)
                    }
                    None => 0,
                };
            }
        }
        if let (Op::Add, Some(k)) = (na.op, self.cval(b)) {
            if let Some(c) = self.cval(na.b) {
                if self.nd(na.a).umax.checked_add(c).is_some_and(|x| x <= mask(w)) {
                    if k <= c {
                        return 0;
                    }
                    let d = self.cst(w, k - c);
                    return self.ult(na.a, d);
                }
            }
        }
        if let (Some(k), Op::Add) = (self.cval(a), nb.op) {
            if let Some(c) = self.cval(nb.b) {
                if self.nd(nb.a).umax.checked_add(c).is_some_and(|x| x <= mask(w)) {
                    if k < c {
                        return 1;
                    }
                    let d = self.cst(w, k - c);
                    return self.ult(d, nb.a);
                }
            }
        }
        if na.w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        if let Some(r) = self.cmp_ite(a, b, Op::Ult) {
            return r;
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    fn cmp_ite(&mut self, a: E, b: E, op: Op) -> Option<E> {
        let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
        if na.op == Op::Ite && nb.op == Op::Const && (self.is_const(na.b) || self.is_const(na.c)) {
            let (x, y) = if op == Op::Ult { (self.ult(na.b, b), self.ult(na.c, b)) } else { (self.ule(na.b, b), self.ule(na.c, b)) };
            return Some(self.ite(na.a, x, y));
        }
        if nb.op == Op::Ite && na.op == Op::Const && (self.is_const(nb.b) || self.is_const(nb.c)) {
            let (x, y) = if op == Op::Ult { (self.ult(a, nb.b), self.ult(a, nb.c)) } else { (self.ule(a, nb.b), self.ule(a, nb.c)) };
            return Some(self.ite(nb.a, x, y));
        }
        None
    }
    /// both sides fit in a narrower width
    fn cmp_shrink(&mut self, a: E, b: E) -> Option<(E, E)> {
        let (na, nb) = (self.nd(a), self.nd(b));
        let wi = match (na.op, nb.op) {
            (Op::ZExt, Op::ZExt) => self.w(na.a).max(self.w(nb.a)),
            (Op::ZExt, Op::Const) => {
                let wi = self.w(na.a);
                if nb.k > mask(wi) {
                    return None;
                }
                wi
            }
            (Op::Const, Op::ZExt) => {
                let wi = self.w(nb.a);
                if na.k > mask(wi) {
                    return None;
                }
                wi
            }
            _ => return None,
        };
        if wi >= na.w {
            return None;
        }
        Some((self.extract(a, 0, wi), self.extract(b, 0, wi)))
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.fold2(Op::Ule, 1, a, b) {
            return r;
        }
        if a == b {
            return 1;
        }
        let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
        if na.umax <= nb.umin {
            return 1;
        }
        if na.umin > nb.umax {
            return 0;
        }
        match self.lin_diff(a, b) {
            Some((lo, _)) if lo >= 0 => return 1,
            Some((_, hi)) if hi < 0 => return 0,
            _ => {}
        }
        if let Some(cb) = self.cval(b) {
            // a <= c  ==  a < c+1
            if cb == mask(na.w) {
                return 1;
            }
            let k = self.cst(na.w, cb + 1);
            return self.ult(a, k);
        }
        if let Some(ca) = self.cval(a) {
            if ca == 0 {
                return 1;
            }
            let k = self.cst(na.w, ca - 1);
            return self.ult(k, b);
        }
        if let Some(r) = self.cmp_shrink(a, b) {
            return self.ule(r.0, r.1);
        }
        if na.op == Op::Mul && self.is_const(na.b) {
            if let Some(c) = self.cval(na.b) {
                let (y, d) = self.as_udiv(b);
                let q = self.strip(na.a);
                let (y2, d2) = self.as_udiv(q);
                if y == y2 && Some(d2) == d.checked_mul(c) {
                    return 1;
                }
            }
        }
        if na.w == 1 {
            let x = self.not(a);
            return self.or(x, b);
        }
        self.mk(Op::Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.fold2(Op::Slt, 1, a, b) {
            return r;
        }
        if a == b {
            return 0;
        }
        let w = self.w(a);
        if w > 1 {
            let half = 1u128 << (w - 1);
            let sg = |n: &Node| -> Option<bool> {
                if n.umax < half {
                    Some(false)
                } else if n.umin >= half {
                    Some(true)
                } else {
                    None
                }
            };
            match (sg(self.nd(a)), sg(self.nd(b))) {
                (Some(x), Some(y)) if x == y => return self.ult(a, b),
                (Some(true), Some(false)) => return 1,
                (Some(false), Some(true)) => return 0,
                _ => {}
            }
            // x <s 0  ==  sign bit
            if self.cval(b) == Some(0) {
                return self.extract(a, w - 1, 1);
            }
            if self.cval(a) == Some(mask(w)) {
                let s = self.extract(b, w - 1, 1);
                return self.not(s);
            }
            let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.slt(na.a, nb.a);
            }
            if na.op == Op::SExt && nb.op == Op::Const {
                let wi = self.w(na.a);
                let k = self.cst(wi, nb.k);
                if self.sext(k, w) == b {
                    return self.slt(na.a, k);
                }
            }
            if na.op == Op::Const && nb.op == Op::SExt {
                let wi = self.w(nb.a);
                let k = self.cst(wi, na.k);
                if self.sext(k, w) == a {
                    return self.slt(k, nb.a);
                }
            }
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.fold2(Op::Sle, 1, a, b) {
            return r;
        }
        if a == b {
            return 1;
        }
        let w = self.w(a);
        if w > 1 {
            if let Some(cb) = self.cval(b) {
                if cb == mask(w) >> 1 {
                    return 1;
                }
                let k = self.cst(w, cb.wrapping_add(1));
                return self.slt(a, k);
            }
            if let Some(ca) = self.cval(a) {
                if ca == 1u128 << (w - 1) {
                    return 1;
                }
                let k = self.cst(w, ca.wrapping_sub(1));
                return self.slt(k, b);
            }
            let half = 1u128 << (w - 1);
            if self.nd(a).umax < half && self.nd(b).umax < half {
                return self.ule(a, b);
            }
            let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.sle(na.a, nb.a);
            }
        }
        self.mk(Op::Sle, 1, a, b, 0, 0)
    }
    /// floating point and other binary ops without simplification
    pub fn raw2(&mut self, op: Op, w: u16, a: E, b: E) -> E {
        if let Some(r) = self.fold2(op, w, a, b) {
            return r;
        }
        self.mk(op, w, a, b, 0, 0)
    }
    /// integer to float, through extensions that keep the value
    pub fn int_to_float(&mut self, signed: bool, w: u16, a: E) -> E {
        let (mut signed, mut a) = (signed, a);
        loop {
            let n = &self.n[a as usize];
            match n.op {
                Op::ZExt => { signed = false; a = n.a }
                Op::SExt if signed => a = n.a,
                _ => break,
            }
        }
        if signed && self.bounds(a).1 < 1u128 << (self.w(a) - 1) { signed = false }
        self.raw1(if signed { Op::SToF } else { Op::UToF }, w, a)
    }
    pub fn round(&mut self, mode: u128, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.cval(a) {
            let r = apply(Op::FRnd, w, mode, w, x, 0, 0, 0);
            return self.cst(w, r);
        }
        self.mk(Op::FRnd, w, a, 0, 0, mode)
    }
    pub fn raw1(&mut self, op: Op, w: u16, a: E) -> E {
        if let Some(x) = self.cval(a) {
            let r = apply(op, w, 0, self.w(a), x, 0, 0, 0);
            return self.cst(w, r);
        }
        self.mk(op, w, a, 0, 0, 0)
    }

    // ---------------------------------------------------------------- evaluation
    pub fn begin_eval(&mut self) {
        self.gen += 1;
    }
    /// Evaluate under a model (value of every variable); call `begin_eval` when the model changes.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        if self.memo_gen[e as usize] == self.gen {
            return self.memo_val[e as usize];
        }
        let n = &self.n[e as usize];
        let (op, w, a, b, c, k) = (n.op, n.w, n.a, n.b, n.c, n.k);
        let v = match op {
            Op::Const => k,
            Op::Var => model.get(k as usize).copied().unwrap_or(0) as u128,
            Op::Ite => {
                if self.eval(a, model) != 0 {
                    self.eval(b, model)
                } else {
                    self.eval(c, model)
                }
            }
            Op::Extract | Op::ZExt | Op::SExt | Op::Rng | Op::FConv | Op::SToF | Op::UToF | Op::FToS | Op::FToU | Op::FRnd => {
                let x = self.eval(a, model);
                apply(op, w, k, self.w(a), x, 0, 0, 0)
            }
            _ => {
                let x = self.eval(a, model);
                let y = self.eval(b, model);
                apply(op, w, k, self.w(a), x, self.w(b), y, 0)
            }
        };
        self.memo_gen[e as usize] = self.gen;
        self.memo_val[e as usize] = v;
        v
    }
    /// For a boolean depending on exactly one byte: the set of byte values that satisfy it.
    pub fn bits(&mut self, e: E) -> [u64; 4] {
        if let Some(r) = self.bits_cache.get(&e) {
            return *r;
        }
        let s = self.support(e);
        assert_eq!(s.len(), 1);
        let v = s[0] as usize;
        let mut m = vec![0u8; v + 1];
        let mut r = [0u64; 4];
        for x in 0..256usize {
            m[v] = x as u8;
            self.begin_eval();
            if self.eval(e, &m) != 0 {
                r[x >> 6] |= 1 << (x & 63);
            }
        }
        self.begin_eval();
        self.bits_cache.insert(e, r);
        r
    }
    pub fn is_undef(&self, e: E) -> bool {
        if self.undef_vars.is_empty() {
            return false;
        }
        self.support(e).iter().any(|v| self.undef_vars.contains_key(v))
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.nd(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            _ if depth == 0 => format!("e{}", e),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::ZExt | Op::SExt | Op::Rng | Op::FConv | Op::SToF | Op::UToF | Op::FToS | Op::FToU | Op::FRnd => {
                format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1))
            }
            Op::Ite => format!("Ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
