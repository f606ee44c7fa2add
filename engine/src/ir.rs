//! Loads LLVM bitcode (through the LLVM C API of the rustc toolchain) into a compact form.
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::{Arc, OnceLock};

type P = *mut c_void;
extern "C" {
    fn dlopen(p: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}
macro_rules! table {
    ($( $name:ident : fn($($a:ty),*) $(-> $r:ty)? ;)*) => {
        #[allow(non_snake_case)]
        pub struct Llvm { $( pub $name: unsafe extern "C" fn($($a),*) $(-> $r)?, )* }
        impl Llvm {
            fn load(h: P) -> Llvm {
                unsafe { Llvm { $( $name: {
                    let c = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, c.as_ptr());
                    assert!(!p.is_null(), "libLLVM lacks {}", stringify!($name));
                    std::mem::transmute::<P, unsafe extern "C" fn($($a),*) $(-> $r)?>(p)
                }, )* } }
            }
        }
    };
}
table! {
    LLVMContextCreate: fn() -> P;
    LLVMCreateMemoryBufferWithContentsOfFile: fn(*const c_char, *mut P, *mut *mut c_char) -> c_int;
    LLVMParseBitcodeInContext2: fn(P, P, *mut P) -> c_int;
    LLVMGetModuleDataLayout: fn(P) -> P;
    LLVMPointerSize: fn(P) -> c_uint;
    LLVMABISizeOfType: fn(P, P) -> u64;
    LLVMStoreSizeOfType: fn(P, P) -> u64;
    LLVMABIAlignmentOfType: fn(P, P) -> c_uint;
    LLVMOffsetOfElement: fn(P, P, c_uint) -> u64;
    LLVMGetFirstFunction: fn(P) -> P;
    LLVMGetNextFunction: fn(P) -> P;
    LLVMGetFirstGlobal: fn(P) -> P;
    LLVMGetNextGlobal: fn(P) -> P;
    LLVMGetFirstGlobalAlias: fn(P) -> P;
    LLVMGetNextGlobalAlias: fn(P) -> P;
    LLVMAliasGetAliasee: fn(P) -> P;
    LLVMGetInitializer: fn(P) -> P;
    LLVMIsGlobalConstant: fn(P) -> c_int;
    LLVMGlobalGetValueType: fn(P) -> P;
    LLVMGetAlignment: fn(P) -> c_uint;
    LLVMIsDeclaration: fn(P) -> c_int;
    LLVMGetValueName2: fn(P, *mut usize) -> *const c_char;
    LLVMCountParams: fn(P) -> c_uint;
    LLVMGetParam: fn(P, c_uint) -> P;
    LLVMGetFirstBasicBlock: fn(P) -> P;
    LLVMGetNextBasicBlock: fn(P) -> P;
    LLVMGetFirstInstruction: fn(P) -> P;
    LLVMGetNextInstruction: fn(P) -> P;
    LLVMGetInstructionOpcode: fn(P) -> c_int;
    LLVMIsACondBrInst: fn(P) -> P;
    LLVMIsASwitchInst: fn(P) -> P;
    LLVMIsAReturnInst: fn(P) -> P;
    LLVMIsAUnreachableInst: fn(P) -> P;
    LLVMIsAPHINode: fn(P) -> P;
    LLVMIsAConstantInt: fn(P) -> P;
    LLVMIsAConstantFP: fn(P) -> P;
    LLVMIsAConstant: fn(P) -> P;
    LLVMIsAFunction: fn(P) -> P;
    LLVMIsAGlobalVariable: fn(P) -> P;
    LLVMIsAGlobalAlias: fn(P) -> P;
    LLVMIsAConstantExpr: fn(P) -> P;
    LLVMIsAConstantDataSequential: fn(P) -> P;
    LLVMIsAConstantArray: fn(P) -> P;
    LLVMIsAConstantStruct: fn(P) -> P;
    LLVMIsAConstantVector: fn(P) -> P;
    LLVMIsUndef: fn(P) -> c_int;
    LLVMIsPoison: fn(P) -> c_int;
    LLVMIsNull: fn(P) -> c_int;
    LLVMIsAInvokeInst: fn(P) -> P;
    LLVMIsACallInst: fn(P) -> P;
    LLVMGetNormalDest: fn(P) -> P;
    LLVMGetConstOpcode: fn(P) -> c_int;
    LLVMGetElementAsConstant: fn(P, c_uint) -> P;
    LLVMConstIntGetZExtValue: fn(P) -> u64;
    LLVMConstBitCast: fn(P, P) -> P;
    LLVMIntTypeInContext: fn(P, c_uint) -> P;
    LLVMGetNumOperands: fn(P) -> c_int;
    LLVMGetOperand: fn(P, c_uint) -> P;
    LLVMTypeOf: fn(P) -> P;
    LLVMGetTypeKind: fn(P) -> c_int;
    LLVMGetIntTypeWidth: fn(P) -> c_uint;
    LLVMGetElementType: fn(P) -> P;
    LLVMGetArrayLength2: fn(P) -> u64;
    LLVMGetVectorSize: fn(P) -> c_uint;
    LLVMCountStructElementTypes: fn(P) -> c_uint;
    LLVMStructGetTypeAtIndex: fn(P, c_uint) -> P;
    LLVMGetNumSuccessors: fn(P) -> c_uint;
    LLVMGetSuccessor: fn(P, c_uint) -> P;
    LLVMGetCondition: fn(P) -> P;
    LLVMGetSwitchDefaultDest: fn(P) -> P;
    LLVMGetSwitchCaseValue: fn(P, c_uint) -> P;
    LLVMGetICmpPredicate: fn(P) -> c_int;
    LLVMGetFCmpPredicate: fn(P) -> c_int;
    LLVMCountIncoming: fn(P) -> c_uint;
    LLVMGetIncomingValue: fn(P, c_uint) -> P;
    LLVMGetIncomingBlock: fn(P, c_uint) -> P;
    LLVMGetCalledValue: fn(P) -> P;
    LLVMGetNumArgOperands: fn(P) -> c_uint;
    LLVMGetAllocatedType: fn(P) -> P;
    LLVMGetGEPSourceElementType: fn(P) -> P;
    LLVMGetNumIndices: fn(P) -> c_uint;
    LLVMGetIndices: fn(P) -> *const c_uint;
    LLVMGetNumMaskElements: fn(P) -> c_uint;
    LLVMGetMaskValue: fn(P, c_uint) -> c_int;
    LLVMPrintValueToString: fn(P) -> *mut c_char;
    LLVMDisposeMessage: fn(*mut c_char);
}
fn ll(path: &str) -> &'static Llvm {
    static L: OnceLock<Llvm> = OnceLock::new();
    L.get_or_init(|| {
        let s = CString::new(path).unwrap();
        let h = unsafe { dlopen(s.as_ptr(), 2) };
        assert!(!h.is_null(), "cannot load {}", path);
        Llvm::load(h)
    })
}

#[derive(Debug, Clone)]
pub enum Ty {
    Void,
    Int(u16),
    F(u16),
    Arr(Arc<Ty>, u64, u64),
    Struct(Arc<Vec<(u64, Ty)>>, u64),
    Vec(Arc<Ty>, u64),
    Opaque,
}

/// A runtime value.
#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    E(u32),
    A(Arc<Vec<V>>),
    U,
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FToU,
    FToS,
    UToF,
    SToF,
    FTrunc,
    FExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(u32),
    Ind(O),
}

#[derive(Debug)]
pub enum I {
    Bin(Bin, u16, u32, O, O),
    ICmp(c_int, u16, u32, O, O),
    FCmp(c_int, u16, u32, O, O),
    FNeg(u16, O),
    Cast(Cast, u16, u16, u32, O),
    BitCast(Ty, Ty, O),
    Select(O, O, O, Ty),
    Load(Ty, O),
    Store(Ty, O, O),
    Gep(O, i64, Vec<(O, u16, i64)>),
    Alloca(u64, u64, O),
    Call(Callee, Vec<O>, Vec<Ty>, Ty, Option<u32>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(O, u16, u32, Vec<(u128, u32)>),
    Ret(Option<O>),
    Unreachable,
    ExtractVal(O, Vec<u32>),
    InsertVal(O, O, Vec<u32>, Ty),
    ExtractElem(O, O),
    InsertElem(O, O, O, u64),
    Shuffle(O, O, Vec<i32>, u64),
    Freeze(O, Ty),
    Nop,
    Unsup(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub ins: Vec<(u32, I)>, // dst (u32::MAX none)
}
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub decl: bool,
    pub addr: u64,
    /// std's panic and out-of-memory entry points: reaching one is a panic
    pub panic: bool,
}
pub struct Global {
    pub name: String,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub addr: u64,
    pub init: Vec<u32>,
}
pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub ptr_w: u16,
    pub slot_shift: u32,
    pub base_off: u64,
    pub fn_by_addr: HashMap<u64, u32>,
    pub fn_by_name: HashMap<String, u32>,
    /// first free address slot after globals and functions
    pub first_slot: u64,
    pub insts: usize,
    pub ext: Vec<String>,
    pub rel: Vec<u64>,
}
pub const REL_BASE: u64 = 0x4000_0000;
pub const UNINIT: u32 = 256;

struct Ld {
    l: &'static Llvm,
    rel: Vec<u64>,
    ctx: P,
    dl: P,
    ptr_w: u16,
    sym_addr: HashMap<usize, u64>,
    ty_cache: HashMap<usize, Ty>,
    ext: Vec<String>,
}

impl Ld {
    fn ty(&mut self, t: P) -> Ty {
        if let Some(x) = self.ty_cache.get(&(t as usize)) {
            return x.clone();
        }
        let l = self.l;
        let r = unsafe {
            match (l.LLVMGetTypeKind)(t) {
                0 => Ty::Void,
                2 => Ty::F(32),
                3 => Ty::F(64),
                8 => Ty::Int((l.LLVMGetIntTypeWidth)(t) as u16),
                10 => {
                    let n = (l.LLVMCountStructElementTypes)(t);
                    let mut v = vec![];
                    for i in 0..n {
                        let e = (l.LLVMStructGetTypeAtIndex)(t, i);
                        let off = (l.LLVMOffsetOfElement)(self.dl, t, i);
                        let et = self.ty(e);
                        v.push((off, et));
                    }
                    Ty::Struct(Arc::new(v), (l.LLVMABISizeOfType)(self.dl, t))
                }
                11 => {
                    let e = (l.LLVMGetElementType)(t);
                    let n = (l.LLVMGetArrayLength2)(t);
                    let st = (l.LLVMABISizeOfType)(self.dl, e);
                    Ty::Arr(Arc::new(self.ty(e)), n, st)
                }
                12 => Ty::Int(self.ptr_w),
                13 => {
                    let e = (l.LLVMGetElementType)(t);
                    let n = (l.LLVMGetVectorSize)(t) as u64;
                    Ty::Vec(Arc::new(self.ty(e)), n)
                }
                _ => Ty::Opaque,
            }
        };
        self.ty_cache.insert(t as usize, r.clone());
        r
    }
    fn show(&self, v: P) -> String {
        unsafe {
            let s = (self.l.LLVMPrintValueToString)(v);
            let r = CStr::from_ptr(s).to_string_lossy().into_owned();
            (self.l.LLVMDisposeMessage)(s);
            r
        }
    }
    fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Arr(e, n, _) | Ty::Vec(e, n) => {
                let z = self.zero(e);
                V::A(Arc::new((0..*n).map(|_| z.clone()).collect()))
            }
            Ty::Struct(f, _) => V::A(Arc::new(f.iter().map(|(_, t)| self.zero(t)).collect())),
            _ => V::C(0),
        }
    }
    fn constant(&mut self, v: P) -> Result<V, String> {
        let l = self.l;
        unsafe {
            let t = (l.LLVMTypeOf)(v);
            if let Some(&a) = self.sym_addr.get(&(v as usize)) {
                return Ok(V::C(a as u128));
            }
            if !(l.LLVMIsAConstantInt)(v).is_null() {
                let w = (l.LLVMGetIntTypeWidth)(t);
                if w <= 64 {
                    return Ok(V::C((l.LLVMConstIntGetZExtValue)(v) as u128));
                }
                let s = self.show(v);
                let num = s.split_whitespace().last().unwrap();
                let x: u128 = if let Some(n) = num.strip_prefix('-') {
                    n.parse::<u128>().map_err(|e| e.to_string())?.wrapping_neg()
                } else {
                    num.parse().map_err(|_| format!("const {}", s))?
                };
                return Ok(V::C(x & crate::expr::mask(w as u16)));
            }
            if (l.LLVMIsUndef)(v) != 0 || (l.LLVMIsPoison)(v) != 0 {
                let ty = self.ty(t);
                return Ok(undef_of(&ty));
            }
            if !(l.LLVMIsAConstantFP)(v).is_null() {
                let w = match self.ty(t) {
                    Ty::F(w) => w,
                    _ => return Err(format!("fp const {}", self.show(v))),
                };
                let it = (l.LLVMIntTypeInContext)(self.ctx, w as u32);
                let c = (l.LLVMConstBitCast)(v, it);
                return Ok(V::C((l.LLVMConstIntGetZExtValue)(c) as u128));
            }
            if (l.LLVMIsNull)(v) != 0 {
                let ty = self.ty(t);
                return Ok(self.zero(&ty));
            }
            if !(l.LLVMIsAConstantDataSequential)(v).is_null() {
                let n = match self.ty(t) {
                    Ty::Arr(_, n, _) => n,
                    Ty::Vec(_, n) => n,
                    _ => return Err("cds".into()),
                };
                let mut r = vec![];
                for i in 0..n {
                    let e = (l.LLVMGetElementAsConstant)(v, i as u32);
                    r.push(self.constant(e)?);
                }
                return Ok(V::A(Arc::new(r)));
            }
            if !(l.LLVMIsAConstantArray)(v).is_null() || !(l.LLVMIsAConstantStruct)(v).is_null() || !(l.LLVMIsAConstantVector)(v).is_null() {
                let n = (l.LLVMGetNumOperands)(v);
                let mut r = vec![];
                for i in 0..n {
                    let e = (l.LLVMGetOperand)(v, i as u32);
                    r.push(self.constant(e)?);
                }
                return Ok(V::A(Arc::new(r)));
            }
            if !(l.LLVMIsAConstantExpr)(v).is_null() {
                let op = (l.LLVMGetConstOpcode)(v);
                let a = self.constant((l.LLVMGetOperand)(v, 0))?;
                let av = match a {
                    V::C(x) => x,
                    _ => return Err(format!("constexpr {}", self.show(v))),
                };
                let w = match self.ty(t) {
                    Ty::Int(w) => w,
                    _ => return Err(format!("constexpr type {}", self.show(v))),
                };
                let m = crate::expr::mask(w);
                match op {
                    29 => {
                        let st = (l.LLVMGetGEPSourceElementType)(v);
                        let (off, idx) = self.gep_parts(v, st)?;
                        let mut r = av.wrapping_add(off as i128 as u128);
                        for (o, iw, sc) in idx {
                            match o {
                                O::K(V::C(x)) => r = r.wrapping_add((crate::expr::sext128(x, iw) * sc as i128) as u128),
                                _ => return Err("constexpr gep".into()),
                            }
                        }
                        return Ok(V::C(r & m));
                    }
                    30 if w == 32 => {
                        // an entry of a relative table: addresses are further
                        // apart than 32 bits here, so entries are numbered
                        self.rel.push(av as u64);
                        return Ok(V::C(REL_BASE as u128 + self.rel.len() as u128 - 1));
                    }
                    39 | 40 | 41 | 69 | 30 | 31 => return Ok(V::C(av & m)),
                    8 | 10 | 25 => {
                        let b = match self.constant((l.LLVMGetOperand)(v, 1))? {
                            V::C(x) => x,
                            _ => return Err("constexpr".into()),
                        };
                        let r = match op {
                            8 => av.wrapping_add(b),
                            10 => av.wrapping_sub(b),
                            _ => av ^ b,
                        };
                        return Ok(V::C(r & m));
                    }
                    _ => return Err(format!("constexpr {}", self.show(v))),
                }
            }
            Err(format!("constant {}", self.show(v)))
        }
    }
    /// constant offset and dynamic (operand, width, scale) parts
    fn gep_parts(&mut self, v: P, st: P) -> Result<(i64, Vec<(O, u16, i64)>), String> {
        self.gep_parts_with(v, st, &mut |s, x| s.constant(x).map(O::K))
    }
    fn gep_parts_with(&mut self, v: P, st: P, f: &mut dyn FnMut(&mut Ld, P) -> Result<O, String>) -> Result<(i64, Vec<(O, u16, i64)>), String> {
        let l = self.l;
        let mut off = 0i64;
        let mut idx = vec![];
        unsafe {
            let n = (l.LLVMGetNumOperands)(v);
            let mut cur = st;
            for i in 1..n {
                let o = (l.LLVMGetOperand)(v, i as u32);
                let ot = (l.LLVMTypeOf)(o);
                let iw = match self.ty(ot) {
                    Ty::Int(w) => w,
                    _ => return Err("vector gep".into()),
                };
                let (scale, next);
                if i == 1 {
                    scale = (l.LLVMABISizeOfType)(self.dl, cur) as i64;
                    next = cur;
                } else {
                    match (l.LLVMGetTypeKind)(cur) {
                        10 => {
                            let k = (l.LLVMConstIntGetZExtValue)(o) as u32;
                            off += (l.LLVMOffsetOfElement)(self.dl, cur, k) as i64;
                            cur = (l.LLVMStructGetTypeAtIndex)(cur, k);
                            continue;
                        }
                        11 | 13 => {
                            next = (l.LLVMGetElementType)(cur);
                            scale = (l.LLVMABISizeOfType)(self.dl, next) as i64;
                        }
                        _ => return Err("gep type".into()),
                    }
                }
                cur = next;
                match f(self, o)? {
                    O::K(V::C(x)) => off = off.wrapping_add((crate::expr::sext128(x, iw) as i64).wrapping_mul(scale)),
                    r => idx.push((r, iw, scale)),
                }
            }
        }
        Ok((off, idx))
    }
}

pub fn undef_of(t: &Ty) -> V {
    match t {
        Ty::Arr(e, n, _) | Ty::Vec(e, n) => {
            let z = undef_of(e);
            V::A(Arc::new((0..*n).map(|_| z.clone()).collect()))
        }
        Ty::Struct(f, _) => V::A(Arc::new(f.iter().map(|(_, t)| undef_of(t)).collect())),
        _ => V::U,
    }
}
pub fn size_of(t: &Ty) -> u64 {
    match t {
        Ty::Void => 0,
        Ty::Int(w) | Ty::F(w) => (*w as u64 + 7) / 8,
        Ty::Arr(_, n, s) => n * s,
        Ty::Struct(_, s) => *s,
        Ty::Vec(e, n) => match **e {
            Ty::Int(w) | Ty::F(w) => (w as u64 * n + 7) / 8,
            _ => 0,
        },
        Ty::Opaque => 0,
    }
}

/// write a constant into a byte image
pub fn write_const(img: &mut [u32], off: usize, t: &Ty, v: &V) {
    match (t, v) {
        (Ty::Int(_) | Ty::F(_), V::C(x)) => {
            for i in 0..size_of(t) as usize {
                img[off + i] = ((x >> (8 * i)) & 0xff) as u32;
            }
        }
        (Ty::Arr(e, _, s), V::A(a)) => {
            for (i, x) in a.iter().enumerate() {
                write_const(img, off + i * *s as usize, e, x);
            }
        }
        (Ty::Vec(e, _), V::A(a)) => {
            let s = size_of(e) as usize;
            for (i, x) in a.iter().enumerate() {
                write_const(img, off + i * s, e, x);
            }
        }
        (Ty::Struct(f, _), V::A(a)) => {
            for ((o, ft), x) in f.iter().zip(a.iter()) {
                write_const(img, off + *o as usize, ft, x);
            }
        }
        (_, V::U) => {}
        _ => panic!("write_const {:?} {:?}", t, v),
    }
}

pub fn load(libllvm: &str, path: &str) -> Module {
    let l = ll(libllvm);
    unsafe {
        let ctx = (l.LLVMContextCreate)();
        let cp = CString::new(path).unwrap();
        let mut buf: P = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        if (l.LLVMCreateMemoryBufferWithContentsOfFile)(cp.as_ptr(), &mut buf, &mut msg) != 0 {
            panic!("cannot read {}: {:?}", path, CStr::from_ptr(msg));
        }
        let mut m: P = std::ptr::null_mut();
        assert_eq!((l.LLVMParseBitcodeInContext2)(ctx, buf, &mut m), 0, "cannot parse {}", path);
        let dl = (l.LLVMGetModuleDataLayout)(m);
        let ptr_w = (l.LLVMPointerSize)(dl) as u16 * 8;
        let (slot_shift, base_off) = if ptr_w == 64 { (32, 0x1_0000u64) } else { (16, 0x1000u64) };
        let mut ld = Ld { l, ctx, dl, ptr_w, sym_addr: HashMap::new(), ty_cache: HashMap::new(), ext: vec![], rel: vec![] };
        let name_of = |v: P| -> String {
            let mut n = 0usize;
            let s = (l.LLVMGetValueName2)(v, &mut n);
            String::from_utf8_lossy(std::slice::from_raw_parts(s as *const u8, n)).into_owned()
        };
        let mut slot = 16u64;
        let mut fvals = vec![];
        let mut funcs = vec![];
        let mut fn_by_addr = HashMap::new();
        let mut fn_by_name = HashMap::new();
        let mut f = (l.LLVMGetFirstFunction)(m);
        while !f.is_null() {
            let addr = (slot << slot_shift) + base_off;
            slot += 1;
            ld.sym_addr.insert(f as usize, addr);
            fn_by_addr.insert(addr, funcs.len() as u32);
            let name = name_of(f);
            fn_by_name.insert(name.clone(), funcs.len() as u32);
            let panic = (["rust_begin_unwind", "9panicking13panic_handler", "8rust_oom", "18handle_alloc_error", "alloc_error_hook"].iter().any(|x| name.contains(x))) && !name.contains("Payload");
            funcs.push(Func { panic, name, nparams: (l.LLVMCountParams)(f), nregs: 0, blocks: vec![], decl: (l.LLVMIsDeclaration)(f) != 0, addr });
            fvals.push(f);
            f = (l.LLVMGetNextFunction)(f);
        }
        let mut gvals = vec![];
        let mut globals = vec![];
        let mut g = (l.LLVMGetFirstGlobal)(m);
        while !g.is_null() {
            let t = (l.LLVMGlobalGetValueType)(g);
            let size = (l.LLVMABISizeOfType)(dl, t);
            let addr = (slot << slot_shift) + base_off;
            slot += 1 + ((size + base_off) >> slot_shift);
            ld.sym_addr.insert(g as usize, addr);
            globals.push(Global {
                name: name_of(g),
                size,
                align: (l.LLVMGetAlignment)(g) as u64,
                constant: (l.LLVMIsGlobalConstant)(g) != 0,
                addr,
                init: vec![],
            });
            gvals.push(g);
            g = (l.LLVMGetNextGlobal)(g);
        }
        let mut a = (l.LLVMGetFirstGlobalAlias)(m);
        let mut aliases = vec![];
        while !a.is_null() {
            aliases.push(a);
            a = (l.LLVMGetNextGlobalAlias)(a);
        }
        for a in aliases {
            let t = (l.LLVMAliasGetAliasee)(a);
            if let Ok(V::C(x)) = ld.constant(t) {
                ld.sym_addr.insert(a as usize, x as u64);
                if let Some(&fi) = fn_by_addr.get(&(x as u64)) {
                    fn_by_name.insert(name_of(a), fi);
                }
            }
        }
        for (i, g) in gvals.iter().enumerate() {
            let init = (l.LLVMGetInitializer)(*g);
            let mut img = vec![UNINIT; globals[i].size as usize];
            if !init.is_null() {
                let t = ld.ty((l.LLVMGlobalGetValueType)(*g));
                match ld.constant(init) {
                    Ok(v) => {
                        // padding of a constant reads as zero
                        write_const(&mut img, 0, &t, &v);
                    }
                    Err(e) => panic!("global {}: {}", globals[i].name, e),
                }
            }
            globals[i].init = img;
        }
        let mut insts = 0;
        for (i, f) in fvals.iter().enumerate() {
            if funcs[i].decl {
                continue;
            }
            let (nregs, blocks) = load_fn(&mut ld, *f, &fn_by_addr, &funcs);
            insts += blocks.iter().map(|b| b.ins.len() + b.phis.len()).sum::<usize>();
            funcs[i].nregs = nregs;
            funcs[i].blocks = blocks;
        }
        Module { funcs, globals, ptr_w, slot_shift, base_off, fn_by_addr, fn_by_name, first_slot: slot, insts, ext: ld.ext, rel: ld.rel }
    }
}

fn load_fn(ld: &mut Ld, f: P, fn_by_addr: &HashMap<u64, u32>, funcs: &[Func]) -> (u32, Vec<Block>) {
    let l = ld.l;
    unsafe {
        let mut regs: HashMap<usize, u32> = HashMap::new();
        let np = (l.LLVMCountParams)(f);
        for i in 0..np {
            regs.insert((l.LLVMGetParam)(f, i) as usize, i);
        }
        let mut nregs = np;
        let mut bbs: HashMap<usize, u32> = HashMap::new();
        let mut bbv = vec![];
        let mut b = (l.LLVMGetFirstBasicBlock)(f);
        while !b.is_null() {
            bbs.insert(b as usize, bbv.len() as u32);
            bbv.push(b);
            let mut i = (l.LLVMGetFirstInstruction)(b);
            while !i.is_null() {
                if (l.LLVMGetTypeKind)((l.LLVMTypeOf)(i)) != 0 {
                    regs.insert(i as usize, nregs);
                    nregs += 1;
                }
                i = (l.LLVMGetNextInstruction)(i);
            }
            b = (l.LLVMGetNextBasicBlock)(b);
        }
        let mut blocks = vec![];
        for &b in &bbv {
            let mut blk = Block { phis: vec![], ins: vec![] };
            let mut i = (l.LLVMGetFirstInstruction)(b);
            while !i.is_null() {
                let dst = regs.get(&(i as usize)).copied().unwrap_or(u32::MAX);
                if !(l.LLVMIsAPHINode)(i).is_null() {
                    let n = (l.LLVMCountIncoming)(i);
                    let mut v = vec![];
                    for k in 0..n {
                        let val = (l.LLVMGetIncomingValue)(i, k);
                        let bb = bbs[&((l.LLVMGetIncomingBlock)(i, k) as usize)];
                        let o = match regs.get(&(val as usize)) {
                            Some(&r) => O::R(r),
                            None => O::K(ld.constant(val).unwrap_or_else(|e| panic!("phi: {}", e))),
                        };
                        v.push((bb, o));
                    }
                    blk.phis.push((dst, v));
                } else {
                    let ins = load_inst(ld, i, &regs, &bbs, fn_by_addr, funcs).unwrap_or_else(|e| I::Unsup(e));
                    if !matches!(ins, I::Nop) {
                        blk.ins.push((dst, ins));
                    }
                }
                i = (l.LLVMGetNextInstruction)(i);
            }
            blocks.push(blk);
        }
        (nregs, blocks)
    }
}

fn width(t: &Ty) -> Result<(u16, u32), String> {
    match t {
        Ty::Int(w) | Ty::F(w) => Ok((*w, 0)),
        Ty::Vec(e, n) => Ok((width(e)?.0, *n as u32)),
        _ => Err(format!("width of {:?}", t)),
    }
}

fn load_inst(ld: &mut Ld, i: P, regs: &HashMap<usize, u32>, bbs: &HashMap<usize, u32>, fn_by_addr: &HashMap<u64, u32>, funcs: &[Func]) -> Result<I, String> {
    let l = ld.l;
    unsafe {
        let opnd = |ld: &mut Ld, v: P| -> Result<O, String> {
            match regs.get(&(v as usize)) {
                Some(&r) => Ok(O::R(r)),
                None => Ok(O::K(ld.constant(v)?)),
            }
        };
        let op = |k: u32| (l.LLVMGetOperand)(i, k);
        let t = ld.ty((l.LLVMTypeOf)(i));
        if !(l.LLVMIsACondBrInst)(i).is_null() {
            let c = opnd(ld, (l.LLVMGetCondition)(i))?;
            let a = bbs[&((l.LLVMGetSuccessor)(i, 0) as usize)];
            let b = bbs[&((l.LLVMGetSuccessor)(i, 1) as usize)];
            return Ok(I::CondBr(c, a, b));
        }
        if !(l.LLVMIsASwitchInst)(i).is_null() {
            let c = op(0);
            let (w, _) = width(&ld.ty((l.LLVMTypeOf)(c)))?;
            let d = bbs[&((l.LLVMGetSwitchDefaultDest)(i) as usize)];
            let n = (l.LLVMGetNumSuccessors)(i);
            let mut cases = vec![];
            for k in 1..n {
                let cv = match ld.constant((l.LLVMGetSwitchCaseValue)(i, k))? {
                    V::C(x) => x,
                    _ => return Err("switch case".into()),
                };
                cases.push((cv, bbs[&((l.LLVMGetSuccessor)(i, k) as usize)]));
            }
            return Ok(I::Switch(opnd(ld, c)?, w, d, cases));
        }
        if !(l.LLVMIsAReturnInst)(i).is_null() {
            return Ok(I::Ret(if (l.LLVMGetNumOperands)(i) > 0 { Some(opnd(ld, op(0))?) } else { None }));
        }
        if !(l.LLVMIsAUnreachableInst)(i).is_null() {
            return Ok(I::Unreachable);
        }
        if !(l.LLVMIsACallInst)(i).is_null() || !(l.LLVMIsAInvokeInst)(i).is_null() {
            let cv = (l.LLVMGetCalledValue)(i);
            let n = (l.LLVMGetNumArgOperands)(i);
            let normal = if !(l.LLVMIsAInvokeInst)(i).is_null() { Some(bbs[&((l.LLVMGetNormalDest)(i) as usize)]) } else { None };
            let callee = if let Some(&a) = ld.sym_addr.get(&(cv as usize)) {
                match fn_by_addr.get(&a) {
                    Some(&fi) => {
                        if funcs[fi as usize].decl {
                            let name = &funcs[fi as usize].name;
                            let k = match ld.ext.iter().position(|x| x == name) {
                                Some(k) => k,
                                None => {
                                    ld.ext.push(name.clone());
                                    ld.ext.len() - 1
                                }
                            };
                            Callee::Ext(k as u32)
                        } else {
                            Callee::Func(fi)
                        }
                    }
                    None => return Err("call to data".into()),
                }
            } else {
                match opnd(ld, cv) {
                    Ok(o) => Callee::Ind(o),
                    Err(e) => return Err(e),
                }
            };
            if let Callee::Ext(n) = &callee {
                let n = &ld.ext[*n as usize];
                for p in ["llvm.dbg.", "llvm.experimental.noalias", "llvm.invariant", "llvm.donothing", "llvm.sideeffect", "llvm.pseudoprobe", "llvm.fake.use"] {
                    if n.starts_with(p) {
                        return Ok(I::Nop);
                    }
                }
            }
            let mut args = vec![];
            let mut tys = vec![];
            for k in 0..n {
                let a = (l.LLVMGetOperand)(i, k);
                // metadata operands
                if (l.LLVMGetTypeKind)((l.LLVMTypeOf)(a)) == 14 {
                    continue;
                }
                args.push(opnd(ld, a)?);
                tys.push(ld.ty((l.LLVMTypeOf)(a)));
            }
            return Ok(I::Call(callee, args, tys, t, normal));
        }
        let oc = (l.LLVMGetInstructionOpcode)(i);
        let bin = |ld: &mut Ld, b: Bin| -> Result<I, String> {
            let (w, n) = width(&t)?;
            Ok(I::Bin(b, w, n, opnd(ld, op(0))?, opnd(ld, op(1))?))
        };
        match oc {
            2 | 70 => Ok(I::Br(bbs[&((l.LLVMGetSuccessor)(i, 0) as usize)])),
            8 => bin(ld, Bin::Add),
            9 => bin(ld, Bin::FAdd),
            10 => bin(ld, Bin::Sub),
            11 => bin(ld, Bin::FSub),
            12 => bin(ld, Bin::Mul),
            13 => bin(ld, Bin::FMul),
            14 => bin(ld, Bin::UDiv),
            15 => bin(ld, Bin::SDiv),
            16 => bin(ld, Bin::FDiv),
            17 => bin(ld, Bin::URem),
            18 => bin(ld, Bin::SRem),
            19 => bin(ld, Bin::FRem),
            20 => bin(ld, Bin::Shl),
            21 => bin(ld, Bin::LShr),
            22 => bin(ld, Bin::AShr),
            23 => bin(ld, Bin::And),
            24 => bin(ld, Bin::Or),
            25 => bin(ld, Bin::Xor),
            66 => {
                let (w, _) = width(&t)?;
                Ok(I::FNeg(w, opnd(ld, op(0))?))
            }
            26 => {
                let at = (l.LLVMGetAllocatedType)(i);
                let size = (l.LLVMABISizeOfType)(ld.dl, at);
                let al = (l.LLVMGetAlignment)(i) as u64;
                Ok(I::Alloca(size, al, opnd(ld, op(0))?))
            }
            27 => Ok(I::Load(t, opnd(ld, op(0))?)),
            28 => {
                let vt = ld.ty((l.LLVMTypeOf)(op(0)));
                Ok(I::Store(vt, opnd(ld, op(0))?, opnd(ld, op(1))?))
            }
            29 => {
                let st = (l.LLVMGetGEPSourceElementType)(i);
                let (off, idx) = ld.gep_parts_with(i, st, &mut |s, x| match regs.get(&(x as usize)) {
                    Some(&r) => Ok(O::R(r)),
                    None => Ok(O::K(s.constant(x)?)),
                })?;
                if matches!(t, Ty::Vec(..)) {
                    return Err("vector gep".into());
                }
                Ok(I::Gep(opnd(ld, op(0))?, off, idx))
            }
            30..=41 | 60 | 69 => {
                let ft = ld.ty((l.LLVMTypeOf)(op(0)));
                let o = opnd(ld, op(0))?;
                let k = match oc {
                    30 => Cast::Trunc,
                    31 => Cast::ZExt,
                    32 => Cast::SExt,
                    33 => Cast::FToU,
                    34 => Cast::FToS,
                    35 => Cast::UToF,
                    36 => Cast::SToF,
                    37 => Cast::FTrunc,
                    38 => Cast::FExt,
                    41 => return Ok(I::BitCast(ft, t, o)),
                    _ => Cast::Bit,
                };
                let ((fw, n), (tw, _)) = (width(&ft)?, width(&t)?);
                let k = if k == Cast::Bit && fw != tw {
                    if fw < tw {
                        Cast::ZExt
                    } else {
                        Cast::Trunc
                    }
                } else {
                    k
                };
                Ok(I::Cast(k, fw, tw, n, o))
            }
            42 => {
                let ft = ld.ty((l.LLVMTypeOf)(op(0)));
                let (w, n) = width(&ft)?;
                Ok(I::ICmp((l.LLVMGetICmpPredicate)(i), w, n, opnd(ld, op(0))?, opnd(ld, op(1))?))
            }
            43 => {
                let ft = ld.ty((l.LLVMTypeOf)(op(0)));
                let (w, n) = width(&ft)?;
                Ok(I::FCmp((l.LLVMGetFCmpPredicate)(i), w, n, opnd(ld, op(0))?, opnd(ld, op(1))?))
            }
            46 => Ok(I::Select(opnd(ld, op(0))?, opnd(ld, op(1))?, opnd(ld, op(2))?, t)),
            50 => Ok(I::ExtractElem(opnd(ld, op(0))?, opnd(ld, op(1))?)),
            51 => {
                let n = match &t {
                    Ty::Vec(_, n) => *n,
                    _ => 0,
                };
                Ok(I::InsertElem(opnd(ld, op(0))?, opnd(ld, op(1))?, opnd(ld, op(2))?, n))
            }
            52 => {
                let n = (l.LLVMGetNumMaskElements)(i);
                let mask = (0..n).map(|k| (l.LLVMGetMaskValue)(i, k)).collect();
                let srcn = match ld.ty((l.LLVMTypeOf)(op(0))) {
                    Ty::Vec(_, n) => n,
                    _ => 0,
                };
                Ok(I::Shuffle(opnd(ld, op(0))?, opnd(ld, op(1))?, mask, srcn))
            }
            53 | 54 => {
                let n = (l.LLVMGetNumIndices)(i);
                let p = (l.LLVMGetIndices)(i);
                let idx = (0..n as usize).map(|k| *p.add(k)).collect();
                if oc == 53 {
                    Ok(I::ExtractVal(opnd(ld, op(0))?, idx))
                } else {
                    Ok(I::InsertVal(opnd(ld, op(0))?, opnd(ld, op(1))?, idx, t))
                }
            }
            68 => Ok(I::Freeze(opnd(ld, op(0))?, t)),
            55 => Ok(I::Nop),
            _ => {
                Err(format!("opcode {}: {}", oc, ld.show(i)))
            }
        }
    }
}
