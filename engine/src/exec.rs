//! Symbolic execution of the loaded IR: replay based depth-first exploration of all feasible paths.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    /// branch direction, implied by the path condition
    Br(bool, bool),
    Sw(u32, bool),
    Take(u128),
    Excl(u128),
}
#[derive(Clone)]
pub struct Pending {
    dec: Vec<Dec>,
    model: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub site: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub input: Vec<u8>,
    pub emits: Vec<u64>,
    /// path ended normally
    pub covers: Vec<u32>,
}
#[derive(Default)]
pub struct Results {
    pub paths: u64,
    pub assumed_away: u64,
    pub branches: u64,
    pub forks: u64,
    pub insts: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub assert_trivial: u64,
    pub dom_queries: u64,
    pub guessed: u64,
    pub cache_hits: u64,
    pub z3_queries: u64,
    pub z3_time: f64,
    pub z3_max: f64,
    pub unknown: u64,
    pub errors: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub seen_sites: HashSet<String>,
    pub covers: BTreeSet<u32>,
    pub samples: Vec<Sample>,
    pub fn_insts: HashMap<u32, u64>,
    pub fn_forks: HashMap<u32, u64>,
    pub max_inputs: usize,
    pub max_path_insts: u64,
    pub timeout: bool,
    pub stopped: bool,
    pub wall: f64,
}
#[derive(Clone)]
pub struct Opts {
    pub jobs: usize,
    pub timeout: f64,
    pub step_limit: u64,
    pub max_paths: u64,
    pub max_violations: usize,
    pub sample_every: u64,
    pub max_samples: usize,
    pub seed: u64,
    pub query_ms: u32,
    pub max_depth: usize,
    pub verbose: bool,
}

struct Queue {
    items: Vec<Pending>,
    active: usize,
}
pub struct Shared<'m> {
    m: &'m Module,
    intr: &'m [Intr],
    entry: u32,
    opts: Opts,
    queue: Mutex<Queue>,
    cv: Condvar,
    stop: AtomicBool,
    started: Instant,
    first_violation: Mutex<Option<Instant>>,
    npaths: AtomicU64,
    res: Mutex<Results>,
}

/// reason a path ended
enum End {
    Done,
    Assumed,
    Violation(Violation),
    Error(String),
    Stop,
}
type R<T> = Result<T, End>;

#[derive(Clone, Debug, PartialEq)]
pub enum Intr {
    Memcpy,
    Memmove,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    LifeStart,
    LifeEnd,
    Assume,
    Expect,
    Bin(&'static str),
    Ovf(&'static str),
    Un(&'static str),
    Fsh(bool),
    FUn(&'static str),
    FBin(&'static str),
    FToSat(bool),
    Fma,
    IsConstant,
    ObjectSize,
    Reduce(&'static str),
    Trap,
    Ptrmask,
    LoadRel,
    StackSave,
    SymBytes,
    SymAssume,
    SymAssert,
    SymCover,
    SymEmit,
    SymPanic,
    SymConc,
    SymEq,
    SymKnown,
    SymAlloc,
    SymFree,
    SymRealloc,
    SymEngine,
    SymFail,
    Unknown,
}
pub fn classify(n: &str) -> Intr {
    use Intr::*;
    match n {
        "memcmp" => return Memcmp,
        "bcmp" => return Bcmp,
        "memcpy" => return Memcpy,
        "memmove" => return Memmove,
        "memset" => return Memset,
        "strlen" => return Strlen,
        "sym_bytes" => return SymBytes,
        "sym_assume" => return SymAssume,
        "sym_assert" => return SymAssert,
        "sym_cover" => return SymCover,
        "sym_emit" => return SymEmit,
        "sym_panic" => return SymPanic,
        "sym_concretize" => return SymConc,
        "sym_eq" => return SymEq,
        "sym_known" => return SymKnown,
        "sym_alloc" => return SymAlloc,
        "sym_free" => return SymFree,
        "sym_realloc" => return SymRealloc,
        "sym_engine" => return SymEngine,
        "sym_fail" => return SymFail,
        _ => {}
    }
    let Some(r) = n.strip_prefix("llvm.") else { return Unknown };
    let pre = |p: &str| r.starts_with(p);
    for (p, i) in [
        ("memcpy.", Memcpy),
        ("memmove.", Memmove),
        ("memset.", Memset),
        ("lifetime.start", LifeStart),
        ("lifetime.end", LifeEnd),
        ("assume", Assume),
        ("expect.", Expect),
        ("umax.", Bin("umax")),
        ("umin.", Bin("umin")),
        ("smax.", Bin("smax")),
        ("smin.", Bin("smin")),
        ("uadd.sat", Bin("uadd.sat")),
        ("usub.sat", Bin("usub.sat")),
        ("sadd.sat", Bin("sadd.sat")),
        ("ssub.sat", Bin("ssub.sat")),
        ("ucmp.", Bin("ucmp")),
        ("scmp.", Bin("scmp")),
        ("uadd.with.overflow", Ovf("uadd")),
        ("usub.with.overflow", Ovf("usub")),
        ("umul.with.overflow", Ovf("umul")),
        ("sadd.with.overflow", Ovf("sadd")),
        ("ssub.with.overflow", Ovf("ssub")),
        ("smul.with.overflow", Ovf("smul")),
        ("ctpop.", Un("ctpop")),
        ("ctlz.", Un("ctlz")),
        ("cttz.", Un("cttz")),
        ("bswap.", Un("bswap")),
        ("bitreverse.", Un("bitreverse")),
        ("abs.", Un("abs")),
        ("fshl.", Fsh(true)),
        ("fshr.", Fsh(false)),
        ("fabs.", FUn("fabs")),
        ("floor.", FUn("floor")),
        ("ceil.", FUn("ceil")),
        ("trunc.", FUn("trunc")),
        ("round.", FUn("round")),
        ("rint.", FUn("rint")),
        ("roundeven.", FUn("rint")),
        ("sqrt.", FUn("sqrt")),
        ("copysign.", FBin("copysign")),
        ("minnum.", FBin("min")),
        ("maxnum.", FBin("max")),
        ("fptosi.sat", FToSat(true)),
        ("fptoui.sat", FToSat(false)),
        ("fma.", Fma),
        ("fmuladd.", Fma),
        ("is.constant", IsConstant),
        ("objectsize", ObjectSize),
        ("vector.reduce.or.", Reduce("or")),
        ("vector.reduce.and.", Reduce("and")),
        ("vector.reduce.add.", Reduce("add")),
        ("vector.reduce.xor.", Reduce("xor")),
        ("vector.reduce.umax.", Reduce("umax")),
        ("vector.reduce.umin.", Reduce("umin")),
        ("trap", Trap),
        ("ptrmask.", Ptrmask),
        ("load.relative.", LoadRel),
        ("stacksave", StackSave),
        ("stackrestore", StackSave),
    ] {
        if pre(p) {
            return i;
        }
    }
    Unknown
}

enum Data {
    Global(u32),
    Own(Vec<u32>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Const,
    Glob,
    Stack,
    Heap,
    Dead,
}
struct Obj {
    base: u64,
    size: u64,
    data: Data,
    kind: Kind,
}
struct Frame {
    f: u32,
    regs: Vec<V>,
    bb: u32,
    ip: u32,
    allocas: Vec<u32>,
    ret: u32,
    normal: Option<u32>,
}

#[derive(Default)]
struct Stats {
    branches: u64,
    forks: u64,
    insts: u64,
    asserts: u64,
    assert_queries: u64,
    assert_trivial: u64,
    dom_queries: u64,
    guessed: u64,
    cache_hits: u64,
    unknown: u64,
    z3_queries: u64,
    z3_time: f64,
    z3_max: f64,
}

pub struct Worker<'s, 'm> {
    sh: &'s Shared<'m>,
    m: &'m Module,
    ar: Arena,
    z3: Z3,
    cache: HashMap<Vec<u32>, Option<Vec<(u16, u8)>>>,
    st: Stats,
    fn_insts: Vec<u64>,
    fn_forks: Vec<u64>,
    // ---- path state
    dec: Vec<Dec>,
    pos: usize,
    model: Vec<u8>,
    nvars: u16,
    inputs: Vec<u16>,
    dom: Vec<[u64; 4]>,
    group: Vec<u16>,
    gcons: Vec<Vec<E>>,
    gvars: Vec<Vec<u16>>,
    entangled: Vec<bool>,
    objs: Vec<Obj>,
    slots: Vec<u32>,
    frames: Vec<Frame>,
    steps: u64,
    emits: Vec<V>,
    covers: Vec<u32>,
    depth_hit: bool,
}

fn fmt_fn(n: &str) -> String {
    demangle(n)
}

/// Very small demangler for v0 / legacy symbols: keeps the identifiers.
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !(n.starts_with("_R") || n.starts_with("_ZN")) {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 15 && !b[i + 1..j].iter().any(|c| c.is_ascii_digit() && false) {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut len = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                len = len * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if len > 0 && j + len <= b.len() {
                let id = &n[j..j + len];
                if !(id.len() == 17 && id.starts_with('h')) {
                    out.push(id.to_string());
                }
                i = j + len;
                continue;
            }
        }
        i += 1;
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.truncate(8);
        out.join("::")
    }
}

pub fn run(m: &Module, intr: &[Intr], entry: u32, opts: Opts) -> Results {
    let jobs = opts.jobs;
    let sh = Shared {
        m,
        intr,
        entry,
        opts,
        queue: Mutex::new(Queue { items: vec![Pending { dec: vec![], model: vec![] }], active: 0 }),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        started: Instant::now(),
        first_violation: Mutex::new(None),
        npaths: AtomicU64::new(0),
        res: Mutex::new(Results::default()),
    };
    std::thread::scope(|s| {
        for _ in 0..jobs {
            let sh = &sh;
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut w = Worker::new(sh);
                        w.work();
                    }));
                    if let Err(e) = r {
                        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        let mut res = match sh.res.lock() {
                            Ok(g) => g,
                            Err(p) => p.into_inner(),
                        };
                        *res.errors.entry(format!("engine panic: {}", msg)).or_insert(0) += 1;
                        drop(res);
                        sh.stop.store(true, Ordering::SeqCst);
                        sh.cv.notify_all();
                    }
                })
                .unwrap();
        }
    });
    let mut r = sh.res.into_inner().unwrap_or_else(|p| p.into_inner());
    r.wall = sh.started.elapsed().as_secs_f64();
    r
}

impl<'s, 'm> Worker<'s, 'm> {
    fn new(sh: &'s Shared<'m>) -> Self {
        let m = sh.m;
        Worker {
            sh,
            m,
            ar: Arena::new(),
            z3: Z3::new(sh.opts.query_ms),
            cache: HashMap::new(),
            st: Stats::default(),
            fn_insts: vec![0; m.funcs.len()],
            fn_forks: vec![0; m.funcs.len()],
            dec: vec![],
            pos: 0,
            model: vec![],
            nvars: 0,
            inputs: vec![],
            dom: vec![],
            group: vec![],
            gcons: vec![],
            gvars: vec![],
            entangled: vec![],
            objs: vec![],
            slots: vec![],
            frames: vec![],
            steps: 0,
            emits: vec![],
            covers: vec![],
            depth_hit: false,
        }
    }

    fn work(&mut self) {
        loop {
            let p = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Ordering::Relaxed) {
                        break None;
                    }
                    if let Some(p) = q.items.pop() {
                        q.active += 1;
                        break Some(p);
                    }
                    if q.active == 0 {
                        break None;
                    }
                    q = self.sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                    if self.sh.started.elapsed().as_secs_f64() > self.sh.opts.timeout {
                        self.sh.res.lock().unwrap().timeout = true;
                        self.sh.stop.store(true, Ordering::SeqCst);
                    }
                }
            };
            let Some(p) = p else {
                self.sh.cv.notify_all();
                break;
            };
            self.path(p);
            {
                let mut q = self.sh.queue.lock().unwrap();
                q.active -= 1;
                if q.active == 0 && q.items.is_empty() {
                    self.sh.cv.notify_all();
                }
            }
            if self.sh.started.elapsed().as_secs_f64() > self.sh.opts.timeout {
                self.sh.res.lock().unwrap().timeout = true;
                self.sh.stop.store(true, Ordering::SeqCst);
            }
            if self.ar.n.len() > 1_500_000 {
                self.reset_arena();
            }
        }
        self.st.z3_queries += self.z3.queries;
        self.st.z3_time += self.z3.time;
        self.st.z3_max = self.st.z3_max.max(self.z3.max_time);
        let mut r = self.sh.res.lock().unwrap();
        let s = &self.st;
        r.branches += s.branches;
        r.forks += s.forks;
        r.insts += s.insts;
        r.asserts += s.asserts;
        r.assert_queries += s.assert_queries;
        r.assert_trivial += s.assert_trivial;
        r.dom_queries += s.dom_queries;
        r.guessed += s.guessed;
        r.cache_hits += s.cache_hits;
        r.unknown += s.unknown;
        r.z3_queries += s.z3_queries;
        r.z3_time += s.z3_time;
        r.z3_max = r.z3_max.max(s.z3_max);
        for (i, n) in self.fn_insts.iter().enumerate() {
            if *n > 0 {
                *r.fn_insts.entry(i as u32).or_insert(0) += n;
            }
        }
        for (i, n) in self.fn_forks.iter().enumerate() {
            if *n > 0 {
                *r.fn_forks.entry(i as u32).or_insert(0) += n;
            }
        }
    }
    fn reset_arena(&mut self) {
        self.st.z3_queries += self.z3.queries;
        self.st.z3_time += self.z3.time;
        self.st.z3_max = self.st.z3_max.max(self.z3.max_time);
        self.ar = Arena::new();
        self.z3 = Z3::new(self.sh.opts.query_ms);
        self.cache.clear();
    }

    fn path(&mut self, p: Pending) {
        self.dec = p.dec;
        self.model = p.model;
        self.pos = 0;
        self.nvars = 0;
        self.inputs.clear();
        self.dom.clear();
        self.group.clear();
        self.gcons.clear();
        self.gvars.clear();
        self.entangled.clear();
        self.objs.clear();
        self.slots.clear();
        self.frames.clear();
        self.steps = 0;
        self.emits.clear();
        self.covers.clear();
        self.ar.undef_vars.clear();
        self.ar.begin_eval();
        // globals and functions occupy the first slots
        self.slots.resize(self.m.first_slot as usize, u32::MAX);
        for (gi, g) in self.m.globals.iter().enumerate() {
            let oi = self.objs.len() as u32;
            self.objs.push(Obj { base: g.addr, size: g.size, data: Data::Global(gi as u32), kind: if g.constant { Kind::Const } else { Kind::Glob } });
            let s0 = g.addr >> self.m.slot_shift;
            let s1 = (g.addr + g.size) >> self.m.slot_shift;
            for s in s0..=s1 {
                self.slots[s as usize] = oi;
            }
        }
        let end = match self.push_frame(self.sh.entry, vec![], u32::MAX, None).and_then(|_| self.interp()) {
            Err(e) => e,
            Ok(()) => End::Done,
        };
        self.st.insts += self.steps;
        let mut r = self.sh.res.lock().unwrap();
        r.max_inputs = r.max_inputs.max(self.inputs.len());
        r.max_path_insts = r.max_path_insts.max(self.steps);
        match end {
            End::Done => {
                r.paths += 1;
                let n = r.paths;
                for c in &self.covers {
                    r.covers.insert(*c);
                }
                let mut want = n <= 8 || (n.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(self.sh.opts.seed.wrapping_mul(0xbf58476d1ce4e5b9)) >> 20) % self.sh.opts.sample_every == 0;
                if r.samples.len() >= self.sh.opts.max_samples {
                    want = false;
                }
                if want {
                    drop(r);
                    let input = self.input_of(&self.model.clone());
                    self.ar.begin_eval();
                    let mut emits = vec![];
                    for v in std::mem::take(&mut self.emits) {
                        let x = match v {
                            V::C(x) => x as u64,
                            V::E(e) => self.ar.eval(e, &self.model) as u64,
                            _ => 0xdeadbeef,
                        };
                        emits.push(x);
                    }
                    let covers = self.covers.clone();
                    self.sh.res.lock().unwrap().samples.push(Sample { input, emits, covers });
                }
            }
            End::Assumed => r.assumed_away += 1,
            End::Violation(v) => {
                r.paths += 1;
                drop(r);
                self.report(v);
            }
            End::Error(e) => {
                *r.errors.entry(e).or_insert(0) += 1;
                if r.errors.values().sum::<u64>() > 50 {
                    self.sh.stop.store(true, Ordering::SeqCst);
                }
            }
            End::Stop => r.stopped = true,
        }
        let n = self.sh.npaths.fetch_add(1, Ordering::Relaxed);
        if n >= self.sh.opts.max_paths {
            self.sh.res.lock().unwrap().timeout = true;
            self.sh.stop.store(true, Ordering::SeqCst);
        }
        let fv = *self.sh.first_violation.lock().unwrap();
        if let Some(t) = fv {
            if t.elapsed().as_secs_f64() > 8.0 {
                self.sh.stop.store(true, Ordering::SeqCst);
            }
        }
    }
    fn report(&mut self, v: Violation) {
        let mut r = self.sh.res.lock().unwrap();
        let key = format!("{}|{}", v.kind, v.site);
        if r.seen_sites.insert(key) {
            r.violations.push(v);
            let n = r.violations.len();
            drop(r);
            let mut f = self.sh.first_violation.lock().unwrap();
            if f.is_none() {
                *f = Some(Instant::now());
            }
            if n >= self.sh.opts.max_violations {
                self.sh.stop.store(true, Ordering::SeqCst);
            }
        }
    }
    fn input_of(&self, model: &[u8]) -> Vec<u8> {
        self.inputs.iter().map(|&v| model.get(v as usize).copied().unwrap_or(0)).collect()
    }
    fn stack(&self) -> Vec<String> {
        self.frames.iter().rev().map(|f| fmt_fn(&self.m.funcs[f.f as usize].name)).collect()
    }
    fn violation(&self, kind: &str, msg: String, model: &[u8]) -> Violation {
        let st = self.stack();
        let fr = self.frames.last().unwrap();
        let site = format!("{}:{}:{}", self.m.funcs[fr.f as usize].name, fr.bb, fr.ip);
        Violation { kind: kind.into(), msg, site, input: self.input_of(model), stack: st }
    }
    fn vio<T>(&self, kind: &str, msg: String) -> R<T> {
        Err(End::Violation(self.violation(kind, msg, &self.model)))
    }
    fn err<T>(&self, msg: impl Into<String>) -> R<T> {
        let f = self.frames.last().map(|f| fmt_fn(&self.m.funcs[f.f as usize].name)).unwrap_or_default();
        Err(End::Error(format!("{} in {}", msg.into(), f)))
    }

    // ------------------------------------------------------------ constraints
    fn new_var(&mut self) -> u16 {
        let v = self.nvars;
        self.nvars = self.nvars.checked_add(1).expect("too many symbolic bytes");
        self.dom.push([u64::MAX; 4]);
        self.group.push(v);
        self.gcons.push(vec![]);
        self.gvars.push(vec![v]);
        self.entangled.push(false);
        if self.model.len() <= v as usize {
            self.model.push(0);
        }
        v
    }
    fn fresh_undef(&mut self, w: u16) -> E {
        let n = (w + 7) / 8;
        let mut r: Option<E> = None;
        for _ in 0..n {
            let v = self.new_var();
            self.ar.undef_vars.insert(v, ());
            let e = self.ar.var(v);
            r = Some(match r {
                None => e,
                Some(x) => self.ar.concat(e, x),
            });
        }
        self.ar.extract(r.unwrap(), 0, w)
    }
    fn add(&mut self, c: E) {
        if c == 1 {
            return;
        }
        let n = self.ar.n[c as usize].clone();
        if n.op == Op::And && n.w == 1 {
            self.add(n.a);
            self.add(n.b);
            return;
        }
        let sup: Vec<u16> = self.ar.support(c).to_vec();
        if sup.len() == 1 {
            let b = self.ar.bits(c);
            let d = &mut self.dom[sup[0] as usize];
            for i in 0..4 {
                d[i] &= b[i];
            }
            return;
        }
        if sup.is_empty() {
            return;
        }
        let g0 = self.group[sup[0] as usize];
        for &v in &sup[1..] {
            let g = self.group[v as usize];
            if g != g0 {
                let vs = std::mem::take(&mut self.gvars[g as usize]);
                for &x in &vs {
                    self.group[x as usize] = g0;
                }
                self.gvars[g0 as usize].extend(vs);
                let cs = std::mem::take(&mut self.gcons[g as usize]);
                self.gcons[g0 as usize].extend(cs);
            }
        }
        for &v in &sup {
            self.entangled[v as usize] = true;
        }
        let gc = &mut self.gcons[g0 as usize];
        if !gc.contains(&c) {
            gc.push(c);
        }
    }
    #[inline]
    fn ev(&mut self, e: E) -> u128 {
        self.ar.eval(e, &self.model)
    }
    fn set_model(&mut self, upd: &[(u16, u8)]) {
        for &(v, x) in upd {
            self.model[v as usize] = x;
        }
        self.ar.begin_eval();
    }
    /// Is path condition ∧ c satisfiable?  Some(update of the current model) if so.
    /// bytes of sums at the head of both: compared as whole numbers
    fn eq_numbers(&mut self, x: &[u32], y: &[u32]) -> Option<(usize, E)> {
        let run = (0..x.len().min(8)).take_while(|&i| x[i] != UNINIT && y[i] != UNINIT).count();
        if run < 2 {
            return None;
        }
        for be in [true, false] {
            for s in (2..=run).rev() {
                let mut p = [0; 2];
                for (k, z) in [x, y].iter().enumerate() {
                    let at = |i: usize| if be { s - 1 - i } else { i };
                    let mut e = self.byte_e(z[at(0)]);
                    for i in 1..s {
                        let h = self.byte_e(z[at(i)]);
                        e = self.ar.concat(h, e);
                    }
                    p[k] = e;
                }
                if self.ar.is_sum(p[0]) && self.ar.is_sum(p[1]) {
                    return Some((s, self.ar.eq(p[0], p[1])));
                }
            }
        }
        None
    }
    fn feasible(&mut self, c: E, force_solver: bool) -> R<Option<Vec<(u16, u8)>>> {
        if c == 0 {
            return Ok(None);
        }
        if c == 1 || self.ev(c) != 0 {
            return Ok(Some(vec![]));
        }
        let sup: Vec<u16> = self.ar.support(c).to_vec();
        if sup.len() == 1 && !force_solver {
            let v = sup[0] as usize;
            let b = self.ar.bits(c);
            let d = self.dom[v];
            let x = [d[0] & b[0], d[1] & b[1], d[2] & b[2], d[3] & b[3]];
            if x == [0; 4] {
                self.st.dom_queries += 1;
                return Ok(None);
            }
            if !self.entangled[v] {
                self.st.dom_queries += 1;
                let k = (0..4).find(|&i| x[i] != 0).unwrap();
                // prefer printable values for readable counterexamples
                let val = (0x20..0x7f).find(|&i: &usize| x[i >> 6] >> (i & 63) & 1 == 1).unwrap_or(k * 64 + x[k].trailing_zeros() as usize);
                return Ok(Some(vec![(v as u16, val as u8)]));
            }
        }
        // slice
        let mut groups: Vec<u16> = sup.iter().map(|&v| self.group[v as usize]).collect();
        groups.sort_unstable();
        groups.dedup();
        let mut cs: Vec<E> = vec![];
        let mut vars: Vec<u16> = vec![];
        for &g in &groups {
            cs.extend(self.gcons[g as usize].iter());
            vars.extend(self.gvars[g as usize].iter());
        }
        vars.sort_unstable();
        cs.sort_unstable();
        let doms: Vec<(u16, [u64; 4])> = vars.iter().map(|&v| (v, self.dom[v as usize])).collect();
        let mut key: Vec<u32> = Vec::with_capacity(2 + cs.len() + vars.len() * 9);
        key.push(c);
        key.extend(cs.iter());
        key.push(u32::MAX);
        for (v, d) in &doms {
            if *d == [u64::MAX; 4] {
                key.push(*v as u32);
            } else {
                key.push(*v as u32 | 0x8000_0000);
                for x in d {
                    key.push(*x as u32);
                    key.push((*x >> 32) as u32);
                }
            }
        }
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(r.clone());
        }
        cs.push(c);
        if let Some(u) = self.guess(&cs, &doms) {
            self.st.guessed += 1;
            self.cache.insert(key, Some(u.clone()));
            return Ok(Some(u));
        }
        let mut out = vec![];
        let r = self.z3.check(&self.ar, &cs, &doms, &vars, &mut out);
        let r = match r {
            Res::Sat => Some(out),
            Res::Unsat => None,
            Res::Unknown => {
                self.st.unknown += 1;
                return self.err("solver returned unknown");
            }
        };
        if cfg!(debug_assertions) || std::env::var_os("SYMEX_PARANOID").is_some() {
            if let Some(u) = &r {
                let mut m = self.model.clone();
                for &(v, x) in u {
                    m[v as usize] = x;
                }
                self.ar.begin_eval();
                for &q in &cs {
                    assert!(self.ar.eval(q, &m) != 0, "model does not satisfy {}", self.ar.show(q, 20));
                }
                self.ar.begin_eval();
            }
        }
        self.cache.insert(key, r.clone());
        Ok(r)
    }
    /// A few assignments worth trying before asking the solver: extreme and scattered values.
    fn guess(&mut self, cs: &[E], doms: &[(u16, [u64; 4])]) -> Option<Vec<(u16, u8)>> {
        let max = |d: &[u64; 4]| (0..4).rev().find(|&i| d[i] != 0).map(|i| (i * 64 + 63 - d[i].leading_zeros() as usize) as u8);
        let min = |d: &[u64; 4]| (0..4).find(|&i| d[i] != 0).map(|i| (i * 64 + d[i].trailing_zeros() as usize) as u8);
        let mut m = self.model.clone();
        let mut rnd = 0x9e37_79b9_7f4a_7c15u64;
        for k in 0..5 {
            let mut u = Vec::with_capacity(doms.len());
            for (v, d) in doms {
                rnd ^= rnd << 13;
                rnd ^= rnd >> 7;
                rnd ^= rnd << 17;
                let (lo, hi) = (min(d)?, max(d)?);
                let x = match k {
                    0 => hi,
                    1 => lo,
                    _ => {
                        let x = lo + (rnd >> 32) as u8 % (hi - lo).max(1);
                        // the next value of the domain from there
                        (x..=hi).find(|&x| d[x as usize >> 6] >> (x & 63) & 1 == 1)?
                    }
                };
                m[*v as usize] = x;
                u.push((*v, x));
            }
            self.ar.begin_eval();
            if cs.iter().rev().all(|&q| self.ar.eval(q, &m) != 0) {
                self.ar.begin_eval();
                return Some(u);
            }
        }
        self.ar.begin_eval();
        None
    }
    fn fork(&mut self, d: Dec, upd: &[(u16, u8)]) {
        let mut model = self.model.clone();
        for &(v, x) in upd {
            model[v as usize] = x;
        }
        let mut dec = self.dec.clone();
        dec.push(d);
        self.st.forks += 1;
        let f = self.frames.last().unwrap().f;
        self.fn_forks[f as usize] += 1;
        let mut q = self.sh.queue.lock().unwrap();
        q.items.push(Pending { dec, model });
        drop(q);
        self.sh.cv.notify_one();
    }
    fn stop_check(&self) -> R<()> {
        if self.sh.stop.load(Ordering::Relaxed) {
            return Err(End::Stop);
        }
        Ok(())
    }
    /// Decide a symbolic boolean, forking if both outcomes are feasible.
    fn branch(&mut self, c: E) -> R<bool> {
        if let Some(x) = self.ar.cval(c) {
            return Ok(x != 0);
        }
        self.st.branches += 1;
        if self.pos < self.dec.len() {
            let d = self.dec[self.pos];
            self.pos += 1;
            let Dec::Br(dir, implied) = d else { return self.err(format!("replay divergence: {:?} at branch", d)) };
            if !implied {
                let k = if dir { c } else { self.ar.not(c) };
                self.add(k);
            }
            return Ok(dir);
        }
        self.stop_check()?;
        let dir = self.ev(c) != 0;
        let other = if dir { self.ar.not(c) } else { c };
        let o = self.feasible(other, false)?;
        let implied = o.is_none();
        if let Some(u) = o {
            if self.ar.is_undef(c) {
                return self.vio("uninit", "branch depends on uninitialised memory".into());
            }
            self.fork(Dec::Br(!dir, false), &u);
            let k = if dir { c } else { self.ar.not(c) };
            self.add(k);
        }
        self.dec.push(Dec::Br(dir, implied));
        self.pos += 1;
        Ok(dir)
    }
    /// Choose among mutually exclusive, exhaustive conditions.
    fn choose(&mut self, conds: &[E]) -> R<usize> {
        if let Some(i) = conds.iter().position(|&c| c == 1) {
            return Ok(i);
        }
        self.st.branches += 1;
        if self.pos < self.dec.len() {
            let d = self.dec[self.pos];
            self.pos += 1;
            let Dec::Sw(i, implied) = d else { return self.err(format!("replay divergence: {:?} at switch", d)) };
            if !implied {
                self.add(conds[i as usize]);
            }
            return Ok(i as usize);
        }
        self.stop_check()?;
        let mut cur = None;
        let mut others = vec![];
        for (i, &c) in conds.iter().enumerate() {
            if c == 0 {
                continue;
            }
            if cur.is_none() && self.ev(c) != 0 {
                cur = Some(i);
                continue;
            }
            if let Some(u) = self.feasible(c, false)? {
                others.push((i, u));
            }
        }
        let Some(cur) = cur else { return self.err("switch: model matches no case") };
        if !others.is_empty() && self.ar.is_undef(conds[cur]) {
            return self.vio("uninit", "switch depends on uninitialised memory".into());
        }
        let implied = others.is_empty();
        for (i, u) in others {
            self.fork(Dec::Sw(i as u32, false), &u);
        }
        if !implied {
            self.add(conds[cur]);
        }
        self.dec.push(Dec::Sw(cur as u32, implied));
        self.pos += 1;
        Ok(cur)
    }
    /// Fix the value of an expression, forking over all its feasible values.
    fn concretize(&mut self, e: E) -> R<u128> {
        if let Some(x) = self.ar.cval(e) {
            return Ok(x);
        }
        let w = self.ar.w(e);
        loop {
            if self.pos < self.dec.len() {
                let d = self.dec[self.pos];
                self.pos += 1;
                match d {
                    Dec::Take(v) => {
                        let k = self.ar.cst(w, v);
                        let c = self.ar.eq(e, k);
                        self.add(c);
                        return Ok(v);
                    }
                    Dec::Excl(v) => {
                        let k = self.ar.cst(w, v);
                        let c = self.ar.ne(e, k);
                        self.add(c);
                        continue;
                    }
                    _ => return self.err(format!("replay divergence: {:?} at concretize", d)),
                }
            }
            self.stop_check()?;
            self.st.branches += 1;
            let v = self.ev(e);
            let k = self.ar.cst(w, v);
            let ne = self.ar.ne(e, k);
            if let Some(u) = self.feasible(ne, false)? {
                if self.ar.is_undef(e) {
                    return self.vio("uninit", "address or length depends on uninitialised memory".into());
                }
                self.fork(Dec::Excl(v), &u);
            }
            let c = self.ar.eq(e, k);
            self.add(c);
            self.dec.push(Dec::Take(v));
            self.pos += 1;
            return Ok(v);
        }
    }
    fn conc_v(&mut self, v: &V, what: &str) -> R<u64> {
        match v {
            V::C(x) => Ok(*x as u64),
            V::E(e) => Ok(self.concretize(*e)? as u64),
            V::U => self.vio("uninit", format!("{} is uninitialised", what)),
            V::A(_) => self.err("aggregate used as integer"),
        }
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, size: u64, kind: Kind, fill: u32) -> u64 {
        let sh = self.m.slot_shift;
        let slot = self.slots.len() as u64;
        let base = (slot << sh) + self.m.base_off;
        let n = 1 + ((size + self.m.base_off) >> sh);
        let oi = self.objs.len() as u32;
        for _ in 0..n {
            self.slots.push(oi);
        }
        if size > (64 << 20) {
            panic!("allocation of {} bytes", size);
        }
        self.objs.push(Obj { base, size, data: Data::Own(vec![fill; size as usize]), kind });
        base
    }
    fn find(&self, addr: u64, n: u64) -> Result<(usize, usize), String> {
        let s = (addr >> self.m.slot_shift) as usize;
        let oi = self.slots.get(s).copied().unwrap_or(u32::MAX);
        if oi == u32::MAX {
            return Err(format!("invalid address {:#x}", addr));
        }
        let o = &self.objs[oi as usize];
        if o.kind == Kind::Dead {
            return Err(format!("use after free/return at {:#x}", addr));
        }
        let off = addr.wrapping_sub(o.base);
        if off > o.size || o.size - off < n {
            return Err(format!("{} byte access at offset {} of {:?} object of {} bytes", n, off as i64, o.kind, o.size));
        }
        Ok((oi as usize, off as usize))
    }
    fn bytes(&self, oi: usize) -> &[u32] {
        match &self.objs[oi].data {
            Data::Global(g) => &self.m.globals[*g as usize].init,
            Data::Own(v) => v,
        }
    }
    fn bytes_mut(&mut self, oi: usize) -> &mut Vec<u32> {
        if let Data::Global(g) = self.objs[oi].data {
            self.objs[oi].data = Data::Own(self.m.globals[g as usize].init.clone());
        }
        match &mut self.objs[oi].data {
            Data::Own(v) => v,
            _ => unreachable!(),
        }
    }
    fn byte_e(&mut self, b: u32) -> E {
        if b < 256 {
            self.ar.cst(8, b as u128)
        } else if b == UNINIT {
            self.fresh_undef(8)
        } else {
            b - 257
        }
    }
    fn assemble(&mut self, bs: &[u32], w: u16) -> R<V> {
        if bs.iter().all(|&b| b < 256) {
            let mut x = 0u128;
            for (i, &b) in bs.iter().enumerate() {
                if i < 16 {
                    x |= (b as u128) << (8 * i);
                } else if b != 0 {
                    return self.err("wide load");
                }
            }
            return Ok(V::C(x & mask(w)));
        }
        if bs.iter().all(|&b| b == UNINIT) {
            return Ok(V::U);
        }
        if w > 128 {
            return self.err("wide symbolic load");
        }
        let mut r: Option<E> = None;
        for &b in bs.iter().rev() {
            let e = self.byte_e(b);
            r = Some(match r {
                None => e,
                Some(x) => self.ar.concat(x, e),
            });
        }
        let r = self.ar.extract(r.unwrap(), 0, w);
        Ok(self.mkv(r))
    }
    fn mkv(&self, e: E) -> V {
        match self.ar.cval(e) {
            Some(x) => V::C(x),
            None => V::E(e),
        }
    }
    fn load_at(&mut self, addr: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Int(w) | Ty::F(w) => {
                let n = (*w as u64 + 7) / 8;
                let (oi, off) = match self.find(addr, n) {
                    Ok(x) => x,
                    Err(e) => return self.vio("memory", format!("read: {}", e)),
                };
                let b = self.bytes(oi);
                // fast path
                let s = &b[off..off + n as usize];
                if n <= 16 {
                    let mut x = 0u128;
                    let mut ok = true;
                    for (i, &q) in s.iter().enumerate() {
                        if q >= 256 {
                            ok = false;
                            break;
                        }
                        x |= (q as u128) << (8 * i);
                    }
                    if ok {
                        return Ok(V::C(x & mask(*w)));
                    }
                }
                let s = s.to_vec();
                self.assemble(&s, *w)
            }
            Ty::Arr(e, n, st) => {
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load_at(addr + i * st, e)?);
                }
                Ok(V::A(Arc::new(v)))
            }
            Ty::Vec(e, n) => {
                let st = size_of(e);
                if let Ty::Int(w) = **e {
                    if w % 8 != 0 {
                        return self.err("load of vector of non-byte elements");
                    }
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load_at(addr + i * st, e)?);
                }
                Ok(V::A(Arc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for (o, t) in f.iter() {
                    v.push(self.load_at(addr + o, t)?);
                }
                Ok(V::A(Arc::new(v)))
            }
            _ => self.err("load type"),
        }
    }
    fn store_at(&mut self, addr: u64, t: &Ty, v: &V) -> R<()> {
        match t {
            Ty::Int(w) | Ty::F(w) => {
                let n = (*w as u64 + 7) / 8;
                let (oi, off) = match self.find(addr, n) {
                    Ok(x) => x,
                    Err(e) => return self.vio("memory", format!("write: {}", e)),
                };
                if self.objs[oi].kind == Kind::Const {
                    return self.vio("memory", "write to constant".into());
                }
                match v {
                    V::C(x) => {
                        let b = self.bytes_mut(oi);
                        for i in 0..n as usize {
                            b[off + i] = if i < 16 { ((x >> (8 * i)) & 0xff) as u32 } else { 0 };
                        }
                    }
                    V::U => {
                        let b = self.bytes_mut(oi);
                        for i in 0..n as usize {
                            b[off + i] = UNINIT;
                        }
                    }
                    V::E(e) => {
                        let e = self.ar.zext(*e, n as u16 * 8);
                        for i in 0..n as usize {
                            let x = self.ar.extract(e, 8 * i as u16, 8);
                            let q = match self.ar.cval(x) {
                                Some(c) => c as u32,
                                None => x + 257,
                            };
                            self.bytes_mut(oi)[off + i] = q;
                        }
                    }
                    V::A(_) => return self.err("store aggregate as int"),
                }
                Ok(())
            }
            Ty::Arr(e, _, st) => {
                let V::A(a) = v else { return self.err("store arr") };
                for (i, x) in a.iter().enumerate() {
                    self.store_at(addr + i as u64 * st, e, x)?;
                }
                Ok(())
            }
            Ty::Vec(e, _) => {
                let V::A(a) = v else { return self.err("store vec") };
                let st = size_of(e);
                if let Ty::Int(w) = **e {
                    if w % 8 != 0 {
                        return self.err("store of vector of non-byte elements");
                    }
                }
                for (i, x) in a.iter().enumerate() {
                    self.store_at(addr + i as u64 * st, e, x)?;
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let V::A(a) = v else { return self.err("store struct") };
                for ((o, t), x) in f.iter().zip(a.iter()) {
                    self.store_at(addr + o, t, x)?;
                }
                Ok(())
            }
            _ => self.err("store type"),
        }
    }
    /// Load through a symbolic address: build an ITE over all feasible addresses when the address
    /// depends on a single input byte, otherwise fork over the addresses.
    fn load_sym(&mut self, e: E, t: &Ty) -> R<V> {
        let (w, n) = match t {
            Ty::Int(w) | Ty::F(w) => (*w, (*w as u64 + 7) / 8),
            _ => {
                let a = self.concretize(e)? as u64;
                return self.load_at(a, t);
            }
        };
        let sup: Vec<u16> = self.ar.support(e).to_vec();
        if sup.len() == 1 && !self.ar.is_undef(e) {
            let v = sup[0] as usize;
            let d = self.dom[v];
            let mut m = self.model.clone();
            let mut table: BTreeMap<u64, u8> = BTreeMap::new();
            for x in 0..256usize {
                if d[x >> 6] >> (x & 63) & 1 == 0 {
                    continue;
                }
                m[v] = x as u8;
                self.ar.begin_eval();
                let a = self.ar.eval(e, &m) as u64;
                table.entry(a).or_insert(x as u8);
            }
            self.ar.begin_eval();
            if table.len() == 1 {
                let a = *table.keys().next().unwrap();
                return self.load_at(a, t);
            }
            if table.keys().all(|&a| self.find(a, n).is_ok()) || !self.entangled[v] {
                let mut vals: Vec<(u64, V)> = vec![];
                for (&a, &x) in &table {
                    if let Err(msg) = self.find(a, n) {
                        let mut m = self.model.clone();
                        m[v] = x;
                        return Err(End::Violation(self.violation("memory", format!("read: {}", msg), &m)));
                    }
                    vals.push((a, self.load_at(a, t)?));
                }
                if vals.iter().all(|(_, v)| matches!(v, V::C(_) | V::E(_))) {
                    // runs of equal values, most frequent first would also do
                    let aw = self.ar.w(e);
                    let mut r: Option<E> = None;
                    let mut i = vals.len();
                    while i > 0 {
                        let ve = self.to_e(&vals[i - 1].1.clone(), w);
                        let mut j = i - 1;
                        while j > 0 && self.to_e(&vals[j - 1].1.clone(), w) == ve {
                            j -= 1;
                        }
                        r = Some(match r {
                            None => ve,
                            Some(rest) => {
                                // addresses below vals[i].0 take ve
                                let k = self.ar.cst(aw, vals[i].0 as u128);
                                let c = self.ar.ult(e, k);
                                self.ar.ite(c, ve, rest)
                            }
                        });
                        i = j;
                    }
                    return Ok(self.mkv(r.unwrap()));
                }
            }
        }
        if sup.len() > 1 && n == 1 && !self.ar.is_undef(e) {
            // a table indexed by several bytes
            let (lo, hi) = self.ar.bounds(e);
            if hi - lo < 256 {
                let mut r: Option<E> = None;
                let aw = self.ar.w(e);
                let mut ok = true;
                for a in (lo..=hi).rev() {
                    if self.find(a as u64, 1).is_err() {
                        ok = false;
                        break;
                    }
                    let v = match self.load_at(a as u64, t)? {
                        v @ (V::C(_) | V::E(_)) => self.to_e(&v, w),
                        _ => {
                            ok = false;
                            break;
                        }
                    };
                    r = Some(match r {
                        None => v,
                        Some(x) if x == v => v,
                        Some(rest) => {
                            let k = self.ar.cst(aw, a + 1);
                            let c = self.ar.ult(e, k);
                            self.ar.ite(c, v, rest)
                        }
                    });
                }
                if ok {
                    return Ok(self.mkv(r.unwrap()));
                }
            }
        }
        let a = self.concretize(e)? as u64;
        self.load_at(a, t)
    }
    fn to_e(&mut self, v: &V, w: u16) -> E {
        match v {
            V::C(x) => self.ar.cst(w, *x),
            V::E(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::U => self.fresh_undef(w),
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn read_bytes(&mut self, addr: u64, n: u64) -> R<Vec<u32>> {
        if n == 0 {
            return Ok(vec![]);
        }
        match self.find(addr, n) {
            Ok((oi, off)) => Ok(self.bytes(oi)[off..off + n as usize].to_vec()),
            Err(e) => self.vio("memory", format!("read: {}", e)),
        }
    }
    fn write_bytes(&mut self, addr: u64, b: &[u32]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        match self.find(addr, b.len() as u64) {
            Ok((oi, off)) => {
                if self.objs[oi].kind == Kind::Const {
                    return self.vio("memory", "write to constant".into());
                }
                self.bytes_mut(oi)[off..off + b.len()].copy_from_slice(b);
                Ok(())
            }
            Err(e) => self.vio("memory", format!("write: {}", e)),
        }
    }

    // ------------------------------------------------------------ interpreter
    fn push_frame(&mut self, f: u32, args: Vec<V>, ret: u32, normal: Option<u32>) -> R<()> {
        if self.m.funcs[f as usize].panic {
            let n = fmt_fn(&self.m.funcs[f as usize].name);
            return self.vio("panic", format!("panic through {}", n));
        }
        let fu = &self.m.funcs[f as usize];
        if fu.blocks.is_empty() {
            return self.err(format!("call of undefined function {}", fu.name));
        }
        if self.frames.len() >= self.sh.opts.max_depth {
            return self.vio("stack", format!("call depth exceeds {}", self.sh.opts.max_depth));
        }
        let mut regs = args;
        regs.resize(fu.nregs as usize, V::U);
        self.frames.push(Frame { f, regs, bb: 0, ip: 0, allocas: vec![], ret, normal });
        Ok(())
    }
    #[inline]
    fn o(&self, o: &O) -> V {
        match o {
            O::R(r) => self.frames.last().unwrap().regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&mut self, dst: u32, v: V) {
        if dst != u32::MAX {
            self.frames.last_mut().unwrap().regs[dst as usize] = v;
        }
    }
    fn goto(&mut self, bb: u32) {
        let m = self.m;
        let fr = self.frames.last_mut().unwrap();
        let from = fr.bb;
        let blk = &m.funcs[fr.f as usize].blocks[bb as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                let o = &inc.iter().find(|(b, _)| *b == from).unwrap().1;
                let v = match o {
                    O::R(r) => fr.regs[*r as usize].clone(),
                    O::K(v) => v.clone(),
                };
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<V> = blk
                    .phis
                    .iter()
                    .map(|(_, inc)| {
                        let o = &inc.iter().find(|(b, _)| *b == from).unwrap().1;
                        match o {
                            O::R(r) => fr.regs[*r as usize].clone(),
                            O::K(v) => v.clone(),
                        }
                    })
                    .collect();
                for ((d, _), v) in blk.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.bb = bb;
        fr.ip = 0;
    }
    fn do_ret(&mut self, v: Option<V>) -> bool {
        let fr = self.frames.pop().unwrap();
        for oi in fr.allocas {
            let o = &mut self.objs[oi as usize];
            o.kind = Kind::Dead;
            o.data = Data::Own(vec![]);
        }
        if self.frames.is_empty() {
            return true;
        }
        if let Some(v) = v {
            self.set(fr.ret, v);
        }
        if let Some(n) = fr.normal {
            self.goto(n);
        }
        false
    }
    fn interp(&mut self) -> R<()> {
        let m = self.m;
        loop {
            let (f, bb, ip) = {
                let fr = self.frames.last_mut().unwrap();
                let r = (fr.f, fr.bb, fr.ip);
                fr.ip += 1;
                r
            };
            let (dst, ins) = &m.funcs[f as usize].blocks[bb as usize].ins[ip as usize];
            let dst = *dst;
            self.steps += 1;
            self.fn_insts[f as usize] += 1;
            if self.steps & 0xfff == 0 {
                self.stop_check()?;
                if self.steps > self.sh.opts.step_limit {
                    return self.vio("hang", format!("more than {} instructions on one path", self.sh.opts.step_limit));
                }
            }
            match ins {
                I::Bin(op, w, 0, a, b) => {
                    let (a, b) = (self.o(a), self.o(b));
                    let v = self.bin(*op, *w, &a, &b)?;
                    self.set(dst, v);
                }
                I::Bin(op, w, _, a, b) => {
                    let (V::A(a), V::A(b)) = (self.o(a), self.o(b)) else { return self.err("vector operand") };
                    let mut r = vec![];
                    for (x, y) in a.iter().zip(b.iter()) {
                        r.push(self.bin(*op, *w, x, y)?);
                    }
                    self.set(dst, V::A(Arc::new(r)));
                }
                I::ICmp(p, w, 0, a, b) => {
                    let (a, b) = (self.o(a), self.o(b));
                    let v = self.icmp(*p, *w, &a, &b)?;
                    self.set(dst, v);
                }
                I::ICmp(p, w, _, a, b) => {
                    let (V::A(a), V::A(b)) = (self.o(a), self.o(b)) else { return self.err("vector operand") };
                    let mut r = vec![];
                    for (x, y) in a.iter().zip(b.iter()) {
                        r.push(self.icmp(*p, *w, x, y)?);
                    }
                    self.set(dst, V::A(Arc::new(r)));
                }
                I::FCmp(p, w, n, a, b) => {
                    if *n != 0 {
                        return self.err("vector fcmp");
                    }
                    let (a, b) = (self.o(a), self.o(b));
                    let v = self.fcmp(*p, *w, &a, &b)?;
                    self.set(dst, v);
                }
                I::FNeg(w, a) => {
                    let a = self.o(a);
                    let v = match a {
                        V::C(x) => V::C(x ^ (1u128 << (w - 1))),
                        V::E(e) => {
                            let k = self.ar.cst(*w, 1u128 << (w - 1));
                            V::E(self.ar.xor(e, k))
                        }
                        _ => V::U,
                    };
                    self.set(dst, v);
                }
                I::Cast(k, fw, tw, 0, a) => {
                    let a = self.o(a);
                    let v = self.cast(*k, *fw, *tw, &a)?;
                    self.set(dst, v);
                }
                I::Cast(k, fw, tw, _, a) => {
                    let V::A(a) = self.o(a) else { return self.err("vector operand") };
                    let mut r = vec![];
                    for x in a.iter() {
                        r.push(self.cast(*k, *fw, *tw, x)?);
                    }
                    self.set(dst, V::A(Arc::new(r)));
                }
                I::BitCast(ft, tt, a) => {
                    let a = self.o(a);
                    let v = self.bitcast(ft, tt, a)?;
                    self.set(dst, v);
                }
                I::Select(c, a, b, t) => {
                    let c = self.o(c);
                    let v = match c {
                        V::C(x) => {
                            if x & 1 != 0 {
                                self.o(a)
                            } else {
                                self.o(b)
                            }
                        }
                        V::U => V::U,
                        V::E(c) => {
                            let (a, b) = (self.o(a), self.o(b));
                            self.select(c, a, b, t)?
                        }
                        V::A(c) => {
                            let (V::A(a), V::A(b)) = (self.o(a), self.o(b)) else { return self.err("vector operand") };
                            let Ty::Vec(et, _) = t else { return self.err("vector select") };
                            let mut r = vec![];
                            for i in 0..c.len() {
                                r.push(match &c[i] {
                                    V::C(x) => {
                                        if x & 1 != 0 {
                                            a[i].clone()
                                        } else {
                                            b[i].clone()
                                        }
                                    }
                                    V::E(e) => self.select(*e, a[i].clone(), b[i].clone(), et)?,
                                    _ => V::U,
                                });
                            }
                            V::A(Arc::new(r))
                        }
                    };
                    self.set(dst, v);
                }
                I::Load(t, p) => {
                    let v = match self.o(p) {
                        V::C(a) => self.load_at(a as u64, t)?,
                        V::E(e) => self.load_sym(e, t)?,
                        _ => return self.vio("uninit", "load through uninitialised pointer".into()),
                    };
                    self.set(dst, v);
                }
                I::Store(t, v, p) => {
                    let v = self.o(v);
                    let p = self.o(p);
                    let a = self.conc_v(&p, "store address")?;
                    self.store_at(a, t, &v)?;
                }
                I::Gep(b, off, idx) => {
                    let b = self.o(b);
                    let v = self.gep(b, *off, idx)?;
                    self.set(dst, v);
                }
                I::Alloca(size, _al, n) => {
                    let n = self.o(n);
                    let n = self.conc_v(&n, "alloca count")?;
                    let a = self.alloc(size * n, Kind::Stack, UNINIT);
                    let oi = self.objs.len() as u32 - 1;
                    self.frames.last_mut().unwrap().allocas.push(oi);
                    self.set(dst, V::C(a as u128));
                }
                I::Call(callee, args, tys, rt, normal) => {
                    let av: Vec<V> = args.iter().map(|a| self.o(a)).collect();
                    match callee {
                        Callee::Func(fi) => {
                            let fi = *fi;
                            self.push_frame(fi, av, dst, *normal)?;
                        }
                        Callee::Ext(k) => {
                            let it = &self.sh.intr[*k as usize];
                            let v = self.ext(it, *k, &av, tys, rt)?;
                            if let Some(v) = v {
                                self.set(dst, v);
                            }
                            if let Some(n) = normal {
                                self.goto(*n);
                            }
                        }
                        Callee::Ind(o) => {
                            let p = self.o(o);
                            let a = self.conc_v(&p, "function pointer")?;
                            let Some(&fi) = self.m.fn_by_addr.get(&a) else {
                                return self.vio("memory", format!("call through invalid pointer {:#x}", a));
                            };
                            if self.m.funcs[fi as usize].decl {
                                let k = self.m.ext.iter().position(|n| *n == self.m.funcs[fi as usize].name);
                                let Some(k) = k else { return self.err(format!("indirect call of external {}", self.m.funcs[fi as usize].name)) };
                                let it = &self.sh.intr[k];
                                let v = self.ext(it, k as u32, &av, tys, rt)?;
                                if let Some(v) = v {
                                    self.set(dst, v);
                                }
                                if let Some(n) = normal {
                                    self.goto(*n);
                                }
                            } else {
                                self.push_frame(fi, av, dst, *normal)?;
                            }
                        }
                    }
                }
                I::Br(b) => self.goto(*b),
                I::CondBr(c, t, e) => {
                    let d = match self.o(c) {
                        V::C(x) => x & 1 != 0,
                        V::E(c) => {
                            if t == e {
                                true
                            } else {
                                self.branch(c)?
                            }
                        }
                        _ => return self.vio("uninit", "branch on uninitialised value".into()),
                    };
                    self.goto(if d { *t } else { *e });
                }
                I::Switch(v, w, d, cases) => match self.o(v) {
                    V::C(x) => {
                        let x = x & mask(*w);
                        let t = cases.iter().find(|(k, _)| *k == x).map(|(_, b)| *b).unwrap_or(*d);
                        self.goto(t);
                    }
                    V::E(e) => {
                        // group by target
                        let mut order: Vec<u32> = vec![];
                        let mut conds: Vec<E> = vec![];
                        let mut any = 0;
                        for (k, b) in cases {
                            let kc = self.ar.cst(*w, *k);
                            let c = self.ar.eq(e, kc);
                            any = self.ar.or(any, c);
                            match order.iter().position(|x| x == b) {
                                Some(i) => conds[i] = self.ar.or(conds[i], c),
                                None => {
                                    order.push(*b);
                                    conds.push(c);
                                }
                            }
                        }
                        let none = self.ar.not(any);
                        match order.iter().position(|x| x == d) {
                            Some(i) => conds[i] = self.ar.or(conds[i], none),
                            None => {
                                order.push(*d);
                                conds.push(none);
                            }
                        }
                        let i = self.choose(&conds)?;
                        self.goto(order[i]);
                    }
                    _ => return self.vio("uninit", "switch on uninitialised value".into()),
                },
                I::Ret(v) => {
                    let v = v.as_ref().map(|v| self.o(v));
                    if self.do_ret(v) {
                        return Ok(());
                    }
                }
                I::Unreachable => return self.vio("unreachable", "executed unreachable code (undefined behaviour)".into()),
                I::ExtractVal(a, idx) => {
                    let mut v = self.o(a);
                    for &i in idx {
                        v = match v {
                            V::A(x) => x[i as usize].clone(),
                            V::U => V::U,
                            _ => return self.err("extractvalue"),
                        };
                    }
                    self.set(dst, v);
                }
                I::InsertVal(a, b, idx, t) => {
                    let mut v = self.o(a);
                    if matches!(v, V::U) {
                        v = undef_of(t);
                    }
                    let b = self.o(b);
                    fn ins(v: V, idx: &[u32], b: V) -> V {
                        if idx.is_empty() {
                            return b;
                        }
                        match v {
                            V::A(mut x) => {
                                let m = Arc::make_mut(&mut x);
                                let old = std::mem::replace(&mut m[idx[0] as usize], V::U);
                                m[idx[0] as usize] = ins(old, &idx[1..], b);
                                V::A(x)
                            }
                            o => o,
                        }
                    }
                    let v = ins(v, idx, b);
                    self.set(dst, v);
                }
                I::ExtractElem(a, i) => {
                    let i = self.o(i);
                    let i = self.conc_v(&i, "vector index")? as usize;
                    let v = match self.o(a) {
                        V::A(x) => x.get(i).cloned().unwrap_or(V::U),
                        _ => V::U,
                    };
                    self.set(dst, v);
                }
                I::InsertElem(a, b, i, n) => {
                    let i = self.o(i);
                    let i = self.conc_v(&i, "vector index")? as usize;
                    let mut x = match self.o(a) {
                        V::A(x) => (*x).clone(),
                        _ => vec![V::U; *n as usize],
                    };
                    x[i] = self.o(b);
                    self.set(dst, V::A(Arc::new(x)));
                }
                I::Shuffle(a, b, mk, n) => {
                    let get = |v: V| match v {
                        V::A(x) => (*x).clone(),
                        _ => vec![V::U; *n as usize],
                    };
                    let (a, b) = (get(self.o(a)), get(self.o(b)));
                    let r = mk
                        .iter()
                        .map(|&k| {
                            if k < 0 {
                                V::U
                            } else if (k as usize) < a.len() {
                                a[k as usize].clone()
                            } else {
                                b[k as usize - a.len()].clone()
                            }
                        })
                        .collect();
                    self.set(dst, V::A(Arc::new(r)));
                }
                I::Freeze(a, t) => {
                    let a = self.o(a);
                    let v = self.freeze(a, t);
                    self.set(dst, v);
                }
                I::Nop => {}
                I::Unsup(s) => return self.err(format!("unsupported instruction: {}", s)),
            }
        }
    }
    fn freeze(&mut self, v: V, t: &Ty) -> V {
        match (v, t) {
            (V::U, Ty::Int(w) | Ty::F(w)) => {
                // an arbitrary but fixed value; zero-extension of fresh bytes, not tracked as undefined
                let e = self.fresh_undef(*w);
                let s: Vec<u16> = self.ar.support(e).to_vec();
                for v in s {
                    self.ar.undef_vars.remove(&v);
                }
                V::E(e)
            }
            (v, _) => v,
        }
    }
    fn select(&mut self, c: E, a: V, b: V, t: &Ty) -> R<V> {
        match (a, b, t) {
            (V::U, V::U, _) => Ok(V::U),
            (a @ (V::C(_) | V::E(_) | V::U), b @ (V::C(_) | V::E(_) | V::U), Ty::Int(w) | Ty::F(w)) => {
                if matches!(a, V::U) || matches!(b, V::U) {
                    // keep the defined side only where it is selected
                    let d = self.branch(c)?;
                    return Ok(if d { a } else { b });
                }
                let (x, y) = (self.to_e(&a, *w), self.to_e(&b, *w));
                let r = self.ar.ite(c, x, y);
                Ok(self.mkv(r))
            }
            (a, b, _) => {
                let d = self.branch(c)?;
                Ok(if d { a } else { b })
            }
        }
    }
    fn gep(&mut self, b: V, off: i64, idx: &[(O, u16, i64)]) -> R<V> {
        let pw = self.m.ptr_w;
        let mut conc = match &b {
            V::C(x) => Some((*x).wrapping_add(off as i128 as u128)),
            _ => None,
        };
        if let Some(mut x) = conc {
            let mut ok = true;
            for (o, w, s) in idx {
                match self.o(o) {
                    V::C(i) => x = x.wrapping_add((sext128(i, *w).wrapping_mul(*s as i128)) as u128),
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Ok(V::C(x & mask(pw)));
            }
            conc = None;
        }
        let _ = conc;
        if matches!(b, V::U) {
            return Ok(V::U);
        }
        let mut r = self.to_e(&b, pw);
        let k = self.ar.cst(pw, off as i128 as u128);
        r = self.ar.add(r, k);
        for (o, w, s) in idx {
            let v = self.o(o);
            if matches!(v, V::U) {
                return Ok(V::U);
            }
            let mut e = self.to_e(&v, *w);
            if *w < pw {
                e = self.ar.sext(e, pw);
            } else if *w > pw {
                e = self.ar.extract(e, 0, pw);
            }
            let sc = self.ar.cst(pw, *s as i128 as u128);
            let p = self.ar.mul(e, sc);
            r = self.ar.add(r, p);
        }
        Ok(self.mkv(r))
    }
    fn bin(&mut self, op: Bin, w: u16, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let o = match op {
                Bin::Add => return Ok(V::C(x.wrapping_add(*y) & mask(w))),
                Bin::Sub => return Ok(V::C(x.wrapping_sub(*y) & mask(w))),
                Bin::And => return Ok(V::C(x & y)),
                Bin::Or => return Ok(V::C(x | y)),
                Bin::Xor => return Ok(V::C(x ^ y)),
                Bin::Mul => Op::Mul,
                Bin::UDiv => Op::UDiv,
                Bin::SDiv => Op::SDiv,
                Bin::URem => Op::URem,
                Bin::SRem => Op::SRem,
                Bin::Shl => Op::Shl,
                Bin::LShr => Op::LShr,
                Bin::AShr => Op::AShr,
                Bin::FAdd => Op::FAdd,
                Bin::FSub => Op::FSub,
                Bin::FMul => Op::FMul,
                Bin::FDiv => Op::FDiv,
                Bin::FRem => {
                    return Ok(V::C(if w == 32 {
                        (f32::from_bits(*x as u32) % f32::from_bits(*y as u32)).to_bits() as u128
                    } else {
                        (f64::from_bits(*x as u64) % f64::from_bits(*y as u64)).to_bits() as u128
                    }))
                }
            };
            if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) && *y == 0 {
                return self.vio("ub", "division by zero".into());
            }
            return Ok(V::C(apply(o, w, 0, w, *x, w, *y, 0)));
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            match (op, a, b) {
                (Bin::And, V::C(0), _) | (Bin::And, _, V::C(0)) => return Ok(V::C(0)),
                // some bits of the result may be defined
                (Bin::And | Bin::Or | Bin::Shl | Bin::LShr, V::C(_) | V::E(_), _) | (Bin::And | Bin::Or | Bin::Shl | Bin::LShr, _, V::C(_) | V::E(_)) => {
                    if matches!(op, Bin::Shl | Bin::LShr) && matches!(b, V::U) {
                        return Ok(V::U);
                    }
                }
                _ => return Ok(V::U),
            }
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let ar = &mut self.ar;
        let r = match op {
            Bin::Add => ar.add(x, y),
            Bin::Sub => ar.sub(x, y),
            Bin::Mul => ar.mul(x, y),
            Bin::UDiv => ar.udiv(x, y),
            Bin::SDiv => ar.sdiv(x, y),
            Bin::URem => ar.urem(x, y),
            Bin::SRem => ar.srem(x, y),
            Bin::Shl => ar.shl(x, y),
            Bin::LShr => ar.lshr(x, y),
            Bin::AShr => ar.ashr(x, y),
            Bin::And => ar.and(x, y),
            Bin::Or => ar.or(x, y),
            Bin::Xor => ar.xor(x, y),
            Bin::FAdd => ar.raw2(Op::FAdd, w, x, y),
            Bin::FSub => ar.raw2(Op::FSub, w, x, y),
            Bin::FMul => ar.raw2(Op::FMul, w, x, y),
            Bin::FDiv => ar.raw2(Op::FDiv, w, x, y),
            Bin::FRem => {
                let one = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
                if ar.cval(y) != Some(one) {
                    return self.err("symbolic frem");
                }
                // the fraction: exact, with the sign of the value
                let t = ar.round(0, x);
                let d = ar.raw2(Op::FSub, w, x, t);
                let s = ar.extract(x, w - 1, 1);
                let m = ar.extract(d, 0, w - 1);
                ar.concat(s, m)
            }
        };
        Ok(self.mkv(r))
    }
    fn icmp(&mut self, p: i32, w: u16, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            let r = match p {
                32 => x == y,
                33 => x != y,
                34 => x > y,
                35 => x >= y,
                36 => x < y,
                37 => x <= y,
                38 => sx > sy,
                39 => sx >= sy,
                40 => sx < sy,
                _ => sx <= sy,
            };
            return Ok(V::C(r as u128));
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::U);
        }
        if matches!(a, V::A(_)) || matches!(b, V::A(_)) {
            return self.err("icmp of aggregates");
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let ar = &mut self.ar;
        let r = match p {
            32 => ar.eq(x, y),
            33 => ar.ne(x, y),
            34 => ar.ult(y, x),
            35 => ar.ule(y, x),
            36 => ar.ult(x, y),
            37 => ar.ule(x, y),
            38 => ar.slt(y, x),
            39 => ar.sle(y, x),
            40 => ar.slt(x, y),
            _ => ar.sle(x, y),
        };
        Ok(self.mkv(r))
    }
    fn fcmp(&mut self, p: i32, w: u16, a: &V, b: &V) -> R<V> {
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::U);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let ar = &mut self.ar;
        let r = match p & 7 {
            0 => 0,
            1 => ar.raw2(Op::FOeq, 1, x, y),
            2 => ar.raw2(Op::FOlt, 1, y, x),
            3 => ar.raw2(Op::FOle, 1, y, x),
            4 => ar.raw2(Op::FOlt, 1, x, y),
            5 => ar.raw2(Op::FOle, 1, x, y),
            6 => {
                let a = ar.raw2(Op::FOlt, 1, x, y);
                let b = ar.raw2(Op::FOlt, 1, y, x);
                ar.or(a, b)
            }
            _ => {
                let u = ar.raw2(Op::FUno, 1, x, y);
                ar.not(u)
            }
        };
        // unordered predicates are "uno or ordered predicate"
        let r = match p {
            0 => 0,
            15 => 1,
            8 => ar.raw2(Op::FUno, 1, x, y),
            9..=14 => {
                let u = ar.raw2(Op::FUno, 1, x, y);
                ar.or(u, r)
            }
            _ => r,
        };
        Ok(self.mkv(r))
    }
    fn cast(&mut self, k: Cast, fw: u16, tw: u16, a: &V) -> R<V> {
        match a {
            V::U if k == Cast::ZExt && tw > fw => {
                let x = self.fresh_undef(fw);
                let r = self.ar.zext(x, tw);
                return Ok(self.mkv(r));
            }
            V::U => return Ok(V::U),
            V::C(x) => {
                let x = *x;
                let r = match k {
                    Cast::Trunc | Cast::ZExt | Cast::Bit => x & mask(tw),
                    Cast::SExt => sext128(x, fw) as u128 & mask(tw),
                    Cast::UToF => apply(Op::UToF, tw, 0, fw, x, 0, 0, 0),
                    Cast::SToF => apply(Op::SToF, tw, 0, fw, x, 0, 0, 0),
                    Cast::FTrunc | Cast::FExt => apply(Op::FConv, tw, 0, fw, x, 0, 0, 0),
                    Cast::FToS => apply(Op::FToS, tw, 0, fw, x, 0, 0, 0),
                    Cast::FToU => apply(Op::FToU, tw, 0, fw, x, 0, 0, 0),
                };
                return Ok(V::C(r));
            }
            _ => {}
        }
        let x = self.to_e(a, fw);
        let ar = &mut self.ar;
        let r = match k {
            Cast::Trunc => ar.extract(x, 0, tw),
            Cast::ZExt => ar.zext(x, tw),
            Cast::SExt => ar.sext(x, tw),
            Cast::Bit => x,
            Cast::UToF => ar.int_to_float(false, tw, x),
            Cast::SToF => ar.int_to_float(true, tw, x),
            Cast::FTrunc | Cast::FExt => ar.raw1(Op::FConv, tw, x),
            Cast::FToS => ar.raw1(Op::FToS, tw, x),
            Cast::FToU => ar.raw1(Op::FToU, tw, x),
        };
        Ok(self.mkv(r))
    }
    fn bitcast(&mut self, ft: &Ty, tt: &Ty, v: V) -> R<V> {
        match (ft, tt) {
            (Ty::Int(_) | Ty::F(_), Ty::Int(_) | Ty::F(_)) => Ok(v),
            (Ty::Vec(e, n), Ty::Int(w) | Ty::F(w)) => {
                let ew = match **e {
                    Ty::Int(w) | Ty::F(w) => w,
                    _ => return self.err("bitcast"),
                };
                let V::A(a) = v else { return Ok(V::U) };
                if a.iter().all(|x| matches!(x, V::C(_))) {
                    let mut r = 0u128;
                    for (i, x) in a.iter().enumerate() {
                        if let V::C(x) = x {
                            r |= (x & mask(ew)) << (i as u32 * ew as u32);
                        }
                    }
                    return Ok(V::C(r & mask(*w)));
                }
                let mut r: Option<E> = None;
                for x in a.iter().take(*n as usize) {
                    let e = self.to_e(x, ew);
                    r = Some(match r {
                        None => e,
                        Some(q) => self.ar.concat(e, q),
                    });
                }
                Ok(self.mkv(r.unwrap()))
            }
            (Ty::Int(_) | Ty::F(_), Ty::Vec(e, n)) => {
                let ew = match **e {
                    Ty::Int(w) | Ty::F(w) => w,
                    _ => return self.err("bitcast"),
                };
                let mut r = vec![];
                for i in 0..*n as u16 {
                    r.push(match &v {
                        V::C(x) => V::C((x >> (i * ew)) & mask(ew)),
                        V::E(e) => {
                            let t = self.ar.extract(*e, i * ew, ew);
                            self.mkv(t)
                        }
                        _ => V::U,
                    });
                }
                Ok(V::A(Arc::new(r)))
            }
            (Ty::Vec(..), Ty::Vec(e, n)) => {
                let tw = match **e {
                    Ty::Int(w) | Ty::F(w) => w,
                    _ => return self.err("bitcast"),
                } * *n as u16;
                if tw > 128 {
                    return self.err("wide vector bitcast");
                }
                let mid = Ty::Int(tw);
                let x = self.bitcast(ft, &mid, v)?;
                self.bitcast(&mid, tt, x)
            }
            _ => self.err("bitcast"),
        }
    }

    // ------------------------------------------------------------ externals
    fn ext(&mut self, it: &Intr, k: u32, a: &[V], tys: &[Ty], rt: &Ty) -> R<Option<V>> {
        use Intr::*;
        let width0 = match tys.first() {
            Some(Ty::Int(w) | Ty::F(w)) => *w,
            Some(Ty::Vec(e, _)) => match **e {
                Ty::Int(w) | Ty::F(w) => w,
                _ => 0,
            },
            _ => 0,
        };
        // elementwise application of scalar intrinsics to vectors
        if let (Some(Ty::Vec(e, n)), Bin(_) | Un(_) | Fsh(_)) = (tys.first(), it) {
            let mut r = vec![];
            let st: Vec<Ty> = tys.iter().map(|t| if let Ty::Vec(..) = t { (**e).clone() } else { t.clone() }).collect();
            for i in 0..*n as usize {
                let ai: Vec<V> = a
                    .iter()
                    .map(|v| match v {
                        V::A(x) => x[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                r.push(self.ext(it, k, &ai, &st, e)?.unwrap());
            }
            return Ok(Some(V::A(Arc::new(r))));
        }
        match it {
            Memcpy | Memmove => {
                let n = self.conc_v(&a[2], "copy length")?;
                if n > 0 {
                    let d = self.conc_v(&a[0], "copy destination")?;
                    let s = self.conc_v(&a[1], "copy source")?;
                    let b = self.read_bytes(s, n)?;
                    self.write_bytes(d, &b)?;
                }
                Ok(Some(a[0].clone()))
            }
            Memset => {
                let n = self.conc_v(&a[2], "memset length")?;
                if n > 0 {
                    let d = self.conc_v(&a[0], "memset destination")?;
                    let x = match &a[1] {
                        V::C(x) => (*x & 0xff) as u32,
                        V::U => UNINIT,
                        V::E(e) => {
                            let e = self.ar.extract(*e, 0, 8);
                            match self.ar.cval(e) {
                                Some(c) => c as u32,
                                None => e + 257,
                            }
                        }
                        _ => return self.err("memset"),
                    };
                    if n > (64 << 20) {
                        return self.vio("memory", format!("memset of {} bytes", n));
                    }
                    self.write_bytes(d, &vec![x; n as usize])?;
                }
                Ok(Some(a[0].clone()))
            }
            Memcmp | Bcmp | SymEq => {
                let n = self.conc_v(&a[2], "compare length")?;
                let w = match rt {
                    Ty::Int(w) => *w,
                    _ => 32,
                };
                let eqv = |b: bool| -> V { V::C(if *it == SymEq { b as u128 } else { !b as u128 }) };
                if n == 0 {
                    return Ok(Some(eqv(true)));
                }
                let p = self.conc_v(&a[0], "compare address")?;
                let q = self.conc_v(&a[1], "compare address")?;
                let x = self.read_bytes(p, n)?;
                let y = self.read_bytes(q, n)?;
                if x.iter().chain(y.iter()).any(|&b| b == UNINIT) {
                    return self.vio("uninit", "comparison of uninitialised memory".into());
                }
                if *it == Memcmp {
                    let (one, mone, mut r) = (self.ar.cst(w, 1), self.ar.cst(w, u128::MAX), self.ar.cst(w, 0));
                    for i in (0..n as usize).rev() {
                        let (u, v) = (self.byte_e(x[i]), self.byte_e(y[i]));
                        let e = self.ar.eq(u, v);
                        let l = self.ar.ult(u, v);
                        let d = self.ar.ite(l, mone, one);
                        r = self.ar.ite(e, r, d);
                    }
                    return Ok(Some(self.mkv(r)));
                }
                let mut r = 1;
                let mut i = 0;
                while i < n as usize {
                    if x[i] == y[i] {
                        i += 1;
                        continue;
                    }
                    if *it == SymEq {
                        if let Some((s, e)) = self.eq_numbers(&x[i..], &y[i..]) {
                            r = self.ar.and(r, e);
                            i += s;
                            continue;
                        }
                    }
                    let (u, v) = (self.byte_e(x[i]), self.byte_e(y[i]));
                    i += 1;
                    let e = self.ar.eq(u, v);
                    r = self.ar.and(r, e);
                }
                if *it == SymEq {
                    return Ok(Some(self.mkv(r)));
                }
                let (one, zero) = (self.ar.cst(w, 1), self.ar.cst(w, 0));
                let v = self.ar.ite(r, zero, one);
                Ok(Some(self.mkv(v)))
            }
            Strlen => self.err("strlen"),
            LifeStart | LifeEnd => {
                let p = a.last().unwrap();
                if let V::C(p) = p {
                    if let Ok((oi, 0)) = self.find(*p as u64, 0) {
                        if self.objs[oi].kind == Kind::Stack {
                            let n = self.objs[oi].size as usize;
                            self.objs[oi].data = Data::Own(vec![UNINIT; n]);
                        }
                    }
                }
                Ok(None)
            }
            Assume => {
                if let V::C(0) = a[0] {
                    return self.vio("ub", "violated llvm.assume".into());
                }
                if let V::E(c) = a[0] {
                    // an optimiser assumption derived from the source (e.g. assert_unchecked)
                    if self.pos >= self.dec.len() {
                        let nc = self.ar.not(c);
                        if let Some(u) = self.feasible(nc, false)? {
                            if !self.ar.is_undef(c) {
                                let mut m = self.model.clone();
                                for (v, x) in u {
                                    m[v as usize] = x;
                                }
                                return Err(End::Violation(self.violation("ub", "violated assumption (undefined behaviour)".into(), &m)));
                            }
                        }
                    }
                }
                Ok(None)
            }
            Expect | SymEngine if *it == Expect => Ok(Some(a[0].clone())),
            Expect => Ok(Some(a[0].clone())),
            Bin(n) => {
                let w = width0;
                if a.iter().any(|v| matches!(v, V::U)) {
                    return Ok(Some(V::U));
                }
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let ar = &mut self.ar;
                let r = match *n {
                    "umax" => {
                        let c = ar.ult(x, y);
                        ar.ite(c, y, x)
                    }
                    "umin" => {
                        let c = ar.ult(x, y);
                        ar.ite(c, x, y)
                    }
                    "smax" => {
                        let c = ar.slt(x, y);
                        ar.ite(c, y, x)
                    }
                    "smin" => {
                        let c = ar.slt(x, y);
                        ar.ite(c, x, y)
                    }
                    "uadd.sat" => {
                        let s = ar.add(x, y);
                        let o = ar.ult(s, x);
                        let m = ar.cst(w, u128::MAX);
                        ar.ite(o, m, s)
                    }
                    "usub.sat" => {
                        let s = ar.sub(x, y);
                        let o = ar.ult(x, y);
                        let z = ar.cst(w, 0);
                        ar.ite(o, z, s)
                    }
                    "sadd.sat" | "ssub.sat" => {
                        let (p, q) = (ar.sext(x, w + 1), ar.sext(y, w + 1));
                        let s = if *n == "sadd.sat" { ar.add(p, q) } else { ar.sub(p, q) };
                        let t = ar.extract(s, 0, w);
                        let b = ar.sext(t, w + 1);
                        let ok = ar.eq(b, s);
                        let neg = ar.extract(s, w, 1);
                        let (mn, mx) = (ar.cst(w, 1u128 << (w - 1)), ar.cst(w, mask(w) >> 1));
                        let sat = ar.ite(neg, mn, mx);
                        ar.ite(ok, t, sat)
                    }
                    "ucmp" | "scmp" => {
                        let rw = match rt {
                            Ty::Int(w) => *w,
                            _ => return self.err("cmp type"),
                        };
                        let lt = if *n == "ucmp" { ar.ult(x, y) } else { ar.slt(x, y) };
                        let eq = ar.eq(x, y);
                        let (m1, z, one) = (ar.cst(rw, u128::MAX), ar.cst(rw, 0), ar.cst(rw, 1));
                        let r = ar.ite(eq, z, one);
                        ar.ite(lt, m1, r)
                    }
                    _ => return self.err("bin intrinsic"),
                };
                Ok(Some(self.mkv(r)))
            }
            Ovf(n) => {
                let w = width0;
                if a.iter().any(|v| matches!(v, V::U)) {
                    return Ok(Some(V::A(Arc::new(vec![V::U, V::U]))));
                }
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let ar = &mut self.ar;
                let (v, o) = match *n {
                    "uadd" => {
                        let s = ar.add(x, y);
                        let (xm, ym) = (ar.n[x as usize].umax, ar.n[y as usize].umax);
                        let o = if xm.checked_add(ym).map_or(false, |t| t <= mask(w)) {
                            0
                        } else if ar.n[x as usize].umin.checked_add(ar.n[y as usize].umin).map_or(true, |t| t > mask(w)) {
                            1
                        } else if let Some(c) = ar.cval(y) {
                            let k = ar.cst(w, mask(w) - c);
                            ar.ult(k, x)
                        } else if let Some(c) = ar.cval(x) {
                            let k = ar.cst(w, mask(w) - c);
                            ar.ult(k, y)
                        } else {
                            ar.ult(s, x)
                        };
                        (s, o)
                    }
                    "usub" => (ar.sub(x, y), ar.ult(x, y)),
                    "umul" => {
                        let p = ar.mul(x, y);
                        let (xm, ym) = (ar.n[x as usize].umax, ar.n[y as usize].umax);
                        let o = if xm.checked_mul(ym).map_or(false, |t| t <= mask(w)) {
                            0
                        } else if let Some(c) = ar.cval(y).or(ar.cval(x)) {
                            let z = if ar.is_const(y) { x } else { y };
                            if c == 0 {
                                0
                            } else {
                                let k = ar.cst(w, mask(w) / c);
                                ar.ult(k, z)
                            }
                        } else if w <= 64 {
                            let (p, q) = (ar.zext(x, 2 * w), ar.zext(y, 2 * w));
                            let pr = ar.mul(p, q);
                            let hi = ar.extract(pr, w, w);
                            let z = ar.cst(w, 0);
                            ar.ne(hi, z)
                        } else {
                            return self.err("umul.with.overflow on wide symbolic values");
                        };
                        (p, o)
                    }
                    "sadd" | "ssub" => {
                        let v = if *n == "sadd" { ar.add(x, y) } else { ar.sub(x, y) };
                        match ar.sovf(if *n == "sadd" { Op::Add } else { Op::Sub }, x, y) {
                            Some(o) => (v, o as E),
                            None => {
                                let (p, q) = (ar.sext(x, w + 1), ar.sext(y, w + 1));
                                let s = if *n == "sadd" { ar.add(p, q) } else { ar.sub(p, q) };
                                let b = ar.sext(v, w + 1);
                                (v, ar.ne(b, s))
                            }
                        }
                    }
                    _ => {
                        if w > 64 {
                            return self.err("smul.with.overflow");
                        }
                        let v = ar.mul(x, y);
                        let (c, z) = if ar.is_const(y) { (ar.cval(y), x) } else { (ar.cval(x), y) };
                        if let Some(o) = ar.sovf(Op::Mul, x, y) {
                            (v, o as E)
                        } else if let Some(c) = c.filter(|c| *c > 0 && *c <= mask(w) / 2) {
                            // above MAX/c or below MIN/c
                            let hi = ar.cst(w, (mask(w) / 2) / c);
                            let lo = ar.cst(w, (((mask(w) / 2 + 1) / c) as i128).wrapping_neg() as u128);
                            let (p, q) = (ar.slt(hi, z), ar.slt(z, lo));
                            (v, ar.or(p, q))
                        } else {
                            let (p, q) = (ar.sext(x, 2 * w), ar.sext(y, 2 * w));
                            let s = ar.mul(p, q);
                            let b = ar.sext(v, 2 * w);
                            (v, ar.ne(b, s))
                        }
                    }
                };
                let r = V::A(Arc::new(vec![self.mkv(v), self.mkv(o)]));
                Ok(Some(r))
            }
            Un(n) => {
                let w = width0;
                let v = match &a[0] {
                    V::U => return Ok(Some(V::U)),
                    V::C(x) => {
                        let x = *x;
                        V::C(match *n {
                            "ctpop" => x.count_ones() as u128,
                            "ctlz" => (x.leading_zeros() as u128) - (128 - w as u128),
                            "cttz" => {
                                if x == 0 {
                                    w as u128
                                } else {
                                    x.trailing_zeros() as u128
                                }
                            }
                            "bswap" => x.swap_bytes() >> (128 - w),
                            "bitreverse" => x.reverse_bits() >> (128 - w),
                            _ => {
                                if sext128(x, w) < 0 {
                                    x.wrapping_neg() & mask(w)
                                } else {
                                    x
                                }
                            }
                        })
                    }
                    v => {
                        let x = self.to_e(v, w);
                        let ar = &mut self.ar;
                        let r = match *n {
                            "bswap" => {
                                let mut r = ar.extract(x, 0, 8);
                                for i in 1..w / 8 {
                                    let b = ar.extract(x, 8 * i, 8);
                                    r = ar.concat(r, b);
                                }
                                r
                            }
                            "bitreverse" => {
                                let mut r = ar.extract(x, 0, 1);
                                for i in 1..w {
                                    let b = ar.extract(x, i, 1);
                                    r = ar.concat(r, b);
                                }
                                r
                            }
                            "ctpop" => {
                                let mut r = ar.cst(w, 0);
                                for i in 0..w {
                                    let b = ar.extract(x, i, 1);
                                    let b = ar.zext(b, w);
                                    r = ar.add(r, b);
                                }
                                r
                            }
                            "ctlz" => {
                                let mut r = ar.cst(w, w as u128);
                                for i in 0..w {
                                    let b = ar.extract(x, i, 1);
                                    let k = ar.cst(w, (w - 1 - i) as u128);
                                    r = ar.ite(b, k, r);
                                }
                                r
                            }
                            "cttz" => {
                                let mut r = ar.cst(w, w as u128);
                                for i in (0..w).rev() {
                                    let b = ar.extract(x, i, 1);
                                    let k = ar.cst(w, i as u128);
                                    r = ar.ite(b, k, r);
                                }
                                r
                            }
                            _ => {
                                let s = ar.extract(x, w - 1, 1);
                                let g = ar.neg(x);
                                ar.ite(s, g, x)
                            }
                        };
                        self.mkv(r)
                    }
                };
                Ok(Some(v))
            }
            Fsh(left) => {
                let w = width0;
                if a.iter().any(|v| matches!(v, V::U)) {
                    return Ok(Some(V::U));
                }
                let s = match &a[2] {
                    V::C(s) => (*s % w as u128) as u16,
                    _ => return self.err("funnel shift by symbolic amount"),
                };
                let (hi, lo) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let ar = &mut self.ar;
                // result = bits of concat(hi, lo)
                let r = if *left {
                    if s == 0 {
                        hi
                    } else {
                        let h = ar.extract(hi, 0, w - s);
                        let l = ar.extract(lo, w - s, s);
                        ar.concat(h, l)
                    }
                } else if s == 0 {
                    lo
                } else {
                    let h = ar.extract(hi, 0, s);
                    let l = ar.extract(lo, s, w - s);
                    ar.concat(h, l)
                };
                Ok(Some(self.mkv(r)))
            }
            FUn("fabs") => {
                let w = width0;
                Ok(Some(match &a[0] {
                    V::C(x) => V::C(x & (mask(w) >> 1)),
                    V::E(e) => {
                        let k = self.ar.cst(w, mask(w) >> 1);
                        let r = self.ar.and(*e, k);
                        self.mkv(r)
                    }
                    _ => V::U,
                }))
            }
            FUn(n) => {
                let mode = match *n {
                    "trunc" => Some(0),
                    "floor" => Some(1),
                    "ceil" => Some(2),
                    "round" => Some(4),
                    "sqrt" => None,
                    _ => Some(3),
                };
                let x = match (&a[0], mode) {
                    (V::C(x), _) => *x,
                    (V::E(e), Some(m)) => {
                        let r = self.ar.round(m, *e);
                        return Ok(Some(self.mkv(r)));
                    }
                    _ => return self.err("symbolic fp intrinsic"),
                };
                let g = |v: f64| -> f64 {
                    match *n {
                        "floor" => v.floor(),
                        "ceil" => v.ceil(),
                        "trunc" => v.trunc(),
                        "round" => v.round(),
                        "sqrt" => v.sqrt(),
                        _ => v.round_ties_even(),
                    }
                };
                Ok(Some(V::C(if width0 == 32 {
                    (g(f32::from_bits(x as u32) as f64) as f32).to_bits() as u128
                } else {
                    g(f64::from_bits(x as u64)).to_bits() as u128
                })))
            }
            FBin("copysign") => {
                let w = width0;
                if a.iter().any(|v| matches!(v, V::U)) {
                    return Ok(Some(V::U));
                }
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let s = self.ar.extract(y, w - 1, 1);
                let l = self.ar.extract(x, 0, w - 1);
                let r = self.ar.concat(s, l);
                Ok(Some(self.mkv(r)))
            }
            FToSat(s) => {
                let (tw, fw) = (
                    match rt {
                        Ty::Int(w) => *w,
                        _ => return self.err("fptoint.sat"),
                    },
                    width0,
                );
                match &a[0] {
                    V::C(x) => Ok(Some(V::C(apply(if *s { Op::FToS } else { Op::FToU }, tw, 0, fw, *x, 0, 0, 0)))),
                    V::E(e) => {
                        let (e, op) = (*e, if *s { Op::FToS } else { Op::FToU });
                        let bits = |v: f64| if fw == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                        let top = (tw - if *s { 1 } else { 0 }) as i32;
                        let (lo, hi) = (if *s { -(2f64.powi(top)) } else { 0.0 }, 2f64.powi(top));
                        let (min, max) = if *s { (1u128 << (tw - 1), mask(tw) >> 1) } else { (0, mask(tw)) };
                        let ar = &mut self.ar;
                        let (l, h) = (ar.cst(fw, bits(lo)), ar.cst(fw, bits(hi)));
                        let (zero, min, max) = (ar.cst(tw, 0), ar.cst(tw, min), ar.cst(tw, max));
                        let r = ar.raw1(op, tw, e);
                        let over = ar.raw2(Op::FOle, 1, h, e);
                        let r = ar.ite(over, max, r);
                        let under = ar.raw2(Op::FOle, 1, e, l);
                        let r = ar.ite(under, min, r);
                        let nan = ar.raw2(Op::FUno, 1, e, e);
                        let r = ar.ite(nan, zero, r);
                        Ok(Some(self.mkv(r)))
                    }
                    _ => Ok(Some(V::U)),
                }
            }
            Reduce(n) => {
                let V::A(x) = &a[0] else { return self.err("reduce") };
                let w = match rt {
                    Ty::Int(w) => *w,
                    _ => return self.err("reduce"),
                };
                let mut r = self.to_e(&x[0].clone(), w);
                for v in &x[1..] {
                    let e = self.to_e(v, w);
                    let ar = &mut self.ar;
                    r = match *n {
                        "or" => ar.or(r, e),
                        "and" => ar.and(r, e),
                        "add" => ar.add(r, e),
                        "xor" => ar.xor(r, e),
                        "umax" => {
                            let c = ar.ult(r, e);
                            ar.ite(c, e, r)
                        }
                        _ => {
                            let c = ar.ult(r, e);
                            ar.ite(c, r, e)
                        }
                    };
                }
                Ok(Some(self.mkv(r)))
            }
            IsConstant => Ok(Some(V::C(0))),
            Ptrmask => {
                let w = width0;
                let v = self.bin(crate::ir::Bin::And, w, &a[0], &a[1])?;
                Ok(Some(v))
            }
            LoadRel => {
                let p = self.conc_v(&a[0], "load.relative")?;
                let o = self.conc_v(&a[1], "load.relative")?;
                let v = self.load_at(p.wrapping_add(o), &Ty::Int(32))?;
                let v = self.conc_v(&v, "load.relative")?;
                match self.m.rel.get(v.wrapping_sub(crate::ir::REL_BASE) as usize) {
                    Some(d) => Ok(Some(V::C(p.wrapping_add(*d) as u128))),
                    None => self.err("load.relative"),
                }
            }
            StackSave => Ok(Some(V::C(0))),
            Trap => self.vio("panic", "trap".into()),
            // ---------------- harness interface
            SymBytes => {
                let p = self.conc_v(&a[0], "sym_bytes")?;
                let n = self.conc_v(&a[1], "sym_bytes")?;
                let mut b = vec![];
                for _ in 0..n {
                    let v = self.new_var();
                    self.inputs.push(v);
                    let e = self.ar.var(v);
                    b.push(e + 257);
                }
                self.write_bytes(p, &b)?;
                Ok(None)
            }
            SymAssume => {
                match &a[0] {
                    V::C(x) => {
                        if x & 1 == 0 {
                            return Err(End::Assumed);
                        }
                    }
                    V::E(c) => {
                        let c = *c;
                        if self.pos < self.dec.len() {
                            self.add(c);
                        } else {
                            match self.feasible(c, false)? {
                                None => return Err(End::Assumed),
                                Some(u) => {
                                    self.set_model(&u);
                                    self.add(c);
                                }
                            }
                        }
                    }
                    _ => return self.vio("uninit", "assume on uninitialised value".into()),
                }
                Ok(None)
            }
            SymKnown => {
                let (V::E(x), V::C(hi)) = (&a[0], &a[1]) else { return Ok(Some(a[0].clone())) };
                let (x, hi) = (*x, *hi & 0xff);
                let k = self.ar.cst(self.ar.w(x), hi);
                let over = self.ar.ult(k, x);
                if self.feasible(over, false)?.is_some() {
                    return self.vio("assert", "sym_known: not known".into());
                }
                let e = self.ar.known_at_most(x, hi);
                Ok(Some(V::E(e)))
            }
            SymAssert => {
                let id = match a.get(1) {
                    Some(V::C(x)) => *x as u32,
                    _ => 0,
                };
                if self.pos >= self.dec.len() {
                    self.st.asserts += 1;
                }
                match &a[0] {
                    V::C(x) => {
                        if self.pos >= self.dec.len() {
                            self.st.assert_trivial += 1;
                        }
                        if x & 1 == 0 {
                            let mut v = self.violation("assert", format!("assertion at harness line {}", id), &self.model);
                            v.site = format!("line {}", id);
                            return Err(End::Violation(v));
                        }
                    }
                    V::E(c) => {
                        let c = *c;
                        // already checked when the prefix was first executed
                        if self.pos >= self.dec.len() {
                            self.st.assert_queries += 1;
                            let nc = self.ar.not(c);
                            if self.ar.is_undef(c) {
                                return self.vio("uninit", format!("assertion at harness line {} depends on uninitialised memory", id));
                            }
                            if let Some(u) = self.feasible(nc, true)? {
                                let mut m = self.model.clone();
                                for (v, x) in u {
                                    m[v as usize] = x;
                                }
                                let mut v = self.violation("assert", format!("assertion at harness line {}", id), &m);
                                v.site = format!("line {}", id);
                                self.report(v);
                                match self.feasible(c, false)? {
                                    None => return Err(End::Assumed),
                                    Some(u) => {
                                        self.set_model(&u);
                                        self.add(c);
                                    }
                                }
                            }
                        }
                    }
                    _ => return self.vio("uninit", format!("assertion at harness line {} on uninitialised value", id)),
                }
                Ok(None)
            }
            SymCover => {
                if let V::C(x) = &a[0] {
                    if !self.covers.contains(&(*x as u32)) {
                        self.covers.push(*x as u32);
                    }
                }
                Ok(None)
            }
            SymEmit => {
                self.emits.push(a[0].clone());
                Ok(None)
            }
            SymPanic => {
                // (file ptr, file len, line)
                let mut msg = "panic".to_string();
                if a.len() >= 3 {
                    if let (V::C(p), V::C(n), V::C(line)) = (&a[0], &a[1], &a[2]) {
                        if let Ok(b) = self.read_bytes(*p as u64, *n as u64) {
                            let s: String = b.iter().map(|&x| if x < 256 { x as u8 as char } else { '?' }).collect();
                            let mut v = self.violation("panic", format!("panic at {}:{}", s, line), &self.model);
                            v.site = format!("{}:{}", s, line);
                            return Err(End::Violation(v));
                        }
                    }
                    msg = "panic at unknown location".into();
                }
                self.vio("panic", msg)
            }
            SymFail => {
                let id = match a.first() {
                    Some(V::C(x)) => *x as u32,
                    _ => 0,
                };
                let mut v = self.violation("assert", format!("failure at harness line {}", id), &self.model);
                v.site = format!("line {}", id);
                Err(End::Violation(v))
            }
            SymConc => {
                let x = self.conc_v(&a[0], "sym_concretize")?;
                Ok(Some(V::C(x as u128)))
            }
            SymAlloc => {
                let n = self.conc_v(&a[0], "allocation size")?;
                if n > (1 << 24) {
                    return Ok(Some(V::C(0)));
                }
                let p = self.alloc(n, Kind::Heap, UNINIT);
                Ok(Some(V::C(p as u128)))
            }
            SymFree => {
                let p = self.conc_v(&a[0], "free")?;
                match self.find(p, 0) {
                    Ok((oi, 0)) if self.objs[oi].kind == Kind::Heap => {
                        self.objs[oi].kind = Kind::Dead;
                        self.objs[oi].data = Data::Own(vec![]);
                        Ok(None)
                    }
                    _ => self.vio("memory", "invalid free".into()),
                }
            }
            SymRealloc => {
                let p = self.conc_v(&a[0], "realloc")?;
                let n = self.conc_v(&a[1], "realloc size")?;
                if n > (1 << 24) {
                    return Ok(Some(V::C(0)));
                }
                match self.find(p, 0) {
                    Ok((oi, 0)) if self.objs[oi].kind == Kind::Heap => {
                        let old = self.bytes(oi).to_vec();
                        let q = self.alloc(n, Kind::Heap, UNINIT);
                        let k = old.len().min(n as usize);
                        self.write_bytes(q, &old[..k])?;
                        self.objs[oi].kind = Kind::Dead;
                        self.objs[oi].data = Data::Own(vec![]);
                        Ok(Some(V::C(q as u128)))
                    }
                    _ => self.vio("memory", "invalid realloc".into()),
                }
            }
            SymEngine => Ok(Some(V::C(1))),
            Fma | ObjectSize | FBin(_) | Unknown => self.err(format!("unsupported external {}", self.m.ext[k as usize])),
        }
    }
}
