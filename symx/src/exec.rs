//! Path-exploring symbolic executor over the parsed LLVM IR.
use crate::expr::{fold_bin, fold_cmp, Arena, Eid};
use crate::ir::*;
use crate::z3::{Sat, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(Eid),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    base: u64,
    size: u64,
    data: Vec<u8>,
    /// empty, or per byte: 0 = concrete, otherwise (eid << 8 | byte index) + 1
    sym: Vec<u64>,
    ro: bool,
}

const HEAP_BASE: u64 = 0x5000_0000;
const STACK_BASE: u64 = 0x7f00_0000_0000;

#[derive(Clone)]
struct Mem {
    heap: Vec<Arc<Obj>>,
    stack: Vec<Arc<Obj>>,
    globals: BTreeMap<usize, Arc<Obj>>,
    heap_next: u64,
    stack_next: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Where {
    Heap(usize),
    Stack(usize),
    Glob(usize),
}

#[derive(Clone)]
struct Frame {
    f: Arc<Func>,
    bb: u32,
    ip: u32,
    regs: Vec<Val>,
    mark: usize,
    mark_next: u64,
    ret_dst: Option<u32>,
    ret_next: Option<u32>,
}

#[derive(Clone)]
struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<Eid>,
    model: Vec<u64>,
    vars: Vec<Eid>,
    vlo: Vec<u64>,
    obs: Vec<Val>,
    binds: Vec<(Eid, u64)>,
    expect_panic: bool,
    steps: u64,
    /// solver decisions taken within the current step
    dec: u32,
    /// replaying a donated state: no queries, no forks before this position
    replay_until: (u64, u32),
    notes: Vec<u32>,
    /// byte with which random hash keys are filled
    seed: u8,
    /// function to run in front of the n-th atomic read-modify-write from now
    irq: Option<(usize, u64)>,
    /// per variable: set of values still possible (variables with at most 64 values; 0 = untracked)
    dom: Vec<u64>,
    /// variables whose domain is a single value
    fixed: u128,
    /// per decision: was the condition added to the path condition (not implied)?
    log: Vec<bool>,
    logpos: usize,
    sig: u64,
}

#[derive(Clone, Debug)]
pub struct Task {
    pub model: Vec<u64>,
    /// replay (no queries, no forks) up to this (step, decision within the step)
    pub pos: (u64, u32),
    pub log: Vec<bool>,
    /// structural signature of the state at `pos`; the replay must reproduce it
    pub sig: u64,
}

#[derive(Clone, Debug)]
pub struct PathRec {
    pub outcome: &'static str, // ok | panic-expected | check | panic | memory | limit | pruned
    pub id: u32,
    pub inputs: Vec<u64>,
    pub obs_hash: u64,
    pub msg: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub expected_panics: u64,
    pub pruned: u64,
    pub forks: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_ns: u64,
    pub steps: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub cache_hits: u64,
    pub max_expr: u32,
    pub max_pc: usize,
    pub branches_sym: u64,
    pub concretizations: u64,
    /// conditions decided by substitution of fixed variables, without a query
    pub folded: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Normal,
    Unknown,
    Panic,
    Var,
    Assume,
    Check,
    Cover,
    Observe,
    Choose,
    ExpectPanic,
    Note,
    Irq,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    GetRandom,
    Syscall,
    Ret0,
    Memcpy,
    Memset,
    OvU(B),
    OvS(B),
    MinMax(P),
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    SatU(B),
    Cmp3(bool),
    Ident,
    False,
    Reduce(B),
    ReduceMM(P),
    LoadRel,
    Float(&'static str),
    Nop,
}

pub struct Shared {
    pub m: Module,
    kinds: Vec<K>,
    ginit: Vec<OnceLock<Arc<Obj>>>,
    pub queue: Mutex<(VecDeque<Task>, usize, bool)>, // tasks, idle workers, done
    pub cv: Condvar,
    pub nthreads: usize,
    pub hungry: AtomicUsize,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub path_limit: u64,
    pub step_limit: u64,
    pub npaths: AtomicU64,
    pub records: Mutex<Vec<PathRec>>,
    pub violations: Mutex<Vec<PathRec>>,
    pub max_viol: usize,
    pub errors: Mutex<Vec<String>>,
    pub timeout: AtomicBool,
    pub covers: Mutex<BTreeMap<u32, u64>>,
    pub notes: Mutex<BTreeMap<u32, u64>>,
    pub stats: Mutex<Stats>,
    pub blocks: Mutex<BTreeSet<(usize, u32)>>,
    pub query_ms: u32,
    pub keep: bool,
}

fn kind_of(m: &Module, i: usize) -> K {
    let f = &m.funcs[i];
    let n = f.name.as_str();
    let n0 = n;
    match n {
        "__sym_var" => return K::Var,
        "__sym_assume" => return K::Assume,
        "__sym_check" => return K::Check,
        "__sym_cover" => return K::Cover,
        "__sym_observe" => return K::Observe,
        "__sym_choose" => return K::Choose,
        "__sym_expect_panic" => return K::ExpectPanic,
        "__sym_note" => return K::Note,
        "__sym_irq" => return K::Irq,
        "malloc" => return K::Malloc,
        "calloc" => return K::Calloc,
        "realloc" => return K::Realloc,
        "free" => return K::Free,
        "posix_memalign" => return K::Memalign,
        "bcmp" => return K::Bcmp,
        "memcmp" => return K::Memcmp,
        "strlen" => return K::Strlen,
        "getrandom" => return K::GetRandom,
        "syscall" => return K::Syscall,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" => return K::Ret0,
        "abort" | "llvm.trap" => return K::Panic,
        "memcpy" | "memmove" => return K::Memcpy,
        "memset" => return K::Memset,
        _ => {}
    }
    if n.contains("rust_begin_unwind") || n.contains("9panicking9panic_fmt") || n.contains("4core9panicking") {
        return K::Panic;
    }
    if f.body.1 > 0 {
        return K::Normal;
    }
    if let Some(n) = n.strip_prefix("llvm.") {
        let pre = |p: &str| n.starts_with(p);
        if pre("memcpy") || pre("memmove") {
            return K::Memcpy;
        }
        if pre("memset") {
            return K::Memset;
        }
        if pre("uadd.with") {
            return K::OvU(B::Add);
        }
        if pre("usub.with") {
            return K::OvU(B::Sub);
        }
        if pre("umul.with") {
            return K::OvU(B::Mul);
        }
        if pre("sadd.with") {
            return K::OvS(B::Add);
        }
        if pre("ssub.with") {
            return K::OvS(B::Sub);
        }
        if pre("smul.with") {
            return K::OvS(B::Mul);
        }
        if pre("umin.") {
            return K::MinMax(P::Ult);
        }
        if pre("umax.") {
            return K::MinMax(P::Ugt);
        }
        if pre("smin.") {
            return K::MinMax(P::Slt);
        }
        if pre("smax.") {
            return K::MinMax(P::Sgt);
        }
        if pre("abs.") {
            return K::Abs;
        }
        if pre("ctpop") {
            return K::Ctpop;
        }
        if pre("ctlz") {
            return K::Ctlz;
        }
        if pre("cttz.") {
            return K::Cttz;
        }
        if pre("bswap") {
            return K::Bswap;
        }
        if pre("bitreverse") {
            return K::Bitrev;
        }
        if pre("fshl") {
            return K::Fshl;
        }
        if pre("fshr") {
            return K::Fshr;
        }
        if pre("usub.sat") {
            return K::SatU(B::Sub);
        }
        if pre("uadd.sat") {
            return K::SatU(B::Add);
        }
        if pre("ucmp") {
            return K::Cmp3(false);
        }
        if pre("scmp") {
            return K::Cmp3(true);
        }
        if pre("expect") || pre("threadlocal.address") || pre("launder") || pre("strip.inv") {
            return K::Ident;
        }
        if pre("is.constant") {
            return K::False;
        }
        if pre("vector.reduce.add") {
            return K::Reduce(B::Add);
        }
        if pre("vector.reduce.or") {
            return K::Reduce(B::Or);
        }
        if pre("vector.reduce.and") {
            return K::Reduce(B::And);
        }
        if pre("vector.reduce.xor") {
            return K::Reduce(B::Xor);
        }
        if pre("vector.reduce.umax") {
            return K::ReduceMM(P::Ugt);
        }
        if pre("vector.reduce.umin") {
            return K::ReduceMM(P::Ult);
        }
        if pre("load.relative") {
            return K::LoadRel;
        }
        if pre("x86.sse2.pause") || pre("sideeffect") || pre("stackrestore") || pre("va_end") {
            return K::Nop;
        }
        for (p, k) in [
            ("floor", "floor"),
            ("ceil", "ceil"),
            ("fabs", "abs"),
            ("sqrt", "sqrt"),
            ("trunc", "trunc"),
            ("round", "round"),
            ("maxnum", "max"),
            ("minnum", "min"),
            ("fptoui.sat", "toui"),
            ("fptosi.sat", "tosi"),
            ("fmuladd", "fma"),
        ] {
            if pre(p) {
                return K::Float(k);
            }
        }
    }
    let _ = n0;
    K::Unknown
}

enum End {
    Path(&'static str, u32, String),
    Error(String),
    /// state consumed by forking; alternatives already pushed
    Forked,
}
type X<T> = Result<T, End>;

fn err<T>(s: impl Into<String>) -> X<T> {
    Err(End::Error(s.into()))
}

fn fnv(h: u64, v: u64) -> u64 {
    let mut h = h;
    for i in 0..8 {
        h ^= (v >> (8 * i)) & 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Shared {
    #[allow(clippy::too_many_arguments)]
    pub fn new(m: Module, nthreads: usize, deadline: Instant, path_limit: u64, step_limit: u64, max_viol: usize, query_ms: u32, keep: bool) -> Shared {
        let kinds = (0..m.funcs.len()).map(|i| kind_of(&m, i)).collect();
        let ginit = (0..m.globals.len()).map(|_| OnceLock::new()).collect();
        Shared {
            m,
            kinds,
            ginit,
            queue: Mutex::new((VecDeque::new(), 0, false)),
            cv: Condvar::new(),
            nthreads,
            hungry: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            deadline,
            path_limit,
            step_limit,
            npaths: AtomicU64::new(0),
            records: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            max_viol,
            errors: Mutex::new(vec![]),
            timeout: AtomicBool::new(false),
            covers: Mutex::new(BTreeMap::new()),
            notes: Mutex::new(BTreeMap::new()),
            stats: Mutex::new(Stats::default()),
            blocks: Mutex::new(BTreeSet::new()),
            query_ms,
            keep,
        }
    }
    fn gobj(&self, g: usize) -> Result<Arc<Obj>, String> {
        if let Some(o) = self.ginit[g].get() {
            return Ok(o.clone());
        }
        let gl = &self.m.globals[g];
        let op = self.m.global_init(g)?;
        let mut data = vec![0u8; gl.size as usize];
        fill(&mut data, 0, &gl.ty, &op)?;
        let o = Arc::new(Obj { base: gl.addr, size: gl.size, data, sym: vec![], ro: gl.constant });
        let _ = self.ginit[g].set(o);
        Ok(self.ginit[g].get().unwrap().clone())
    }
}
fn fill(d: &mut [u8], off: u64, ty: &Ty, op: &Op) -> Result<(), String> {
    match op {
        Op::C(v) => {
            let n = ty.store_size() as usize;
            for i in 0..n.min(8) {
                d[off as usize + i] = (*v >> (8 * i)) as u8;
            }
        }
        Op::W(v, _) => {
            let n = ty.store_size() as usize;
            for i in 0..n.min(16) {
                d[off as usize + i] = (*v >> (8 * i)) as u8;
            }
        }
        Op::A(v) => {
            let (offs, _) = ty.layout();
            for (i, o) in v.iter().enumerate() {
                fill(d, off + offs[i], ty.elem(i), o)?;
            }
        }
        Op::Undef => {}
        Op::R(_) => return Err("register in initializer".into()),
    }
    Ok(())
}

pub struct Worker {
    sh: Arc<Shared>,
    ar: Arena,
    z3: Z3,
    stack: Vec<State>,
    st: Stats,
    qcache: HashMap<(Vec<Eid>, Eid), (Sat, Vec<(u32, u64)>)>,
    seen: HashMap<usize, Vec<bool>>,
    covers: BTreeMap<u32, u64>,
    notes: BTreeMap<u32, u64>,
    /// fixed variables and model of the state being executed
    cfix: u128,
    cmodel: Vec<u64>,
}

impl Worker {
    pub fn new(sh: Arc<Shared>) -> Worker {
        let z3 = Z3::new(sh.query_ms);
        Worker {
            sh,
            ar: Arena::new(),
            z3,
            stack: vec![],
            st: Stats::default(),
            qcache: HashMap::new(),
            seen: HashMap::new(),
            covers: BTreeMap::new(),
            notes: BTreeMap::new(),
            cfix: 0,
            cmodel: vec![],
        }
    }

    pub fn run(&mut self, entry: usize) {
        let sh = self.sh.clone();
        loop {
            // get a task
            let task = {
                let mut q = sh.queue.lock().unwrap();
                loop {
                    if q.2 || sh.stop.load(Ordering::Relaxed) {
                        q.2 = true;
                        sh.cv.notify_all();
                        self.flush();
                        return;
                    }
                    if let Some(t) = q.0.pop_front() {
                        break t;
                    }
                    q.1 += 1;
                    if q.1 == sh.nthreads {
                        q.2 = true;
                        sh.cv.notify_all();
                        self.flush();
                        return;
                    }
                    sh.hungry.fetch_add(1, Ordering::Relaxed);
                    q = sh.cv.wait(q).unwrap();
                    sh.hungry.fetch_sub(1, Ordering::Relaxed);
                    q.1 -= 1;
                }
            };
            match self.initial(entry, &task) {
                Ok(s) => self.stack.push(s),
                Err(e) => {
                    self.error(e);
                    continue;
                }
            }
            while let Some(s) = self.stack.pop() {
                if sh.stop.load(Ordering::Relaxed) {
                    self.stack.clear();
                    break;
                }
                if Instant::now() > sh.deadline {
                    sh.timeout.store(true, Ordering::Relaxed);
                    sh.stop.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                    self.stack.clear();
                    break;
                }
                self.run_state(s);
                if self.ar.len() > 3_000_000 || self.z3.memo_len() > 1_500_000 {
                    self.recycle();
                }
                self.donate();
            }
        }
    }
    /// drop the arena and solver when they have grown large; pending states are re-queued as tasks
    fn recycle(&mut self) {
        let sh = self.sh.clone();
        {
            let mut q = sh.queue.lock().unwrap();
            for s in std::mem::take(&mut self.stack) {
                q.0.push_back(self.task(&s));
            }
        }
        self.ar = Arena::new();
        self.z3 = Z3::new(sh.query_ms);
        self.qcache.clear();
        sh.cv.notify_all();
    }
    fn donate(&mut self) {
        while self.stack.len() > 1 && self.sh.hungry.load(Ordering::Relaxed) > 0 {
            let mut q = self.sh.queue.lock().unwrap();
            if q.0.len() >= self.sh.hungry.load(Ordering::Relaxed) + 2 {
                break;
            }
            let s = self.stack.remove(0);
            let t = self.task(&s);
            q.0.push_back(t);
            drop(q);
            self.sh.cv.notify_one();
        }
    }
    fn task(&self, s: &State) -> Task {
        let mut log = s.log.clone();
        log.truncate(s.logpos);
        Task { model: s.model.clone(), pos: s.replay_until, log, sig: self.sig(s) }
    }
    fn sig(&self, s: &State) -> u64 {
        let mut h = fnv(0xcbf29ce484222325, s.fixed as u64);
        for &p in &s.pc {
            h = fnv(h, self.ar.h(p));
        }
        for &d in &s.dom {
            h = fnv(h, d);
        }
        h
    }
    fn flush(&mut self) {
        let mut g = self.sh.stats.lock().unwrap();
        let s = &self.st;
        g.paths += s.paths;
        g.expected_panics += s.expected_panics;
        g.pruned += s.pruned;
        g.forks += s.forks;
        g.queries += s.queries;
        g.sat += s.sat;
        g.unsat += s.unsat;
        g.unknown += s.unknown;
        g.solver_ns += s.solver_ns;
        g.steps += s.steps;
        g.checks_const += s.checks_const;
        g.checks_solver += s.checks_solver;
        g.cache_hits += s.cache_hits;
        g.max_expr = g.max_expr.max(s.max_expr);
        g.max_pc = g.max_pc.max(s.max_pc);
        g.branches_sym += s.branches_sym;
        g.concretizations += s.concretizations;
        g.folded += s.folded;
        drop(g);
        let mut b = self.sh.blocks.lock().unwrap();
        for (f, v) in &self.seen {
            for (i, x) in v.iter().enumerate() {
                if *x {
                    b.insert((*f, i as u32));
                }
            }
        }
        drop(b);
        let mut c = self.sh.covers.lock().unwrap();
        for (k, v) in &self.covers {
            *c.entry(*k).or_default() += v;
        }
        drop(c);
        let mut c = self.sh.notes.lock().unwrap();
        for (k, v) in &self.notes {
            *c.entry(*k).or_default() += v;
        }
    }
    fn error(&mut self, e: String) {
        let mut v = self.sh.errors.lock().unwrap();
        if v.len() < 20 && !v.contains(&e) {
            v.push(e);
        }
        self.sh.stop.store(true, Ordering::Relaxed);
        self.sh.cv.notify_all();
    }

    fn initial(&mut self, entry: usize, t: &Task) -> Result<State, String> {
        let f = self.sh.m.func(entry)?;
        let regs = vec![Val::C(0); f.nregs];
        Ok(State {
            frames: vec![Frame { f, bb: 0, ip: 0, regs, mark: 0, mark_next: STACK_BASE, ret_dst: None, ret_next: None }],
            mem: Mem { heap: vec![], stack: vec![], globals: BTreeMap::new(), heap_next: HEAP_BASE, stack_next: STACK_BASE },
            pc: vec![],
            model: t.model.clone(),
            vars: vec![],
            vlo: vec![],
            obs: vec![],
            binds: vec![],
            expect_panic: false,
            steps: 0,
            dec: 0,
            replay_until: t.pos,
            notes: vec![],
            seed: 0x11,
            irq: None,
            dom: vec![],
            fixed: 0,
            log: t.log.clone(),
            logpos: 0,
            sig: t.sig,
        })
    }

    fn run_state(&mut self, mut s: State) {
        let f = s.frames.last().unwrap();
        let (fid, bb) = (f.f.id, f.bb);
        self.mark(fid, bb, f.f.blocks.len());
        let steps0 = s.steps;
        self.cfix = s.fixed;
        self.cmodel.clear();
        self.cmodel.extend_from_slice(&s.model);
        let mut n = 0u32;
        let r = loop {
            n += 1;
            if n & 0xfff == 0 {
                if s.steps > self.sh.step_limit {
                    break End::Path("limit", 0, String::new());
                }
                if self.sh.stop.load(Ordering::Relaxed) {
                    self.st.steps += s.steps - steps0;
                    return;
                }
                if n & 0xfffff == 0 && Instant::now() > self.sh.deadline {
                    self.sh.timeout.store(true, Ordering::Relaxed);
                    self.sh.stop.store(true, Ordering::Relaxed);
                    return;
                }
            }
            if let Err(e) = self.step(&mut s) {
                break e;
            }
        };
        self.st.steps += s.steps.saturating_sub(steps0);
        match r {
            End::Forked => {}
            End::Error(e) => {
                let f = s.frames.last().unwrap();
                let e = format!("{e} [in {} block {}]", f.f.name, f.f.blocks[f.bb as usize].name);
                self.error(e)
            }
            End::Path(o, id, msg) => self.end_path(s, o, id, msg),
        }
    }
    fn end_path(&mut self, s: State, outcome: &'static str, id: u32, msg: String) {
        let outcome = if outcome == "panic" && s.expect_panic { "panic-expected" } else { outcome };
        if outcome == "pruned" {
            self.st.pruned += 1;
            return;
        }
        for n in &s.notes {
            *self.notes.entry(*n).or_default() += 1;
        }
        self.st.max_pc = self.st.max_pc.max(s.pc.len());
        let model = s.model.clone();
        let mut h = 0xcbf29ce484222325u64;
        for o in &s.obs {
            let v = match o {
                Val::C(v) => *v,
                Val::E(e) => self.ar.eval(*e, &model) as u64,
                _ => 0,
            };
            h = fnv(h, v);
        }
        let inputs: Vec<u64> = (0..s.vars.len()).map(|i| s.vlo[i].wrapping_add(self.ar.eval(s.vars[i], &model) as u64)).collect();
        let rec = PathRec { outcome, id, inputs, obs_hash: h, msg };
        let bad = matches!(outcome, "check" | "panic" | "memory" | "limit");
        if bad {
            let mut v = self.sh.violations.lock().unwrap();
            v.push(rec);
            if v.len() >= self.sh.max_viol {
                self.sh.stop.store(true, Ordering::Relaxed);
                self.sh.cv.notify_all();
            }
        } else {
            self.st.paths += 1;
            if outcome == "panic-expected" {
                self.st.expected_panics += 1;
            }
            let n = self.sh.npaths.fetch_add(1, Ordering::Relaxed);
            if n >= self.sh.path_limit {
                self.sh.timeout.store(true, Ordering::Relaxed);
                self.sh.stop.store(true, Ordering::Relaxed);
                self.sh.cv.notify_all();
            }
            if self.sh.keep {
                self.sh.records.lock().unwrap().push(rec);
            }
        }
    }
    fn mark(&mut self, fid: usize, bb: u32, nb: usize) {
        let v = self.seen.entry(fid).or_insert_with(|| vec![false; nb]);
        v[bb as usize] = true;
    }

    // ---------- solver ----------
    fn query(&mut self, s: &State, cond: Eid) -> X<Option<Vec<u64>>> {
        if let Some(v) = self.ar.as_const(cond) {
            return Ok(if v == 1 { Some(s.model.clone()) } else { None });
        }
        let orig = cond;
        // replace fixed variables by their values
        let mut memo = HashMap::new();
        let cond = self.ar.subst(cond, s.fixed, &s.model, &mut memo);
        if let Some(v) = self.ar.as_const(cond) {
            self.st.folded += 1;
            return Ok(if v == 1 { Some(s.model.clone()) } else { None });
        }
        // independent slice of the path condition
        let mut sup = self.ar.sup(cond);
        let mut inc = vec![false; s.pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in s.pc.iter().enumerate() {
                if !inc[i] && self.ar.sup(p) & sup != 0 {
                    inc[i] = true;
                    sup |= self.ar.sup(p) & !s.fixed;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut pcs: Vec<Eid> = vec![];
        for (i, &p) in s.pc.iter().enumerate() {
            if inc[i] {
                let q = self.ar.subst(p, s.fixed, &s.model, &mut memo);
                if self.ar.as_const(q).is_none() {
                    pcs.push(q);
                }
            }
        }
        let mut key = pcs.clone();
        key.sort_unstable();
        key.dedup();
        let key = (key, cond);
        let apply = |asg: &Vec<(u32, u64)>| {
            let mut m = s.model.clone();
            for &(i, v) in asg {
                if m.len() <= i as usize {
                    m.resize(i as usize + 1, 0);
                }
                m[i as usize] = v;
            }
            m
        };
        if let Some((r, asg)) = self.qcache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(if *r == Sat::Sat { Some(apply(asg)) } else { None });
        }
        let vs: Vec<(u32, Eid)> = s
            .vars
            .iter()
            .enumerate()
            .filter(|(i, e)| sup & self.ar.sup(**e) != 0 || *i >= 127)
            .map(|(i, e)| (i as u32, *e))
            .collect();
        let ve: Vec<Eid> = vs.iter().map(|x| x.1).collect();
        let t = Instant::now();
        let (r, vals) = self.z3.check(&self.ar, &pcs, cond, &ve);
        self.st.solver_ns += t.elapsed().as_nanos() as u64;
        self.st.queries += 1;
        match r {
            Sat::Sat => self.st.sat += 1,
            Sat::Unsat => self.st.unsat += 1,
            Sat::Unknown => {
                self.st.unknown += 1;
                return err("solver returned unknown (timeout)");
            }
        }
        let asg: Vec<(u32, u64)> = vs.iter().zip(vals).map(|(a, v)| (a.0, v)).collect();
        let res = if r == Sat::Sat { Some(apply(&asg)) } else { None };
        if let Some(m) = &res {
            // the model must satisfy what was asked (guards the translation)
            if self.ar.eval(orig, m) != 1 || pcs.iter().any(|&p| self.ar.eval(p, m) != 1) {
                return err("solver model does not satisfy the query under the engine's own evaluation");
            }
        }
        self.qcache.insert(key, (r, asg));
        Ok(res)
    }
    fn replaying(&mut self, s: &mut State) -> X<bool> {
        let r = (s.steps, s.dec) < s.replay_until;
        if !r && s.sig != 0 {
            self.replay_done(s)?;
        }
        Ok(r)
    }
    fn replay_done(&mut self, s: &mut State) -> X<()> {
        if self.sig(s) != s.sig || s.logpos != s.log.len() {
            return err("replayed state differs from the donated one");
        }
        s.sig = 0;
        Ok(())
    }
    fn add_pc(&mut self, s: &mut State, c: Eid) {
        if self.ar.as_const(c).is_some() {
            self.cfix = s.fixed;
            self.cmodel.clear();
            self.cmodel.extend_from_slice(&s.model);
            return;
        }
        let sz = self.ar.size(c);
        self.st.max_expr = self.st.max_expr.max(sz);
        s.pc.push(c);
        self.propagate(s, c);
    }
    /// Domain propagation: shrink the value sets of small variables by a new constraint;
    /// variables left with one value are treated as constants from then on.
    fn propagate(&mut self, s: &mut State, c: Eid) {
        let mut work = vec![c];
        while let Some(c) = work.pop() {
            let free = self.ar.sup(c) & !s.fixed;
            let n = free.count_ones();
            if n == 0 || n > 2 {
                continue;
            }
            let a = free.trailing_zeros() as usize;
            let b = (127 - free.leading_zeros()) as usize;
            if a >= s.dom.len() || b >= s.dom.len() || s.dom[a] == 0 || s.dom[b] == 0 {
                continue;
            }
            let mut m = s.model.clone();
            let (da, db) = (s.dom[a], s.dom[b]);
            let (mut na, mut nb) = (0u64, 0u64);
            if n == 1 {
                for v in 0..64 {
                    if da >> v & 1 == 1 {
                        m[a] = v;
                        if self.ar.eval(c, &m) == 1 {
                            na |= 1 << v;
                        }
                    }
                }
                nb = na;
            } else {
                if da.count_ones() * db.count_ones() > 256 || self.ar.size(c) > 400 {
                    continue;
                }
                for v in 0..64 {
                    if da >> v & 1 == 0 {
                        continue;
                    }
                    m[a] = v;
                    for u in 0..64 {
                        if db >> u & 1 == 0 || (na >> v & 1 == 1 && nb >> u & 1 == 1) {
                            continue;
                        }
                        m[b] = u;
                        if self.ar.eval(c, &m) == 1 {
                            na |= 1 << v;
                            nb |= 1 << u;
                        }
                    }
                }
            }
            for (v, d, old) in [(a, na, da), (b, nb, db)] {
                if d == old || d == 0 {
                    continue;
                }
                s.dom[v] = d;
                if d.count_ones() == 1 && s.fixed >> v & 1 == 0 {
                    s.fixed |= 1 << v;
                }
                for &p in &s.pc {
                    if self.ar.sup(p) >> v & 1 == 1 && !work.contains(&p) {
                        let f = (self.ar.sup(p) & !s.fixed).count_ones();
                        if f == 1 || f == 2 {
                            work.push(p);
                        }
                    }
                }
            }
        }
        self.cfix = s.fixed;
        self.cmodel.clear();
        self.cmodel.extend_from_slice(&s.model);
    }
    /// Log (or, replaying, look up) whether a decision's condition enters the path condition.
    fn decided(&mut self, s: &mut State, replaying: bool, pushed: bool) -> bool {
        if replaying {
            let r = s.log.get(s.logpos).copied().unwrap_or(true);
            s.logpos += 1;
            r
        } else {
            s.log.truncate(s.logpos);
            s.log.push(pushed);
            s.logpos += 1;
            pushed
        }
    }
    /// Decide a symbolic condition: returns the side the current state follows; forks the other.
    fn branch(&mut self, s: &mut State, c: Eid, mut other: impl FnMut(&mut Worker, &mut State, bool) -> X<()>) -> X<bool> {
        let side = self.ar.eval(c, &s.model) == 1;
        if self.ar.sup(c) & !s.fixed == 0 {
            return Ok(side);
        }
        let nc = self.ar.not(c);
        let (mine, theirs) = if side { (c, nc) } else { (nc, c) };
        let replaying = self.replaying(s)?;
        s.dec += 1;
        if !replaying {
            self.st.branches_sym += 1;
            if let Some(m) = self.query(s, theirs)? {
                self.decided(s, false, true);
                let mut o = s.clone();
                o.model = m;
                o.replay_until = (s.steps, s.dec);
                self.add_pc(&mut o, theirs);
                other(self, &mut o, !side)?;
                self.st.forks += 1;
                self.stack.push(o);
            } else {
                // implied by the path condition: nothing to add
                self.decided(s, false, false);
                return Ok(side);
            }
        } else if !self.decided(s, true, true) {
            return Ok(side);
        }
        self.add_pc(s, mine);
        Ok(side)
    }
    /// Force an expression to a concrete value on this path, forking one state per feasible value.
    /// The alternatives re-execute the current instruction.
    fn concretize(&mut self, s: &mut State, v: &Val) -> X<u64> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::E(e) => *e,
            Val::A(_) => return err("concretize aggregate"),
        };
        if let Some(c) = self.ar.as_const(e) {
            return Ok(c as u64);
        }
        if self.ar.sup(e) & !s.fixed == 0 {
            s.dec += 1;
            return Ok(self.ar.eval(e, &s.model) as u64);
        }
        let replaying = self.replaying(s)?;
        s.dec += 1;
        if let Some(b) = s.binds.iter().rev().find(|b| b.0 == e) {
            return Ok(b.1);
        }
        let w = self.ar.w(e);
        let mine = self.ar.eval(e, &s.model);
        let km = self.ar.cnst(mine, w);
        let eqm = self.ar.cmp(P::Eq, e, km);
        if !replaying {
            self.st.concretizations += 1;
            let mut excl = self.ar.not(eqm);
            let mut count = 0;
            while let Some(m) = self.query(s, excl)? {
                let v = self.ar.eval(e, &m);
                let k = self.ar.cnst(v, w);
                let eq = self.ar.cmp(P::Eq, e, k);
                let mut o = s.clone();
                o.model = m;
                self.add_pc(&mut o, eq);
                o.binds.push((e, v as u64));
                o.replay_until = (s.steps, s.dec);
                o.steps -= 1; // re-executed
                self.st.forks += 1;
                self.stack.push(o);
                let ne = self.ar.not(eq);
                excl = self.ar.and(excl, ne);
                count += 1;
                if count > 4096 {
                    return err("concretize: more than 4096 values");
                }
            }
        }
        self.add_pc(s, eqm);
        s.binds.push((e, mine as u64));
        Ok(mine as u64)
    }

    // ---------- values ----------
    fn ex(&mut self, v: &Val, w: u32) -> X<Eid> {
        match v {
            Val::C(c) => Ok(self.ar.cnst(*c as u128, w as u8)),
            Val::E(e) => {
                debug_assert_eq!(self.ar.w(*e) as u32, w);
                Ok(*e)
            }
            Val::A(_) => err("aggregate where scalar expected"),
        }
    }
    fn val(&mut self, e: Eid) -> Val {
        if self.ar.w(e) <= 64 {
            if let Some(c) = self.ar.as_const(e) {
                return Val::C(c as u64);
            }
            if self.cfix != 0 && self.ar.sup(e) & !self.cfix == 0 {
                return Val::C(self.ar.eval(e, &self.cmodel) as u64);
            }
        }
        Val::E(e)
    }
    /// a register value, folded when all its variables are fixed
    fn fold(&mut self, v: Val) -> Val {
        match v {
            Val::E(e) => self.val(e),
            v => v,
        }
    }
    fn op(&mut self, fr: &Frame, o: &Op) -> Val {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::C(c) => Val::C(*c),
            Op::W(v, w) => Val::E(self.ar.cnst(*v, *w as u8)),
            Op::A(v) => {
                let x: Vec<Val> = v.iter().map(|o| self.op(fr, o)).collect();
                Val::A(Rc::new(x))
            }
            Op::Undef => Val::C(0),
        }
    }
    fn bin(&mut self, op: B, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            let r = match op {
                B::Add => x.wrapping_add(*y) & m,
                B::Sub => x.wrapping_sub(*y) & m,
                B::Mul => x.wrapping_mul(*y) & m,
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl if *y < w as u64 => (x << y) & m,
                B::LShr if *y < w as u64 => x >> y,
                _ => fold_bin(op, w as u8, *x as u128, *y as u128) as u64,
            };
            return Ok(Val::C(r));
        }
        let x = self.ex(a, w)?;
        let y = self.ex(b, w)?;
        let r = self.ar.bin(op, x, y);
        Ok(self.val(r))
    }
    fn cmp(&mut self, p: P, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Ok(Val::C(fold_cmp(p, w as u8, *x as u128, *y as u128) as u64));
        }
        let x = self.ex(a, w)?;
        let y = self.ex(b, w)?;
        let r = self.ar.cmp(p, x, y);
        Ok(self.val(r))
    }
    fn ite(&mut self, c: Eid, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.ite(c, ty.elem(i), &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = ty.bits();
                let x = self.ex(a, w)?;
                let y = self.ex(b, w)?;
                let r = self.ar.ite(c, x, y);
                Ok(self.val(r))
            }
        }
    }
    /// flatten to a single bit-vector
    fn flat(&mut self, v: &Val, ty: &Ty) -> X<Eid> {
        match v {
            Val::A(x) => {
                let mut r: Option<Eid> = None;
                for (i, e) in x.iter().enumerate() {
                    let f = self.flat(e, ty.elem(i))?;
                    r = Some(match r {
                        None => f,
                        Some(l) => self.ar.concat(f, l),
                    });
                }
                r.ok_or(End::Error("flat empty".into()))
            }
            _ => self.ex(v, ty.bits()),
        }
    }
    fn unflat(&mut self, e: Eid, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits() as u8;
                let mut v = vec![];
                for i in 0..*n {
                    let x = self.ar.extract(e, i as u8 * w, w);
                    v.push(self.val(x));
                }
                Ok(Val::A(Rc::new(v)))
            }
            t if t.is_scalar() => Ok(self.val(e)),
            _ => err("unflat"),
        }
    }
    fn cast(&mut self, k: CastK, t: &Ty, t2: &Ty, v: &Val) -> X<Val> {
        if k == CastK::Bit {
            if t.is_scalar() && t2.is_scalar() {
                return Ok(v.clone());
            }
            let f = self.flat(v, t)?;
            return self.unflat(f, t2);
        }
        if let Val::A(x) = v {
            let mut o = vec![];
            for e in x.iter() {
                o.push(self.cast(k, t.elem(0), t2.elem(0), e)?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        let (w, w2) = (t.bits(), t2.bits());
        match k {
            CastK::ZExt | CastK::SExt | CastK::Trunc => {
                if let Val::C(c) = v {
                    if w2 <= 64 {
                        let m = if w2 == 64 { u64::MAX } else { (1u64 << w2) - 1 };
                        return Ok(Val::C(if k == CastK::SExt { sext64(*c, w) & m } else { c & m }));
                    }
                }
                let e = self.ex(v, w)?;
                let r = match k {
                    CastK::ZExt => self.ar.zext(e, w2 as u8),
                    CastK::SExt => self.ar.sext(e, w2 as u8),
                    _ => self.ar.extract(e, 0, w2 as u8),
                };
                Ok(self.val(r))
            }
            _ => {
                let Val::C(c) = v else { return err("symbolic float cast") };
                let get = |c: u64, t: &Ty| if *t == Ty::Float { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let put = |f: f64, t: &Ty| if *t == Ty::Float { (f as f32).to_bits() as u64 } else { f.to_bits() };
                let m = |x: u64, w: u32| if w >= 64 { x } else { x & ((1u64 << w) - 1) };
                Ok(Val::C(match k {
                    CastK::UIToFP => put(*c as f64, t2),
                    CastK::SIToFP => put(sext64(*c, w) as i64 as f64, t2),
                    CastK::FPToUI => m(get(*c, t) as u64, w2),
                    CastK::FPToSI => m(get(*c, t) as i64 as u64, w2),
                    CastK::FPExt | CastK::FPTrunc => put(get(*c, t), t2),
                    _ => unreachable!(),
                }))
            }
        }
    }

    // ---------- memory ----------
    fn find(&self, mem: &Mem, addr: u64) -> Option<Where> {
        if addr >= STACK_BASE {
            let i = mem.stack.partition_point(|o| o.base <= addr);
            if i == 0 {
                return None;
            }
            let o = &mem.stack[i - 1];
            return (addr <= o.base + o.size).then_some(Where::Stack(i - 1));
        }
        if addr >= HEAP_BASE {
            let i = mem.heap.partition_point(|o| o.base <= addr);
            if i == 0 {
                return None;
            }
            let o = &mem.heap[i - 1];
            return (addr <= o.base + o.size).then_some(Where::Heap(i - 1));
        }
        if addr >= GLOBAL_BASE {
            let g = &self.sh.m.globals;
            let i = g.partition_point(|o| o.addr <= addr);
            if i == 0 {
                return None;
            }
            let o = &g[i - 1];
            return (addr <= o.addr + o.size).then_some(Where::Glob(i - 1));
        }
        None
    }
    fn obj<'a>(&self, mem: &'a Mem, w: Where, tmp: &'a mut Option<Arc<Obj>>) -> X<&'a Obj> {
        match w {
            Where::Heap(i) => Ok(&mem.heap[i]),
            Where::Stack(i) => Ok(&mem.stack[i]),
            Where::Glob(g) => {
                if let Some(o) = mem.globals.get(&g) {
                    return Ok(o);
                }
                *tmp = Some(self.sh.gobj(g).map_err(End::Error)?);
                Ok(tmp.as_ref().unwrap())
            }
        }
    }
    fn obj_mut<'a>(&self, mem: &'a mut Mem, w: Where) -> X<&'a mut Obj> {
        match w {
            Where::Heap(i) => Ok(Arc::make_mut(&mut mem.heap[i])),
            Where::Stack(i) => Ok(Arc::make_mut(&mut mem.stack[i])),
            Where::Glob(g) => {
                if !mem.globals.contains_key(&g) {
                    let o = self.sh.gobj(g).map_err(End::Error)?;
                    if o.ro {
                        return Err(End::Path("memory", 0, "write to constant".into()));
                    }
                    mem.globals.insert(g, o);
                }
                Ok(Arc::make_mut(mem.globals.get_mut(&g).unwrap()))
            }
        }
    }
    fn locate(&self, mem: &Mem, addr: u64, n: u64) -> X<(Where, usize)> {
        if let Some(w) = self.find(mem, addr) {
            let mut tmp = None;
            let o = self.obj(mem, w, &mut tmp)?;
            if addr + n <= o.base + o.size {
                return Ok((w, (addr - o.base) as usize));
            }
        }
        Err(End::Path("memory", 0, format!("access of {n} bytes at {addr:#x}")))
    }
    fn read_cells(&mut self, o: &Obj, off: usize, n: usize, w: u32) -> Val {
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut v = 0u64;
                for i in 0..n {
                    v |= (o.data[off + i] as u64) << (8 * i);
                }
                if w < 64 {
                    v &= (1u64 << w) - 1;
                }
                return Val::C(v);
            }
            let mut v = 0u128;
            for i in 0..n.min(16) {
                v |= (o.data[off + i] as u128) << (8 * i);
            }
            return Val::E(self.ar.cnst(v, w as u8));
        }
        // symbolic: gather runs from the top byte down
        let mut r: Option<Eid> = None;
        let mut i = 0;
        while i < n {
            let s = o.sym[off + i];
            let piece;
            if s == 0 {
                let mut j = i;
                let mut v = 0u128;
                while j < n && o.sym[off + j] == 0 {
                    v |= (o.data[off + j] as u128) << (8 * (j - i));
                    j += 1;
                }
                piece = self.ar.cnst(v, (8 * (j - i)) as u8);
                i = j;
            } else {
                let (e, b) = (((s - 1) >> 8) as Eid, ((s - 1) & 0xff) as usize);
                let mut j = i + 1;
                while j < n && o.sym[off + j] == s + (j - i) as u64 {
                    j += 1;
                }
                piece = self.ar.extract(e, (8 * b) as u8, (8 * (j - i)) as u8);
                i = j;
            }
            r = Some(match r {
                None => piece,
                Some(l) => self.ar.concat(piece, l),
            });
        }
        let mut e = r.unwrap();
        if (w as usize) < 8 * n {
            e = self.ar.extract(e, 0, w as u8);
        }
        self.val(e)
    }
    fn write_cells(&mut self, o: &mut Obj, off: usize, n: usize, v: &Val, w: u32) -> X<()> {
        match v {
            Val::C(c) => {
                for i in 0..n {
                    o.data[off + i] = if i < 8 { (c >> (8 * i)) as u8 } else { 0 };
                }
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            }
            Val::E(e) => {
                if let Some(c) = self.ar.as_const(*e) {
                    for i in 0..n {
                        o.data[off + i] = if i < 16 { (c >> (8 * i)) as u8 } else { 0 };
                    }
                    if !o.sym.is_empty() {
                        o.sym[off..off + n].fill(0);
                    }
                    return Ok(());
                }
                let mut e = *e;
                if (w as usize) < 8 * n {
                    e = self.ar.zext(e, (8 * n) as u8);
                }
                if o.sym.is_empty() {
                    o.sym = vec![0; o.size as usize];
                }
                for i in 0..n {
                    o.sym[off + i] = (((e as u64) << 8) | i as u64) + 1;
                }
            }
            Val::A(_) => return err("write aggregate"),
        }
        Ok(())
    }
    fn load_at(&mut self, mem: &Mem, addr: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let f = self.load_at(mem, addr, &Ty::Int(n * t.bits()))?;
                let e = self.ex(&f, n * t.bits())?;
                self.unflat(e, ty)
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let (offs, _) = ty.layout();
                let mut v = vec![];
                for (i, o) in offs.iter().enumerate() {
                    v.push(self.load_at(mem, addr + o, ty.elem(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = ty.bits();
                let n = ty.store_size();
                let (wh, off) = self.locate(mem, addr, n)?;
                let mut tmp = None;
                // borrow dance: clone the Arc only for the symbolic path
                let o: *const Obj = self.obj(mem, wh, &mut tmp)?;
                let o = unsafe { &*o };
                Ok(self.read_cells(o, off, n as usize, w))
            }
        }
    }
    fn store_at(&mut self, mem: &mut Mem, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        match ty {
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let e = self.flat(v, ty)?;
                let v = self.val(e);
                self.store_at(mem, addr, &Ty::Int(n * t.bits()), &v)
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let Val::A(x) = v else { return err("store agg") };
                let (offs, _) = ty.layout();
                for (i, o) in offs.iter().enumerate() {
                    self.store_at(mem, addr + o, ty.elem(i), &x[i])?;
                }
                Ok(())
            }
            _ => {
                let n = ty.store_size();
                let (wh, off) = self.locate(mem, addr, n)?;
                let o: *mut Obj = self.obj_mut(mem, wh)?;
                let o = unsafe { &mut *o };
                self.write_cells(o, off, n as usize, v, ty.bits())
            }
        }
    }
    /// candidate concrete addresses of a symbolic pointer, all within live objects;
    /// None if the caller should concretize instead
    fn candidates(&mut self, s: &mut State, e: Eid, n: u64) -> X<Option<Vec<u64>>> {
        let Some(vs) = self.ar.vset(e) else { return Ok(None) };
        if vs.len() > 64 {
            return Ok(None);
        }
        let mut good = vec![];
        let mut bad: Option<Eid> = None;
        for &a in vs.iter() {
            if self.locate(&s.mem, a, n).is_ok() {
                good.push(a);
            } else {
                let k = self.ar.cnst(a as u128, 64);
                let q = self.ar.cmp(P::Eq, e, k);
                bad = Some(match bad {
                    None => q,
                    Some(b) => self.ar.or(b, q),
                });
            }
        }
        if let Some(b) = bad {
            let replaying = self.replaying(s)?;
            let mut alt = None;
            if !replaying {
                if self.ar.eval(b, &s.model) == 1 {
                    return Err(End::Path("memory", 0, "symbolic access out of bounds".into()));
                }
                alt = self.query(s, b)?;
            }
            let push = self.decided(s, replaying, alt.is_some());
            if let Some(m) = alt {
                let mut o = s.clone();
                o.model = m;
                self.st.forks += 1;
                self.end_path(o, "memory", 0, "symbolic access out of bounds".into());
            }
            if push {
                let nb = self.ar.not(b);
                self.add_pc(s, nb);
            }
        }
        if good.is_empty() {
            return Err(End::Path("memory", 0, "no valid target".into()));
        }
        Ok(Some(good))
    }
    fn load(&mut self, s: &mut State, p: &Val, ty: &Ty) -> X<Val> {
        let p = &self.fold(p.clone());
        match p {
            Val::C(a) => self.load_at(&s.mem, *a, ty),
            Val::E(e) => {
                let e = *e;
                if ty.is_scalar() {
                    if let Some(b) = s.binds.iter().rev().find(|b| b.0 == e).copied() {
                        return self.load_at(&s.mem, b.1, ty);
                    }
                    if let Some(c) = self.candidates(s, e, ty.store_size())? {
                        let mut vals = vec![];
                        for &a in &c {
                            let v = self.load_at(&s.mem, a, ty)?;
                            vals.push(self.ex(&v, ty.bits())?);
                        }
                        // most frequent value as the default
                        let mut cnt: HashMap<Eid, usize> = HashMap::new();
                        for v in &vals {
                            *cnt.entry(*v).or_default() += 1;
                        }
                        let mut best = vals[0];
                        for v in &vals {
                            if cnt[v] > cnt[&best] {
                                best = *v;
                            }
                        }
                        let mut r = best;
                        // group equal values
                        let mut groups: Vec<(Eid, Eid)> = vec![];
                        for (i, &a) in c.iter().enumerate() {
                            if vals[i] == best {
                                continue;
                            }
                            let k = self.ar.cnst(a as u128, 64);
                            let q = self.ar.cmp(P::Eq, e, k);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == vals[i]) {
                                g.1 = self.ar.or(g.1, q);
                            } else {
                                groups.push((vals[i], q));
                            }
                        }
                        for (v, q) in groups.into_iter().rev() {
                            r = self.ar.ite(q, v, r);
                        }
                        return Ok(self.val(r));
                    }
                }
                let a = self.concretize(s, p)?;
                self.load_at(&s.mem, a, ty)
            }
            _ => err("load ptr"),
        }
    }
    fn store(&mut self, s: &mut State, p: &Val, ty: &Ty, v: &Val) -> X<()> {
        let p = &self.fold(p.clone());
        let v = &self.fold(v.clone());
        match p {
            Val::C(a) => {
                let mut mem = std::mem::replace(&mut s.mem, Mem { heap: vec![], stack: vec![], globals: BTreeMap::new(), heap_next: 0, stack_next: 0 });
                let r = self.store_at(&mut mem, *a, ty, v);
                s.mem = mem;
                r
            }
            Val::E(e) => {
                let e = *e;
                let bound = s.binds.iter().rev().find(|b| b.0 == e).map(|b| b.1);
                if ty.is_scalar() && bound.is_none() {
                    if let Some(c) = self.candidates(s, e, ty.store_size())? {
                        let nv = self.ex(v, ty.bits())?;
                        for &a in &c {
                            let old = self.load_at(&s.mem, a, ty)?;
                            let old = self.ex(&old, ty.bits())?;
                            let k = self.ar.cnst(a as u128, 64);
                            let q = self.ar.cmp(P::Eq, e, k);
                            let r = self.ar.ite(q, nv, old);
                            if r != old {
                                let r = self.val(r);
                                self.store(s, &Val::C(a), ty, &r)?;
                            }
                        }
                        return Ok(());
                    }
                }
                let a = self.concretize(s, p)?;
                self.store(s, &Val::C(a), ty, v)
            }
            _ => err("store ptr"),
        }
    }
    fn alloc(&mut self, s: &mut State, size: u64, align: u64, _zero: bool) -> X<u64> {
        if size > 1 << 24 {
            return err(format!("allocation of {size} bytes"));
        }
        let al = align.max(16);
        let base = s.mem.heap_next.div_ceil(al) * al;
        s.mem.heap_next = base + size + 32;
        s.mem.heap.push(Arc::new(Obj { base, size, data: vec![0; size as usize], sym: vec![], ro: false }));
        Ok(base)
    }
    fn free(&mut self, s: &mut State, p: u64) -> X<()> {
        if p == 0 {
            return Ok(());
        }
        match s.mem.heap.binary_search_by(|o| o.base.cmp(&p)) {
            Ok(i) => {
                s.mem.heap.remove(i);
                Ok(())
            }
            Err(_) => Err(End::Path("memory", 0, format!("free of {p:#x}"))),
        }
    }
    fn copy_bytes(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (ws, so) = self.locate(&s.mem, src, n)?;
        let (d, y) = {
            let mut tmp = None;
            let o = self.obj(&s.mem, ws, &mut tmp)?;
            let n = n as usize;
            (o.data[so..so + n].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym[so..so + n].to_vec() })
        };
        let (wd, dof) = self.locate(&s.mem, dst, n)?;
        let o = self.obj_mut(&mut s.mem, wd)?;
        let n = n as usize;
        o.data[dof..dof + n].copy_from_slice(&d);
        if y.iter().any(|x| *x != 0) {
            if o.sym.is_empty() {
                o.sym = vec![0; o.size as usize];
            }
            o.sym[dof..dof + n].copy_from_slice(&y);
        } else if !o.sym.is_empty() {
            o.sym[dof..dof + n].fill(0);
        }
        Ok(())
    }
    fn byte(&mut self, s: &State, a: u64) -> X<Val> {
        self.load_at(&s.mem, a, &Ty::Int(8))
    }

    // ---------- control ----------
    fn goto(&mut self, s: &mut State, bb: u32) -> X<()> {
        let fr = s.frames.last().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[bb as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, _, inc) in &b.phis {
                let Some(o) = inc.iter().find(|x| x.0 == from) else { return err("phi without predecessor") };
                let fr = s.frames.last().unwrap();
                let v = match &o.1 {
                    Op::R(r) => fr.regs[*r as usize].clone(),
                    Op::C(c) => Val::C(*c),
                    o => {
                        let fr: *const Frame = fr;
                        self.op(unsafe { &*fr }, o)
                    }
                };
                vals.push((*d, v));
            }
            let fr = s.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = s.frames.last_mut().unwrap();
        fr.bb = bb;
        fr.ip = 0;
        let (id, nb) = (f.id, f.blocks.len());
        self.mark(id, bb, nb);
        Ok(())
    }
    fn do_ret(&mut self, s: &mut State, v: Option<Val>) -> X<()> {
        let fr = s.frames.pop().unwrap();
        s.mem.stack.truncate(fr.mark);
        s.mem.stack_next = fr.mark_next;
        if s.frames.is_empty() {
            if s.expect_panic {
                return Err(End::Path("check", 9999, "expected panic did not happen".into()));
            }
            return Err(End::Path("ok", 0, String::new()));
        }
        let top = s.frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (fr.ret_dst, v) {
            top.regs[d as usize] = v;
        }
        if let Some(n) = fr.ret_next {
            self.goto(s, n)?;
        }
        Ok(())
    }
    fn setreg(s: &mut State, d: u32, v: Val) {
        s.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    fn step(&mut self, s: &mut State) -> X<()> {
        let fr = s.frames.last_mut().unwrap();
        let f: *const Func = &*fr.f;
        // SAFETY: `fr.f` is an Arc kept alive by the module for the whole run
        let blk = unsafe { &(&(*f).blocks)[fr.bb as usize] };
        let Some(ins) = blk.insts.get(fr.ip as usize) else { return err("fell off block") };
        fr.ip += 1;
        s.steps += 1;
        s.dec = 0;
        if s.sig != 0 && s.steps > s.replay_until.0 {
            self.replay_done(s)?;
        }
        macro_rules! o {
            ($x:expr) => {{
                match $x {
                    Op::R(r) => s.frames.last().unwrap().regs[*r as usize].clone(),
                    Op::C(c) => Val::C(*c),
                    x => {
                        let fr: *const Frame = s.frames.last().unwrap();
                        self.op(unsafe { &*fr }, x)
                    }
                }
            }};
        }
        if let (Some((f, n)), I::AtomicRmw { .. } | I::CmpXchg { .. }) = (s.irq, ins) {
            if n > 0 {
                s.irq = Some((f, n - 1));
            } else {
                // the other thread runs here, from start to end
                s.irq = None;
                s.frames.last_mut().unwrap().ip -= 1;
                let f = self.sh.m.func(f).map_err(End::Error)?;
                let regs = vec![Val::C(0); f.nregs];
                let (mark, mark_next) = (s.mem.stack.len(), s.mem.stack_next);
                self.mark(f.id, 0, f.blocks.len());
                s.frames.push(Frame { f, bb: 0, ip: 0, regs, mark, mark_next, ret_dst: None, ret_next: None });
                return Ok(());
            }
        }
        // an instruction that forks by concretizing is re-executed by the alternatives
        match ins {
            I::Bin(op, ty, d, a, b) => {
                let (x, y) = (o!(a), o!(b));
                let r = match (ty, &x, &y) {
                    (Ty::Vec(_, t), Val::A(p), Val::A(q)) => {
                        let mut v = vec![];
                        for i in 0..p.len() {
                            v.push(self.bin(*op, t.bits(), &p[i], &q[i])?);
                        }
                        Val::A(Rc::new(v))
                    }
                    _ => {
                        if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                            if let Val::C(0) = y {
                                return Err(End::Path("memory", 0, "division by zero".into()));
                            }
                        }
                        self.bin(*op, ty.bits(), &x, &y)?
                    }
                };
                Self::setreg(s, *d, r);
            }
            I::Cmp(p, ty, d, a, b) => {
                let (x, y) = (o!(a), o!(b));
                let r = match (ty, &x, &y) {
                    (Ty::Vec(_, t), Val::A(u), Val::A(q)) => {
                        let mut v = vec![];
                        for i in 0..u.len() {
                            v.push(self.cmp(*p, t.bits(), &u[i], &q[i])?);
                        }
                        Val::A(Rc::new(v))
                    }
                    _ => self.cmp(*p, ty.bits(), &x, &y)?,
                };
                Self::setreg(s, *d, r);
            }
            I::Select { cty, ty, dst, c, a, b } => {
                let (k, x, y) = (o!(c), o!(a), o!(b));
                let r = match (&k, cty) {
                    (Val::C(v), _) => {
                        if *v != 0 {
                            x
                        } else {
                            y
                        }
                    }
                    (Val::E(e), _) => self.ite(*e, ty, &x, &y)?,
                    (Val::A(ks), _) => {
                        let (Val::A(p), Val::A(q)) = (&x, &y) else { return err("vector select") };
                        let mut v = vec![];
                        for i in 0..ks.len() {
                            v.push(match &ks[i] {
                                Val::C(1) => p[i].clone(),
                                Val::C(_) => q[i].clone(),
                                Val::E(e) => self.ite(*e, ty.elem(0), &p[i], &q[i])?,
                                _ => return err("vector select"),
                            });
                        }
                        Val::A(Rc::new(v))
                    }
                };
                Self::setreg(s, *dst, r);
            }
            I::Load { dst, ty, ptr } => {
                let p = o!(ptr);
                let r = self.retry(s, |w, s| w.load(s, &p, ty))?;
                Self::setreg(s, *dst, r);
            }
            I::Store { ty, val, ptr } => {
                let (v, p) = (o!(val), o!(ptr));
                self.retry(s, |w, s| w.store(s, &p, ty, &v))?;
            }
            I::Gep { dst, base, off, idx } => {
                let b = o!(base);
                let mut r = match &b {
                    Val::C(c) => Val::C(c.wrapping_add(*off as u64)),
                    _ => self.bin(B::Add, 64, &b, &Val::C(*off as u64))?,
                };
                for (x, stride, w) in idx {
                    let v = o!(x);
                    let v = if *w < 64 { self.cast(CastK::SExt, &Ty::Int(*w), &Ty::Int(64), &v)? } else { v };
                    let t = self.bin(B::Mul, 64, &v, &Val::C(*stride as u64))?;
                    r = self.bin(B::Add, 64, &r, &t)?;
                }
                Self::setreg(s, *dst, r);
            }
            I::Cast(k, t, t2, d, a) => {
                let x = o!(a);
                let r = self.cast(*k, t, t2, &x)?;
                Self::setreg(s, *d, r);
            }
            I::Br(b) => self.goto(s, *b)?,
            I::CondBr(c, a, b) => {
                let k = o!(c);
                let side = match k {
                    Val::C(v) => v != 0,
                    Val::E(e) => {
                        let (a, b) = (*a, *b);
                        self.branch(s, e, |w, o, side| w.goto(o, if side { a } else { b }))?
                    }
                    _ => return err("br"),
                };
                self.goto(s, if side { *a } else { *b })?;
            }
            I::Switch(w, v, def, cases) => {
                let x = o!(v);
                match x {
                    Val::C(c) => {
                        let t = cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def);
                        self.goto(s, t)?;
                    }
                    Val::E(e) => {
                        // group by target
                        let mut groups: Vec<(u32, Eid)> = vec![];
                        let mut any = self.ar.cnst(0, 1);
                        for (k, t) in cases {
                            let kc = self.ar.cnst(*k as u128, *w as u8);
                            let q = self.ar.cmp(P::Eq, e, kc);
                            any = self.ar.or(any, q);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *t) {
                                g.1 = self.ar.or(g.1, q);
                            } else {
                                groups.push((*t, q));
                            }
                        }
                        let nd = self.ar.not(any);
                        if let Some(g) = groups.iter_mut().find(|g| g.0 == *def) {
                            g.1 = self.ar.or(g.1, nd);
                        } else {
                            groups.push((*def, nd));
                        }
                        let mut mine = None;
                        for g in &groups {
                            if self.ar.eval(g.1, &s.model) == 1 {
                                mine = Some(*g);
                            }
                        }
                        let Some(mine) = mine else { return err("switch") };
                        let replaying = self.replaying(s)?;
                        s.dec += 1;
                        let mut alts = vec![];
                        if !replaying {
                            self.st.branches_sym += 1;
                            for g in &groups {
                                if g.0 != mine.0 {
                                    if let Some(m) = self.query(s, g.1)? {
                                        alts.push((*g, m));
                                    }
                                }
                            }
                        }
                        let push = self.decided(s, replaying, !alts.is_empty());
                        for (g, m) in alts {
                            let mut ot = s.clone();
                            ot.model = m;
                            ot.replay_until = (s.steps, s.dec);
                            self.add_pc(&mut ot, g.1);
                            self.goto(&mut ot, g.0)?;
                            self.st.forks += 1;
                            self.stack.push(ot);
                        }
                        if push {
                            self.add_pc(s, mine.1);
                        }
                        self.goto(s, mine.0)?;
                    }
                    _ => return err("switch"),
                }
            }
            I::Ret(v) => {
                let r = v.as_ref().map(|(_, x)| o!(x));
                self.do_ret(s, r)?;
            }
            I::Unreachable => return Err(End::Path("memory", 0, "unreachable executed".into())),
            I::Alloca { dst, size, align } => {
                let base = s.mem.stack_next.div_ceil(*align) * *align;
                s.mem.stack_next = base + size + 32;
                s.mem.stack.push(Arc::new(Obj { base, size: *size, data: vec![0; *size as usize], sym: vec![], ro: false }));
                Self::setreg(s, *dst, Val::C(base));
            }
            I::ExtractValue(d, a, path) => {
                let mut x = o!(a);
                for i in path {
                    let Val::A(v) = &x else { return err("extractvalue") };
                    let y = v[*i as usize].clone();
                    x = y;
                }
                Self::setreg(s, *d, x);
            }
            I::InsertValue(d, _, a, b, path) => {
                let (x, y) = (o!(a), o!(b));
                fn ins(v: &Val, path: &[u32], y: Val) -> Option<Val> {
                    let Val::A(v) = v else { return None };
                    let mut n = (**v).clone();
                    let i = path[0] as usize;
                    n[i] = if path.len() == 1 { y } else { ins(&n[i], &path[1..], y)? };
                    Some(Val::A(Rc::new(n)))
                }
                let Some(r) = ins(&x, path, y) else { return err("insertvalue") };
                Self::setreg(s, *d, r);
            }
            I::ExtractElement(d, a, i) => {
                let (x, i) = (o!(a), o!(i));
                let (Val::A(v), Val::C(i)) = (&x, i) else { return err("extractelement") };
                let r = v[i as usize].clone();
                Self::setreg(s, *d, r);
            }
            I::InsertElement(d, _, a, b, i) => {
                let (x, y, i) = (o!(a), o!(b), o!(i));
                let (Val::A(v), Val::C(i)) = (&x, i) else { return err("insertelement") };
                let mut n = (**v).clone();
                n[i as usize] = y;
                Self::setreg(s, *d, Val::A(Rc::new(n)));
            }
            I::Shuffle(d, _, a, b, mask) => {
                let (x, y) = (o!(a), o!(b));
                let (Val::A(p), Val::A(q)) = (&x, &y) else { return err("shuffle") };
                let v = mask
                    .iter()
                    .map(|m| match m {
                        None => p[0].clone(),
                        Some(i) if (*i as usize) < p.len() => p[*i as usize].clone(),
                        Some(i) => q[*i as usize - p.len()].clone(),
                    })
                    .collect();
                Self::setreg(s, *d, Val::A(Rc::new(v)));
            }
            I::AtomicRmw { dst, op, ty, ptr, val } => {
                let (p, v) = (o!(ptr), o!(val));
                let old = self.retry(s, |w, s| w.load(s, &p, ty))?;
                let w = ty.bits();
                let nv = match op.as_str() {
                    "add" => self.bin(B::Add, w, &old, &v)?,
                    "sub" => self.bin(B::Sub, w, &old, &v)?,
                    "and" => self.bin(B::And, w, &old, &v)?,
                    "or" => self.bin(B::Or, w, &old, &v)?,
                    "xor" => self.bin(B::Xor, w, &old, &v)?,
                    "xchg" => v,
                    _ => return err(format!("atomicrmw {op}")),
                };
                self.store(s, &p, ty, &nv)?;
                Self::setreg(s, *dst, old);
            }
            I::CmpXchg { dst, ty, ptr, cmp, new } => {
                let (p, c, n) = (o!(ptr), o!(cmp), o!(new));
                let old = self.load(s, &p, ty)?;
                let (Val::C(x), Val::C(y)) = (&old, &c) else { return err("symbolic cmpxchg") };
                let ok = x == y;
                if ok {
                    self.store(s, &p, ty, &n)?;
                }
                Self::setreg(s, *dst, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
            }
            I::Copy(d, _, a) => {
                let x = o!(a);
                Self::setreg(s, *d, x);
            }
            I::Nop => {}
            I::FNeg(t, d, a) => {
                let Val::C(x) = o!(a) else { return err("symbolic float") };
                let r = if *t == Ty::Float { (-f32::from_bits(x as u32)).to_bits() as u64 } else { (-f64::from_bits(x)).to_bits() };
                Self::setreg(s, *d, Val::C(r));
            }
            I::FBin(k, t, d, a, b) => {
                let (Val::C(x), Val::C(y)) = (o!(a), o!(b)) else { return err("symbolic float") };
                let r = if *t == Ty::Float {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match k {
                        '+' => x + y,
                        '-' => x - y,
                        '*' => x * y,
                        '/' => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u64
                } else {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    (match k {
                        '+' => x + y,
                        '-' => x - y,
                        '*' => x * y,
                        '/' => x / y,
                        _ => x % y,
                    })
                    .to_bits()
                };
                Self::setreg(s, *d, Val::C(r));
            }
            I::FCmp(p, t, d, a, b) => {
                let (Val::C(x), Val::C(y)) = (o!(a), o!(b)) else { return err("symbolic float") };
                let (x, y) = if *t == Ty::Float {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                } else {
                    (f64::from_bits(x), f64::from_bits(y))
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => un || x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "true" => true,
                    _ => false,
                };
                Self::setreg(s, *d, Val::C(r as u64));
            }
            I::Unsupported(e) => return err(format!("unsupported: {e}")),
            I::Call { dst, rty, callee, args, next } => {
                let fid = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(p) => {
                        let p = o!(p);
                        let a = self.retry(s, |w, s| w.concretize(s, &p))?;
                        match self.sh.m.faddr.get(&a) {
                            Some(f) => *f,
                            None => return Err(End::Path("memory", 0, format!("call to {a:#x}"))),
                        }
                    }
                };
                let kind = self.sh.kinds[fid];
                if kind == K::Normal {
                    let f = self.sh.m.func(fid).map_err(End::Error)?;
                    let mut regs = vec![Val::C(0); f.nregs];
                    for (i, (_, a)) in args.iter().enumerate() {
                        if i < f.nparams {
                            regs[i] = o!(a);
                        }
                    }
                    if s.frames.len() > 400 {
                        return err("call depth");
                    }
                    let (mark, mark_next) = (s.mem.stack.len(), s.mem.stack_next);
                    self.mark(f.id, 0, f.blocks.len());
                    s.frames.push(Frame { f, bb: 0, ip: 0, regs, mark, mark_next, ret_dst: *dst, ret_next: *next });
                    return Ok(());
                }
                let av: Vec<Val> = args.iter().map(|(_, a)| o!(a)).collect();
                let r = self.retry(s, |w, s| w.intrinsic(s, kind, fid, rty, args, &av))?;
                if let (Some(d), Some(v)) = (dst, r) {
                    Self::setreg(s, *d, v);
                }
                if let Some(n) = next {
                    self.goto(s, *n)?;
                }
            }
        }
        Ok(())
    }
    /// Run an operation that may concretize: alternatives must re-execute this instruction, so the
    /// instruction pointer is moved back while it runs.
    fn retry<T>(&mut self, s: &mut State, f: impl FnOnce(&mut Worker, &mut State) -> X<T>) -> X<T> {
        let depth = s.frames.len();
        s.frames[depth - 1].ip -= 1;
        let r = f(self, s);
        if r.is_ok() {
            s.frames[depth - 1].ip += 1;
        }
        r
    }
    fn cst(&mut self, s: &mut State, v: &Val) -> X<u64> {
        self.concretize(s, v)
    }

    fn intrinsic(&mut self, s: &mut State, k: K, fid: usize, rty: &Ty, args: &[(Ty, Op)], a: &[Val]) -> X<Option<Val>> {
        let r = match k {
            K::Normal => unreachable!(),
            K::Unknown => return err(format!("call to unmodelled function {}", self.sh.m.funcs[fid].name)),
            K::Panic => return Err(End::Path("panic", 0, self.sh.m.funcs[fid].name.clone())),
            K::Var => {
                let (Val::C(lo), Val::C(hi)) = (&a[0], &a[1]) else { return err("sym_var bounds must be concrete") };
                let (lo, hi) = (*lo, *hi);
                if lo > hi {
                    return Err(End::Path("pruned", 0, String::new()));
                }
                let max = hi - lo;
                let idx = s.vars.len() as u32;
                if idx >= 127 {
                    return err("more than 126 symbolic variables");
                }
                if max == 0 {
                    let e = self.ar.cnst(0, 64);
                    s.vars.push(e);
                    s.vlo.push(lo);
                    s.dom.push(1);
                    s.fixed |= 1 << idx;
                    if s.model.len() <= idx as usize {
                        s.model.push(0);
                    }
                    return Ok(Some(Val::C(lo)));
                }
                let w = (64 - max.leading_zeros()) as u8;
                let v = self.ar.var(idx, w, max);
                s.vars.push(v);
                s.vlo.push(lo);
                s.dom.push(if max < 64 { u64::MAX >> (63 - max) } else { 0 });
                if s.model.len() <= idx as usize {
                    s.model.resize(idx as usize + 1, 0);
                }
                let e = self.ar.zext(v, 64);
                let l = self.ar.cnst(lo as u128, 64);
                let e = self.ar.bin(B::Add, e, l);
                Some(self.val(e))
            }
            K::Choose => {
                // a symbolic value that is split into one state per feasible value
                let c = self.cst(s, &a[0])?;
                Some(Val::C(c))
            }
            K::Assume => match &a[0] {
                Val::C(c) => {
                    if *c & 1 == 0 {
                        return Err(End::Path("pruned", 0, String::new()));
                    }
                    None
                }
                Val::E(e) => {
                    let e = *e;
                    if self.replaying(s)? {
                        self.add_pc(s, e);
                    } else if self.ar.eval(e, &s.model) == 1 {
                        let ne = self.ar.not(e);
                        let _ = ne;
                        self.add_pc(s, e);
                    } else {
                        match self.query(s, e)? {
                            Some(m) => {
                                s.model = m;
                                self.add_pc(s, e);
                            }
                            None => return Err(End::Path("pruned", 0, String::new())),
                        }
                    }
                    None
                }
                _ => return err("assume"),
            },
            K::Check => {
                let id = self.cst(s, &a[1])?;
                match &a[0] {
                    Val::C(c) => {
                        if *c & 1 == 0 {
                            return Err(End::Path("check", id as u32, String::new()));
                        }
                        if !self.replaying(s)? {
                            self.st.checks_const += 1;
                        }
                        None
                    }
                    Val::E(e) => {
                        let e = *e;
                        if self.replaying(s)? {
                            if self.decided(s, true, true) {
                                self.add_pc(s, e);
                            }
                            return Ok(None);
                        }
                        self.st.checks_solver += 1;
                        let ne = self.ar.not(e);
                        let alt = self.query(s, ne)?;
                        self.decided(s, false, alt.is_some());
                        if let Some(m) = alt {
                            let mut o = s.clone();
                            o.model = m;
                            self.end_path(o, "check", id as u32, String::new());
                            if self.ar.eval(e, &s.model) != 1 {
                                match self.query(s, e)? {
                                    Some(m) => s.model = m,
                                    None => return Err(End::Path("pruned", 0, String::new())),
                                }
                            }
                            self.add_pc(s, e);
                        }
                        None
                    }
                    _ => return err("check"),
                }
            }
            K::Cover => {
                let id = self.cst(s, &a[0])?;
                if !self.replaying(s)? {
                    *self.covers.entry(id as u32).or_default() += 1;
                }
                None
            }
            K::Note => {
                let id = self.cst(s, &a[0])?;
                if id as u32 >> 8 == 0x5eed00 {
                    s.seed = id as u8;
                } else {
                    s.notes.push(id as u32);
                }
                None
            }
            K::Irq => {
                let f = self.cst(s, &a[0])?;
                let n = self.cst(s, &a[1])?;
                let Some(f) = self.sh.m.faddr.get(&f) else { return err("irq handler") };
                s.irq = Some((*f, n));
                None
            }
            K::Observe => {
                s.obs.push(a[0].clone());
                None
            }
            K::ExpectPanic => {
                let v = self.cst(s, &a[0])?;
                s.expect_panic = v & 1 == 1;
                None
            }
            K::Malloc => {
                let n = self.cst(s, &a[0])?;
                Some(Val::C(self.alloc(s, n, 16, false)?))
            }
            K::Calloc => {
                let n = self.cst(s, &a[0])?;
                let m = self.cst(s, &a[1])?;
                Some(Val::C(self.alloc(s, n * m, 16, true)?))
            }
            K::Memalign => {
                let p = self.cst(s, &a[0])?;
                let al = self.cst(s, &a[1])?;
                let n = self.cst(s, &a[2])?;
                let b = self.alloc(s, n, al, false)?;
                self.store(s, &Val::C(p), &Ty::Ptr, &Val::C(b))?;
                Some(Val::C(0))
            }
            K::Realloc => {
                let p = self.cst(s, &a[0])?;
                let n = self.cst(s, &a[1])?;
                let Ok(i) = s.mem.heap.binary_search_by(|o| o.base.cmp(&p)) else {
                    return Err(End::Path("memory", 0, format!("realloc of {p:#x}")));
                };
                let old = s.mem.heap[i].size;
                let b = self.alloc(s, n, 16, false)?;
                self.copy_bytes(s, b, p, old.min(n))?;
                self.free(s, p)?;
                Some(Val::C(b))
            }
            K::Free => {
                let p = self.cst(s, &a[0])?;
                self.free(s, p)?;
                None
            }
            K::Memcpy => {
                let n = self.cst(s, &a[2])?;
                if n > 0 {
                    let d = self.cst(s, &a[0])?;
                    let p = self.cst(s, &a[1])?;
                    self.copy_bytes(s, d, p, n)?;
                }
                Some(a[0].clone())
            }
            K::Memset => {
                let n = self.cst(s, &a[2])?;
                if n > 0 {
                    let d = self.cst(s, &a[0])?;
                    let vw = args[1].0.bits();
                    let b = if vw > 8 { self.cast(CastK::Trunc, &Ty::Int(vw), &Ty::Int(8), &a[1])? } else { a[1].clone() };
                    if let Val::C(c) = b {
                        let (wh, off) = self.locate(&s.mem, d, n)?;
                        let o = self.obj_mut(&mut s.mem, wh)?;
                        o.data[off..off + n as usize].fill(c as u8);
                        if !o.sym.is_empty() {
                            o.sym[off..off + n as usize].fill(0);
                        }
                    } else {
                        for i in 0..n {
                            self.store(s, &Val::C(d + i), &Ty::Int(8), &b)?;
                        }
                    }
                }
                Some(a[0].clone())
            }
            K::Bcmp | K::Memcmp => {
                let n = self.cst(s, &a[2])?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let p = self.cst(s, &a[0])?;
                let q = self.cst(s, &a[1])?;
                let mut r = self.ar.cnst(0, 32);
                for i in (0..n).rev() {
                    let x = self.byte(s, p + i)?;
                    let y = self.byte(s, q + i)?;
                    let (x, y) = (self.ex(&x, 8)?, self.ex(&y, 8)?);
                    let eq = self.ar.cmp(P::Eq, x, y);
                    let lt = self.ar.cmp(P::Ult, x, y);
                    let m1 = self.ar.cnst(0xffff_ffff, 32);
                    let p1 = self.ar.cnst(1, 32);
                    let d = if k == K::Bcmp { p1 } else { self.ar.ite(lt, m1, p1) };
                    r = self.ar.ite(eq, r, d);
                }
                Some(self.val(r))
            }
            K::Strlen => {
                let p = self.cst(s, &a[0])?;
                let mut n = 0;
                loop {
                    match self.byte(s, p + n)? {
                        Val::C(0) => break,
                        Val::C(_) => n += 1,
                        _ => return err("symbolic strlen"),
                    }
                }
                Some(Val::C(n))
            }
            K::GetRandom => {
                let p = self.cst(s, &a[0])?;
                let n = self.cst(s, &a[1])?;
                for i in 0..n {
                    self.store(s, &Val::C(p + i), &Ty::Int(8), &Val::C(s.seed as u64))?;
                }
                Some(Val::C(n))
            }
            K::Syscall => {
                let nr = self.cst(s, &a[0])?;
                if nr == 318 {
                    let p = self.cst(s, &a[1])?;
                    let n = self.cst(s, &a[2])?;
                    for i in 0..n {
                        self.store(s, &Val::C(p + i), &Ty::Int(8), &Val::C(s.seed as u64))?;
                    }
                    Some(Val::C(n))
                } else if nr == 202 {
                    // futex wait: this thread cannot go on in this schedule
                    return Err(End::Path("pruned", 0, String::new()));
                } else {
                    return err(format!("syscall {nr}"));
                }
            }
            K::Ret0 => Some(Val::C(0)),
            K::Nop => Some(Val::C(0)),
            K::Ident => Some(a[0].clone()),
            K::False => Some(Val::C(0)),
            K::OvU(op) | K::OvS(op) => {
                let w = args[0].0.bits();
                let signed = matches!(k, K::OvS(_));
                let r = self.bin(op, w, &a[0], &a[1])?;
                if let (Val::C(x), Val::C(y), false) = (&a[0], &a[1], signed) {
                    let m: u128 = if w == 64 { u64::MAX as u128 } else { (1u128 << w) - 1 };
                    let (x, y) = (*x as u128, *y as u128);
                    let ov = match op {
                        B::Add => x + y > m,
                        B::Sub => x < y,
                        _ => x * y > m,
                    };
                    return Ok(Some(Val::A(Rc::new(vec![r, Val::C(ov as u64)]))));
                }
                let x = self.ex(&a[0], w)?;
                let y = self.ex(&a[1], w)?;
                let ov = if !signed && op == B::Sub {
                    self.ar.cmp(P::Ult, x, y)
                } else {
                    let w2 = (2 * w).min(128) as u8;
                    if w > 64 {
                        return err("overflow op on wide int");
                    }
                    let (x2, y2) = if signed { (self.ar.sext(x, w2), self.ar.sext(y, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2)) };
                    let r2 = self.ar.bin(op, x2, y2);
                    let rn = self.ar.extract(r2, 0, w as u8);
                    let back = if signed { self.ar.sext(rn, w2) } else { self.ar.zext(rn, w2) };
                    self.ar.cmp(P::Ne, r2, back)
                };
                let ov = self.val(ov);
                Some(Val::A(Rc::new(vec![r, ov])))
            }
            K::MinMax(p) => {
                if let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) {
                    let t = args[0].0.elem(0).clone();
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(self.minmax(p, &t, &x[i], &y[i])?);
                    }
                    return Ok(Some(Val::A(Rc::new(v))));
                }
                Some(self.minmax(p, &args[0].0, &a[0], &a[1])?)
            }
            K::Abs => {
                let t = &args[0].0;
                let w = t.bits();
                let neg = self.bin(B::Sub, w, &Val::C(0), &a[0])?;
                let c = self.cmp(P::Slt, w, &a[0], &Val::C(0))?;
                let c = self.ex(&c, 1)?;
                Some(self.ite(c, t, &neg, &a[0])?)
            }
            K::Ctpop | K::Ctlz | K::Cttz | K::Bswap | K::Bitrev => {
                let t = &args[0].0;
                if !t.is_scalar() {
                    return err("vector bit op");
                }
                let w = t.bits();
                if let Val::C(c) = a[0] {
                    let r = match k {
                        K::Ctpop => c.count_ones() as u64,
                        K::Ctlz => (c.leading_zeros() - (64 - w)) as u64,
                        K::Cttz => (c.trailing_zeros().min(w)) as u64,
                        K::Bswap => c.swap_bytes() >> (64 - w),
                        _ => c.reverse_bits() >> (64 - w),
                    };
                    return Ok(Some(Val::C(r)));
                }
                let e = self.ex(&a[0], w)?;
                let w8 = w as u8;
                let r = match k {
                    K::Ctpop => {
                        let mut r = self.ar.cnst(0, w8);
                        for i in 0..w8 {
                            let b = self.ar.extract(e, i, 1);
                            let z = self.ar.zext(b, w8);
                            r = self.ar.bin(B::Add, r, z);
                        }
                        r
                    }
                    K::Cttz => {
                        let mut r = self.ar.cnst(w as u128, w8);
                        for i in (0..w8).rev() {
                            let b = self.ar.extract(e, i, 1);
                            let k = self.ar.cnst(i as u128, w8);
                            r = self.ar.ite(b, k, r);
                        }
                        r
                    }
                    K::Ctlz => {
                        let mut r = self.ar.cnst(w as u128, w8);
                        for i in 0..w8 {
                            let b = self.ar.extract(e, i, 1);
                            let k = self.ar.cnst((w8 - 1 - i) as u128, w8);
                            r = self.ar.ite(b, k, r);
                        }
                        r
                    }
                    K::Bswap => {
                        let mut r: Option<Eid> = None;
                        for i in 0..w8 / 8 {
                            let b = self.ar.extract(e, 8 * i, 8);
                            r = Some(match r {
                                None => b,
                                Some(h) => self.ar.concat(h, b),
                            });
                        }
                        r.unwrap()
                    }
                    _ => {
                        let mut r: Option<Eid> = None;
                        for i in 0..w8 {
                            let b = self.ar.extract(e, i, 1);
                            r = Some(match r {
                                None => b,
                                Some(h) => self.ar.concat(h, b),
                            });
                        }
                        r.unwrap()
                    }
                };
                Some(self.val(r))
            }
            K::Fshl | K::Fshr => {
                let w = args[0].0.bits();
                if w > 64 || !args[0].0.is_scalar() {
                    return err("wide fsh");
                }
                let x = self.ex(&a[0], w)?;
                let y = self.ex(&a[1], w)?;
                let n = self.ex(&a[2], w)?;
                let w8 = w as u8;
                let kw = self.ar.cnst(w as u128, w8);
                let n = self.ar.bin(B::URem, n, kw);
                let cat = self.ar.concat(x, y);
                let n2 = self.ar.zext(n, 2 * w8);
                let r = if k == K::Fshl {
                    let t = self.ar.bin(B::Shl, cat, n2);
                    self.ar.extract(t, w8, w8)
                } else {
                    let t = self.ar.bin(B::LShr, cat, n2);
                    self.ar.extract(t, 0, w8)
                };
                Some(self.val(r))
            }
            K::SatU(op) => {
                let t = &args[0].0;
                let w = t.bits();
                let r = self.bin(op, w, &a[0], &a[1])?;
                if op == B::Sub {
                    let c = self.cmp(P::Ult, w, &a[0], &a[1])?;
                    let c = self.ex(&c, 1)?;
                    Some(self.ite(c, t, &Val::C(0), &r)?)
                } else {
                    let c = self.cmp(P::Ult, w, &r, &a[0])?;
                    let c = self.ex(&c, 1)?;
                    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                    Some(self.ite(c, t, &Val::C(m), &r)?)
                }
            }
            K::Cmp3(signed) => {
                let w = args[0].0.bits();
                let rw = rty.bits();
                let m = if rw == 64 { u64::MAX } else { (1u64 << rw) - 1 };
                let lt = self.cmp(if signed { P::Slt } else { P::Ult }, w, &a[0], &a[1])?;
                let eq = self.cmp(P::Eq, w, &a[0], &a[1])?;
                let (lt, eq) = (self.ex(&lt, 1)?, self.ex(&eq, 1)?);
                let x = self.ite(eq, rty, &Val::C(0), &Val::C(1))?;
                Some(self.ite(lt, rty, &Val::C(m), &x)?)
            }
            K::Reduce(op) => {
                let Val::A(v) = &a[0] else { return err("reduce") };
                let w = args[0].0.elem(0).bits();
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = self.bin(op, w, &r, x)?;
                }
                Some(r)
            }
            K::ReduceMM(p) => {
                let Val::A(v) = &a[0] else { return err("reduce") };
                let t = args[0].0.elem(0).clone();
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = self.minmax(p, &t, &r, x)?;
                }
                Some(r)
            }
            K::LoadRel => {
                let base = self.cst(s, &a[0])?;
                let off = self.cst(s, &a[1])?;
                let v = self.load_at(&s.mem, base.wrapping_add(off), &Ty::Int(32))?;
                let Val::C(v) = v else { return err("load.relative") };
                Some(Val::C(base.wrapping_add(sext64(v, 32))))
            }
            K::Float(f) => {
                let t = &args[0].0;
                let mut x = vec![];
                for v in a {
                    let Val::C(c) = v else { return err("symbolic float") };
                    x.push(if *t == Ty::Float { f32::from_bits(*c as u32) as f64 } else { f64::from_bits(*c) });
                }
                let put = |f: f64| if *t == Ty::Float { (f as f32).to_bits() as u64 } else { f.to_bits() };
                Some(Val::C(match f {
                    "floor" => put(x[0].floor()),
                    "ceil" => put(x[0].ceil()),
                    "abs" => put(x[0].abs()),
                    "sqrt" => put(x[0].sqrt()),
                    "trunc" => put(x[0].trunc()),
                    "round" => put(x[0].round()),
                    "max" => put(x[0].max(x[1])),
                    "min" => put(x[0].min(x[1])),
                    "fma" => put(x[0] * x[1] + x[2]),
                    "toui" => {
                        let w = rty.bits();
                        if w == 64 {
                            x[0] as u64
                        } else {
                            (x[0] as u64).min((1u64 << w) - 1)
                        }
                    }
                    _ => {
                        if rty.bits() != 64 {
                            return err("fptosi.sat width");
                        }
                        x[0] as i64 as u64
                    }
                }))
            }
        };
        Ok(r)
    }
    fn minmax(&mut self, p: P, t: &Ty, x: &Val, y: &Val) -> X<Val> {
        let c = self.cmp(p, t.bits(), x, y)?;
        match c {
            Val::C(c) => Ok(if c == 1 { x.clone() } else { y.clone() }),
            Val::E(e) => self.ite(e, t, x, y),
            _ => err("minmax"),
        }
    }
}

pub fn explore(sh: Arc<Shared>, entry: usize) -> Duration {
    let t = Instant::now();
    sh.queue.lock().unwrap().0.push_back(Task { model: vec![], pos: (0, 0), log: vec![], sig: 0 });
    let hs: Vec<_> = (0..sh.nthreads)
        .map(|_| {
            let sh = sh.clone();
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut w = Worker::new(sh);
                    w.run(entry);
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            sh.errors.lock().unwrap().push("engine panic".into());
        }
    }
    t.elapsed()
}
