//! The symbolic executor: runs LLVM IR over concrete and symbolic values, forking at branches
//! that the solver finds feasible both ways.
use crate::expr::{self, *};
use crate::ir::*;
use crate::mem::*;
use crate::par::{Access, Par};
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    base: u32,
    dst: u32, // register of the caller, or MAX
    allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    mem: Mem,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    widths: Vec<u8>,
    doms: Vec<Dom>,
    cons: Vec<ExprRef>,
    multi: VarSet,
    model: Arc<Vec<u64>>,
    mid: u64,
    obs: Vec<ExprRef>,
    decided: Vec<(u128, bool)>,
    conc: Vec<(u128, u64)>,
    steps: u64,
    expect_panic: bool,
    par: Option<Box<Par<Frame>>>,
    errno: u64,
}
impl State {
    /// Let the other thread run.
    fn switch(&mut self) {
        self.decided.clear();
        let p = self.par.as_mut().unwrap();
        for _ in 0..2 {
            let t = &mut p.threads[p.cur];
            std::mem::swap(&mut t.frames, &mut self.frames);
            std::mem::swap(&mut t.regs, &mut self.regs);
            p.cur = 1 - p.cur;
        }
        p.cur = 1 - p.cur;
        p.switches += 1;
        p.decided = true;
        self.mem.owner = p.cur as u8 + 1;
    }
}

pub enum End {
    Done,
    Cut,
    Panicked,
    Cand(&'static str, String),
    Incomplete(String),
    /// (both ways of a branch were to be merged, and cannot be)
    Fork,
}
type R<T> = Result<T, End>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sp {
    Body,
    Panic,
    Nop,
}

#[derive(Clone)]
pub struct Candidate {
    pub kind: &'static str,
    pub detail: String,
    pub inputs: Vec<(u8, u64)>,
    pub trace: Vec<String>,
}
#[derive(Clone)]
pub struct PathRec {
    pub key: u64,
    pub inputs: Vec<(u8, u64)>,
    pub obs: Vec<u64>,
    pub outcome: char,
}

pub struct Opts {
    pub tier: u32,
    pub seed: u64,
    pub threads: usize,
    pub max_steps: u64,
    pub samples: usize,
    pub max_cands: usize,
    pub after_candidate: std::time::Duration,
    pub deadline: Instant,
    pub max_rss: u64,
    pub trace: bool,
}

pub struct Prep {
    pub m: Module,
    sp: Vec<Sp>,
    pub bstart: Vec<u32>, // first global block number of each function
    pub nblocks: u32,
    /// by block: where the ways of its branch meet, if that can be merged
    joins: Vec<std::sync::OnceLock<Option<u32>>>,
    ng: u32,
    nf: u32,
    mem0: Mem,
    pub by_name: HashMap<String, u32>,
}

impl Prep {
    pub fn new(m: Module) -> Prep {
        let mut mem = Mem::new();
        for g in &m.globals {
            let n = g.bytes.len() as u32;
            let mut o = Obj::new(n, 16, if g.constant { OKind::Const } else { OKind::Global });
            o.data.copy_from_slice(&g.bytes);
            if g.init.iter().all(|x| *x) {
                o.st = St::Init;
            } else {
                o.st = St::Map(g.init.iter().map(|x| if *x { 0 } else { 1 }).collect());
            }
            mem.add(o);
        }
        for _ in 0..m.funcs.len() + m.externs.len() {
            mem.add(Obj::new(16, 16, OKind::Func));
        }
        let mut sp = vec![];
        let mut bstart = vec![];
        let mut nb = 0;
        let mut by_name = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            let n = &f.name;
            sp.push(if is_panic(n) {
                Sp::Panic
            } else if n.ends_with("3std2io5stdio7__eprint") || n.ends_with("3std2io5stdio6__print")
                || n.contains("3std2io5stdio6_print") || n.contains("3std2io5stdio7_eprint")
            {
                Sp::Nop
            } else {
                Sp::Body
            });
            bstart.push(nb);
            nb += f.blocks.len() as u32;
            by_name.insert(n.clone(), i as u32);
        }
        Prep {
            ng: m.globals.len() as u32,
            nf: m.funcs.len() as u32,
            sp,
            bstart,
            nblocks: nb,
            joins: (0..nb).map(|_| Default::default()).collect(),
            mem0: mem,
            by_name,
            m,
        }
    }
}

/// Functions whose start means that the program panics.
fn is_panic(n: &str) -> bool {
    if !n.starts_with("_R") {
        return n == "rust_panic";
    }
    let core_panic = n.contains("4core9panicking") || n.contains("3std9panicking");
    let generic_use = n.contains("3fmt"); // impls of Display/Debug for panic types
    (core_panic && !generic_use && !n.contains("catch_unwind") && !n.contains("do_call") && !n.contains("do_catch") && !n.contains("panic_count") && !n.contains("panicking11panic_count")
        && !n.contains("9panicking9panicking") && !n.contains("panic_nounwind_nobacktrace_never"))
        || n.contains("4core6option13unwrap_failed")
        || n.contains("4core6option13expect_failed")
        || n.contains("4core6result13unwrap_failed")
        || n.contains("5alloc18handle_alloc_error")
        || n.contains("7raw_vec17capacity_overflow")
        || n.contains("7raw_vec12handle_error")
}

pub struct Run<'a> {
    pub p: &'a Prep,
    pub o: &'a Opts,
    pub sh: Arc<Shared>,
    pub entry: u32,
    /// When this entry's share of the time ends.
    pub until: Instant,
    queue: Mutex<Vec<State>>,
    qlen: AtomicUsize,
    idle: AtomicUsize,
    pub stop: AtomicBool,
    pub incomplete: Mutex<Vec<String>>,
    pub cands: Mutex<Vec<Candidate>>,
    pub covers: Mutex<HashSet<u64>>,
    pub samples: Mutex<BTreeMap<(u64, u64), PathRec>>,
    pub paths: AtomicU64,
    pub cut: AtomicU64,
    pub panicked: AtomicU64,
    pub forks: AtomicU64,
    pub merges: AtomicU64,
    pub steps: AtomicU64,
    pub max_path_steps: AtomicU64,
    pub asserts: AtomicU64,
    pub asserts_folded: AtomicU64,
    pub asserts_solver: AtomicU64,
    pub max_depth: AtomicU64,
    pub blocks: Mutex<Vec<u8>>,
    mids: AtomicU64,
    /// Set by the first candidate: the run ends soon after it.
    hurry: Mutex<Option<Instant>>,
    hurried: AtomicBool,
}

impl<'a> Run<'a> {
    pub fn new(p: &'a Prep, o: &'a Opts, sh: Arc<Shared>, entry: u32, until: Instant) -> Run<'a> {
        Run {
            until,
            p,
            o,
            sh,
            entry,
            queue: Mutex::new(vec![]),
            qlen: AtomicUsize::new(0),
            idle: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            incomplete: Mutex::new(vec![]),
            cands: Mutex::new(vec![]),
            covers: Mutex::new(HashSet::new()),
            samples: Mutex::new(BTreeMap::new()),
            paths: AtomicU64::new(0),
            cut: AtomicU64::new(0),
            panicked: AtomicU64::new(0),
            forks: AtomicU64::new(0),
            merges: AtomicU64::new(0),
            steps: AtomicU64::new(0),
            max_path_steps: AtomicU64::new(0),
            asserts: AtomicU64::new(0),
            asserts_folded: AtomicU64::new(0),
            asserts_solver: AtomicU64::new(0),
            max_depth: AtomicU64::new(0),
            blocks: Mutex::new(vec![0; p.nblocks as usize]),
            mids: AtomicU64::new(1),
            hurry: Mutex::new(None),
            hurried: AtomicBool::new(false),
        }
    }
    fn late(&self) -> bool {
        let now = Instant::now();
        now > self.until
            || self.hurried.load(Relaxed) && self.hurry.lock().unwrap().is_some_and(|t| now > t)
    }
    pub fn go(&self) {
        let f = &self.p.m.funcs[self.entry as usize];
        let st = State {
            mem: self.p.mem0.clone(),
            regs: vec![Val::C(0); f.nregs as usize],
            frames: vec![Frame {
                func: self.entry,
                block: 0,
                ip: 0,
                base: 0,
                dst: u32::MAX,
                allocas: vec![],
            }],
            widths: vec![],
            doms: vec![],
            cons: vec![],
            multi: VarSet::EMPTY,
            model: Arc::new(vec![]),
            mid: 0,
            obs: vec![],
            decided: vec![],
            conc: vec![],
            steps: 0,
            expect_panic: false,
            par: None,
            errno: 0,
        };
        self.queue.lock().unwrap().push(st);
        self.qlen.store(1, SeqCst);
        std::thread::scope(|s| {
            for _ in 0..self.o.threads {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, || {
                        let mut w = Worker {
                            r: self,
                            p: self.p,
                            z: Z3::new(self.sh.clone()),
                            stack: vec![],
                            blocks: vec![0; self.p.nblocks as usize],
                            tick: 0,
                            atomic: false,
                            merging: 0,
                            stores: vec![],
                            dead: vec![],
                            vain: HashMap::new(),
                        };
                        w.work();
                        let mut g = self.blocks.lock().unwrap();
                        for (a, b) in g.iter_mut().zip(w.blocks.iter()) {
                            *a |= *b;
                        }
                    })
                    .unwrap();
            }
        });
    }
    fn incomplete(&self, s: String) {
        let mut g = self.incomplete.lock().unwrap();
        if g.len() < 20 && !g.contains(&s) {
            g.push(s);
        }
    }
}

struct Worker<'a> {
    r: &'a Run<'a>,
    p: &'a Prep,
    z: Z3,
    stack: Vec<State>,
    blocks: Vec<u8>,
    tick: u32,
    atomic: bool,
    /// how many branches are being merged
    merging: u32,
    /// what has been written since the outermost of them
    stores: Vec<(u32, usize, usize)>,
    /// the variables whose life has ended since then
    dead: Vec<u32>,
    /// by block: attempts to merge that were in vain, less those that were not
    vain: HashMap<u32, i32>,
}

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
}

#[inline]
fn ex(v: &Val, w: u8) -> ExprRef {
    match v {
        Val::C(c) => konst(*c as u128, w),
        Val::E(e) => {
            debug_assert!(e.w == w, "width {} for {}", e.w, w);
            e.clone()
        }
        Val::A(v) => {
            // a vector used as an integer
            let mut it = v.iter().rev();
            let ew = w / v.len() as u8;
            let mut r = ex(it.next().unwrap(), ew);
            for x in it {
                r = concat(&r, &ex(x, ew));
            }
            r
        }
    }
}
#[inline]
fn vl(e: ExprRef) -> Val {
    if e.w <= 64 {
        if let Some(c) = e.as_const() {
            return Val::C(c as u64);
        }
    }
    Val::E(e)
}
#[inline]
fn bin64(op: Op, a: u64, b: u64, w: u8) -> u64 {
    let m = mask64(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        _ => eval_bin(op, a as u128, b as u128, w) as u64,
    }
}
fn bw(op: Op, w: u8, a: &Val, b: &Val) -> Val {
    if w <= 64 {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(bin64(op, *x, *y, w));
        }
    }
    vl(bin(op, &ex(a, w), &ex(b, w)))
}
fn cmpv(op: Op, neg: bool, swap: bool, w: u8, a: &Val, b: &Val) -> Val {
    let (a, b) = if swap { (b, a) } else { (a, b) };
    match bw(op, w, a, b) {
        Val::C(x) => Val::C(if neg { x ^ 1 } else { x }),
        Val::E(e) => {
            if neg {
                vl(not(&e))
            } else {
                Val::E(e)
            }
        }
        _ => unreachable!(),
    }
}
fn ite_val(c: &ExprRef, t: &Ty, a: &Val, b: &Val) -> Val {
    match t {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                return Val::A(Arc::new(
                    x.iter()
                        .zip(y.iter())
                        .enumerate()
                        .map(|(i, (p, q))| ite_val(c, t.field(i), p, q))
                        .collect(),
                ));
            }
            a.clone()
        }
        _ => {
            let w = t.bits() as u8;
            vl(ite(c, &ex(a, w), &ex(b, w)))
        }
    }
}
fn vec_of(v: &Val) -> Arc<Vec<Val>> {
    match v {
        Val::A(x) => x.clone(),
        _ => Arc::new(vec![v.clone()]),
    }
}
/// value of type `t` as one bit-vector
fn to_bits(t: &Ty, v: &Val) -> ExprRef {
    match t {
        Ty::Vec(_, et) => {
            let x = vec_of(v);
            let mut r = to_bits(et, x.last().unwrap());
            for k in (0..x.len() - 1).rev() {
                r = concat(&r, &to_bits(et, &x[k]));
            }
            r
        }
        _ => ex(v, t.bits() as u8),
    }
}
fn from_bits(t: &Ty, e: &ExprRef) -> Val {
    match t {
        Ty::Vec(n, et) => {
            let ew = et.bits() as u8;
            Val::A(Arc::new(
                (0..*n)
                    .map(|k| vl(extract(e, k as u8 * ew, ew)))
                    .collect(),
            ))
        }
        _ => vl(e.clone()),
    }
}
fn add_all(e: &ExprRef) -> ExprRef {
    // number of set bits, in the width of e
    let w = e.w;
    let mut r = konst(0, w);
    for k in 0..w {
        r = bin(Op::Add, &r, &zx(&extract(e, k, 1), w));
    }
    r
}
fn zx(e: &ExprRef, w: u8) -> ExprRef {
    if e.w == w {
        e.clone()
    } else {
        zext(e, w)
    }
}

/// The conjuncts of a condition.
fn conjuncts(c: &ExprRef, out: &mut Vec<ExprRef>) {
    if out.len() < 4096 {
        if let Kind::Bin(Op::And, a, b) = &c.kind {
            if c.w == 1 {
                conjuncts(a, out);
                conjuncts(b, out);
                return;
            }
        }
    }
    out.push(c.clone());
}

impl<'a> Worker<'a> {
    fn work(&mut self) {
        let mut was_idle = false;
        loop {
            if self.r.stop.load(Relaxed) {
                return;
            }
            let st = match self.stack.pop() {
                Some(s) => Some(s),
                None => {
                    let mut q = self.r.queue.lock().unwrap();
                    let s = q.pop();
                    self.r.qlen.store(q.len(), SeqCst);
                    if s.is_some() && was_idle {
                        self.r.idle.fetch_sub(1, SeqCst);
                        was_idle = false;
                    }
                    if s.is_none() && !was_idle {
                        self.r.idle.fetch_add(1, SeqCst);
                        was_idle = true;
                    }
                    drop(q);
                    s
                }
            };
            match st {
                Some(s) => self.run(s),
                None => {
                    if self.r.idle.load(SeqCst) == self.r.o.threads {
                        return;
                    }
                    std::thread::sleep(std::time::Duration::from_micros(200));
                }
            }
        }
    }
    fn balance(&mut self) {
        if !self.stack.is_empty()
            && self.r.idle.load(Relaxed) > 0
            && self.r.qlen.load(Relaxed) < self.r.o.threads
        {
            let k = (self.stack.len() + 1) / 2;
            let mut q = self.r.queue.lock().unwrap();
            q.extend(self.stack.drain(..k));
            self.r.qlen.store(q.len(), SeqCst);
        }
    }
    fn run(&mut self, mut st: State) {
        let s0 = st.steps;
        let end = loop {
            match self.slice(&mut st, u32::MAX) {
                Ok(()) => {
                    if self.r.stop.load(Relaxed) {
                        break End::Incomplete("stopped early".into());
                    }
                    if self.r.late() {
                        self.r.stop.store(true, SeqCst);
                        break End::Incomplete("time limit".into());
                    }
                    self.tick += 1;
                    if self.tick % 64 == 0 && rss_bytes() > self.r.o.max_rss {
                        self.r.stop.store(true, SeqCst);
                        break End::Incomplete("memory limit".into());
                    }
                    self.balance();
                }
                Err(e) => break e,
            }
        };
        self.r.steps.fetch_add(st.steps - s0, Relaxed);
        self.r.max_path_steps.fetch_max(st.steps, Relaxed);
        match end {
            End::Done => {
                self.r.paths.fetch_add(1, Relaxed);
                self.sample(&st, 'R');
            }
            End::Panicked => {
                self.r.paths.fetch_add(1, Relaxed);
                self.r.panicked.fetch_add(1, Relaxed);
                self.sample(&st, 'P');
            }
            End::Cut => {
                self.r.cut.fetch_add(1, Relaxed);
            }
            End::Cand(k, d) => {
                self.r.paths.fetch_add(1, Relaxed);
                self.candidate(&st, k, d);
            }
            End::Incomplete(s) => self.r.incomplete(s),
            End::Fork => unreachable!(),
        }
        if self.r.late() && !self.r.stop.load(Relaxed) && !(self.stack.is_empty() && self.r.qlen.load(SeqCst) == 0) {
            self.r.stop.store(true, SeqCst);
            self.r.incomplete("time limit".into());
        }
        self.balance();
    }
    fn inputs(&self, st: &State) -> Vec<(u8, u64)> {
        st.widths
            .iter()
            .enumerate()
            .map(|(i, w)| (*w, st.model.get(i).copied().unwrap_or(0)))
            .collect()
    }
    fn trace_of(&self, st: &State) -> Vec<String> {
        let n = st.frames.len();
        st.frames
            .iter()
            .rev()
            .take(12.min(n))
            .map(|f| self.p.m.funcs[f.func as usize].name.clone())
            .collect()
    }
    fn candidate(&mut self, st: &State, kind: &'static str, detail: String) {
        let c = Candidate {
            kind,
            detail,
            inputs: self.inputs(st),
            trace: self.trace_of(st),
        };
        if !self.r.hurried.swap(true, SeqCst) {
            *self.r.hurry.lock().unwrap() = Some(Instant::now() + self.r.o.after_candidate);
        }
        let mut g = self.r.cands.lock().unwrap();
        let same = g
            .iter()
            .filter(|x| x.kind == c.kind && x.detail == c.detail && x.trace.first() == c.trace.first())
            .count();
        if same < 4 {
            g.push(c);
        }
        if g.len() >= self.r.o.max_cands {
            self.r.stop.store(true, SeqCst);
        } else if same >= 40 {
            self.r.stop.store(true, SeqCst);
        }
    }
    fn sample(&mut self, st: &State, outcome: char) {
        let mut h: u64 = 0xcbf29ce484222325 ^ self.r.o.seed.wrapping_mul(0x9E3779B97F4A7C15);
        for (i, _) in st.widths.iter().enumerate() {
            h = (h ^ st.model[i]).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h = h.wrapping_mul(0xD1B54A32D192ED03);
        h ^= h >> 31;
        let mut g = self.r.samples.lock().unwrap();
        if g.len() >= self.r.o.samples {
            if let Some((k, _)) = g.last_key_value() {
                if k.0 <= h {
                    return;
                }
            }
        }
        let obs = st
            .obs
            .iter()
            .map(|e| {
                if e.vars.has_uninit() {
                    0xdead_dead
                } else {
                    self.z.ev.eval(e, &st.model, st.mid) as u64
                }
            })
            .collect();
        let rec = PathRec {
            key: h,
            inputs: self.inputs(st),
            obs,
            outcome,
        };
        g.insert((h, st.mid), rec);
        if g.len() > self.r.o.samples {
            g.pop_last();
        }
    }

    // ----- path condition -----
    fn set_model(&mut self, st: &mut State, ch: &[(u16, u64)]) {
        let mut m = (*st.model).clone();
        for (i, v) in ch {
            m[*i as usize] = *v;
        }
        st.model = Arc::new(m);
        st.mid = self.r.mids.fetch_add(1, Relaxed);
    }
    fn add_con(&mut self, st: &mut State, c: &ExprRef) {
        match &c.kind {
            Kind::Const(_) => return,
            Kind::Bin(Op::And, a, b) if c.w == 1 => {
                let (a, b) = (a.clone(), b.clone());
                self.add_con(st, &a);
                self.add_con(st, &b);
                return;
            }
            Kind::Bin(Op::Xor, a, k) if k.as_const() == Some(1) => {
                if let Kind::Bin(Op::Or, x, y) = &a.kind {
                    let (x, y) = (not(x), not(y));
                    self.add_con(st, &x);
                    self.add_con(st, &y);
                    return;
                }
            }
            _ => {}
        }
        if c.vars.has_uninit() {
            return;
        }
        if let Some(v) = c.single_var() {
            if st.widths[v] <= 8 {
                if let Some(d) = self.z.truth(c, st.widths[v]) {
                    st.doms[v] = st.doms[v].and(&d);
                    return;
                }
            }
        }
        st.multi = st.multi.union(&c.vars);
        st.cons.push(c.clone());
    }
    fn slice_of(&self, st: &State, vars: &VarSet) -> (Vec<ExprRef>, VarSet) {
        let mut set = *vars;
        let mut out = vec![];
        if !set.intersects(&st.multi) {
            return (out, set);
        }
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] && c.vars.intersects(&set) {
                    used[i] = true;
                    set = set.union(&c.vars);
                    out.push(c.clone());
                    ch = true;
                }
            }
            if !ch {
                return (out, set);
            }
        }
    }
    fn query(&mut self, st: &State, cond: &ExprRef) -> QRes {
        if self.r.late() {
            return QRes::Unknown;
        }
        let (sl, set) = self.slice_of(st, &cond.vars);
        let mut doms = vec![];
        let mut vars = vec![];
        for v in set.iter() {
            if v == UNINIT_BIT {
                continue;
            }
            let w = st.widths[v];
            vars.push((v as u16, w));
            if w <= 8 {
                let full = full_dom(w);
                if st.doms[v] != full {
                    doms.push((v as u16, w, st.doms[v]));
                }
            }
        }
        match self.z.check(&sl, &doms, cond, &vars) {
            QRes::Unknown => self.split_query(&sl, &doms, cond, &vars, 0),
            r => r,
        }
    }
    /// The same question, asked for the two halves of the values of one byte: what the solver
    /// cannot decide at once within its time, it may decide by cases.
    fn split_query(
        &mut self,
        sl: &[ExprRef],
        doms: &[(u16, u8, Dom)],
        cond: &ExprRef,
        vars: &[(u16, u8)],
        depth: u32,
    ) -> QRes {
        if depth >= 12 {
            return QRes::Unknown;
        }
        let dom_of = |v: u16, w: u8| match doms.iter().find(|d| d.0 == v) {
            Some(d) => d.2,
            None => full_dom(w),
        };
        // the byte with the fewest values left
        let Some((v, w)) = vars
            .iter()
            .copied()
            .filter(|(v, w)| *w <= 8 && dom_of(*v, *w).count() > 1)
            .min_by_key(|(v, w)| dom_of(*v, *w).count())
        else {
            return QRes::Unknown;
        };
        let all = dom_of(v, w);
        let mut lo = Dom::NONE;
        for x in all.iter().take(all.count() as usize / 2) {
            lo.set(x);
        }
        for half in [lo, all.and(&lo.not())] {
            if self.r.late() {
                return QRes::Unknown;
            }
            let mut doms: Vec<_> = doms.iter().filter(|d| d.0 != v).cloned().collect();
            doms.push((v, w, half));
            let r = match self.z.check(sl, &doms, cond, vars) {
                QRes::Unknown => self.split_query(sl, &doms, cond, vars, depth + 1),
                r => r,
            };
            match r {
                QRes::Unsat => (),
                r => return r,
            }
        }
        QRes::Unsat
    }
    fn no_answer(&self) -> End {
        End::Incomplete(if self.r.late() {
            "time limit".into()
        } else {
            format!("solver gave no answer within {} ms", self.r.sh.timeout_ms)
        })
    }
    /// Is `cond` satisfiable on this path?  With values that make it so.
    fn feasible(&mut self, st: &State, cond: &ExprRef) -> R<Option<Arc<Vec<(u16, u64)>>>> {
        match cond.as_const() {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(Arc::new(vec![]))),
            None => {}
        }
        if let Some(v) = cond.single_var() {
            if st.widths[v] <= 8 && !st.multi.contains(v) {
                if let Some(d) = self.z.truth(cond, st.widths[v]) {
                    self.r.sh.stats.table_decisions.fetch_add(1, Relaxed);
                    let d = d.and(&st.doms[v]);
                    if d.is_empty() {
                        return Ok(None);
                    }
                    return Ok(Some(Arc::new(vec![(v as u16, d.first())])));
                }
            }
        }
        match self.query(st, cond) {
            QRes::Unsat => Ok(None),
            QRes::Sat(m) => Ok(Some(m)),
            QRes::Unknown => Err(self.no_answer()),
        }
    }
    /// The expression without the uninitialised memory in it, when that has no effect on its value.
    fn settle(&mut self, st: &mut State, e: &ExprRef, what: &str) -> R<ExprRef> {
        if !e.vars.has_uninit() {
            return Ok(e.clone());
        }
        let e0 = expr::no_uninit(e, &mut HashMap::new());
        let differ = not(&expr::eq(e, &e0));
        match self.query(st, &differ) {
            QRes::Unsat => Ok(e0),
            QRes::Unknown => Err(self.no_answer()),
            QRes::Sat(m) => {
                self.set_model(st, &m);
                Err(End::Cand("uninit", what.into()))
            }
        }
    }
    /// Decide `cond` for this path, forking when both ways are feasible.  The other state
    /// re-executes the current instruction.
    fn branch(&mut self, st: &mut State, cond: &ExprRef) -> R<bool> {
        if let Some(c) = cond.as_const() {
            return Ok(c == 1);
        }
        for (h, b) in &st.decided {
            if *h == cond.hash {
                return Ok(*b);
            }
        }
        let settled = self.settle(st, cond, "control flow depends on uninitialised memory")?;
        let cond = &settled;
        if let Some(c) = cond.as_const() {
            return Ok(c == 1);
        }
        let model = st.model.clone();
        let mine = self.z.ev.eval(cond, &model, st.mid) == 1;
        let (own, other) = if mine {
            (cond.clone(), not(cond))
        } else {
            (not(cond), cond.clone())
        };
        if let Some(m) = self.feasible(st, &other)? {
            if self.merging > 0 {
                return Err(End::Fork);
            }
            self.r.forks.fetch_add(1, Relaxed);
            let mut s2 = st.clone();
            self.add_con(&mut s2, &other);
            self.set_model(&mut s2, &m);
            s2.decided.push((cond.hash, !mine));
            self.stack.push(s2);
            self.balance();
            self.add_con(st, &own);
        }
        st.decided.push((cond.hash, mine));
        Ok(mine)
    }
    /// One value of the expression on this path; other values go to forked states.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u8) -> R<u64> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::E(e) => e.clone(),
            Val::A(_) => ex(v, w),
        };
        if let Some(c) = e.as_const() {
            return Ok(c as u64);
        }
        for (h, x) in &st.conc {
            if *h == e.hash {
                return Ok(*x);
            }
        }
        let e = self.settle(st, &e, "address or size depends on uninitialised memory")?;
        if let Some(c) = e.as_const() {
            return Ok(c as u64);
        }
        let model = st.model.clone();
        let x = self.z.ev.eval(&e, &model, st.mid);
        let c = expr::eq(&e, &konst(x, e.w));
        let b = self.branch(st, &c)?;
        if !b {
            // decided earlier in this instruction on another value: take the model's
            return Err(End::Incomplete("concretisation".into()));
        }
        if e.w <= 64 {
            st.conc.push((e.hash, x as u64));
        }
        Ok(x as u64)
    }
    /// Values an expression can take (over-approximation), if few.
    fn values(&mut self, st: &State, e: &ExprRef, cap: usize) -> Option<Vec<u64>> {
        if e.w > 64 {
            return None;
        }
        if let Some(c) = e.as_const() {
            return Some(vec![c as u64]);
        }
        if e.vars.has_uninit() {
            return None;
        }
        if let Some(v) = e.single_var() {
            if st.widths[v] <= 8 {
                let t = self.z.tt.table(e)?;
                let mut r: Vec<u64> = st.doms[v].iter().map(|x| t[x as usize]).collect();
                r.sort_unstable();
                r.dedup();
                return Some(r);
            }
        }
        let mut r = match &e.kind {
            Kind::Ite(_, a, b) => {
                let mut x = self.values(st, a, cap)?;
                x.extend(self.values(st, b, cap)?);
                x
            }
            Kind::ZExt(a) => self.values(st, a, cap)?,
            Kind::SExt(a) => self
                .values(st, a, cap)?
                .iter()
                .map(|x| sext128(*x as u128, a.w) as u64 & mask64(e.w))
                .collect(),
            Kind::Extract(a, lo) => self
                .values(st, a, cap)?
                .iter()
                .map(|x| (x >> lo) & mask64(e.w))
                .collect(),
            Kind::Bin(op, a, b) => {
                let x = self.values(st, a, cap)?;
                let y = self.values(st, b, cap)?;
                if x.len() * y.len() > cap {
                    return None;
                }
                let mut r = Vec::with_capacity(x.len() * y.len());
                for p in &x {
                    for q in &y {
                        r.push(bin64(*op, *p, *q, a.w));
                    }
                }
                r
            }
            Kind::Concat(a, b) => {
                let x = self.values(st, a, cap)?;
                let y = self.values(st, b, cap)?;
                if x.len() * y.len() > cap {
                    return None;
                }
                let mut r = vec![];
                for p in &x {
                    for q in &y {
                        r.push(p << b.w | q);
                    }
                }
                r
            }
            Kind::Tab(_, _, v) => v.to_vec(),
            _ => return None,
        };
        r.sort_unstable();
        r.dedup();
        if r.len() > cap {
            None
        } else {
            Some(r)
        }
    }
    fn mem_err(&self, e: MemErr, write: bool) -> End {
        let k = if write { "write" } else { "read" };
        let d = match e {
            MemErr::Null(a) => format!("{} through null-ish pointer {:#x}", k, a),
            MemErr::Dangling(_) => format!("{} through a wild pointer", k),
            MemErr::Freed(_) => format!("{} of freed memory", k),
            MemErr::Oob(_, off, n, size, kind) => format!(
                "{} of {} byte(s) at offset {} of a {:?} object of {} byte(s)",
                k, n, off, kind, size
            ),
            MemErr::ReadOnly(_) => "write to constant memory".into(),
            MemErr::Func(_) => format!("{} of a function", k),
        };
        End::Cand("memory", d)
    }
    /// Where an access of n bytes can go: one object and the feasible offsets in it.
    fn resolve(&mut self, st: &mut State, a: &Val, n: u64, write: bool) -> R<Place> {
        match a {
            Val::C(c) => match st.mem.locate(*c, n, write) {
                Ok((o, f)) => Ok(Place::One(o, f)),
                Err(e) => Err(self.mem_err(e, write)),
            },
            Val::E(e) => {
                let e = e.clone();
                if let Some(vs) = self.values(st, &e, 4096) {
                    // group by object
                    let mut groups: Vec<(Option<u32>, Vec<u64>, Option<MemErr>)> = vec![];
                    for v in &vs {
                        match st.mem.locate(*v, n, write) {
                            Ok((o, _)) => match groups.iter_mut().find(|g| g.0 == Some(o)) {
                                Some(g) => g.1.push(*v),
                                None => groups.push((Some(o), vec![*v], None)),
                            },
                            Err(er) => match groups.iter_mut().find(|g| g.0.is_none()) {
                                Some(g) => g.1.push(*v),
                                None => groups.push((None, vec![*v], Some(er))),
                            },
                        }
                    }
                    let last = groups.len() - 1;
                    for (i, (o, addrs, er)) in groups.into_iter().enumerate() {
                        let take = if i == last {
                            true
                        } else {
                            let k = Arc::new(vs.clone());
                            let t: Vec<u64> = vs
                                .iter()
                                .map(|v| addrs.binary_search(v).is_ok() as u64)
                                .collect();
                            let c = tab(&e, k, t, 1);
                            self.branch(st, &c)?
                        };
                        if take {
                            return match o {
                                None => Err(self.mem_err(er.unwrap(), write)),
                                Some(o) => {
                                    if addrs.len() == 1 {
                                        let (o, f) = st.mem.locate(addrs[0], n, write).ok().unwrap();
                                        Ok(Place::One(o, f))
                                    } else {
                                        Ok(Place::Many(o, e, vs, addrs))
                                    }
                                }
                            };
                        }
                    }
                    unreachable!()
                }
                // interval within one object
                if !e.vars.has_uninit() && e.hi - e.lo <= 2048 {
                    let vs: Vec<u64> = (e.lo..=e.hi).collect();
                    let ok: Vec<u64> = vs
                        .iter()
                        .copied()
                        .filter(|v| st.mem.locate(*v, n, write).is_ok())
                        .collect();
                    if !ok.is_empty() {
                        let objs: HashSet<u32> = ok
                            .iter()
                            .map(|v| st.mem.locate(*v, n, write).ok().unwrap().0)
                            .collect();
                        if objs.len() == 1 {
                            let t: Vec<u64> =
                                vs.iter().map(|v| ok.binary_search(v).is_ok() as u64).collect();
                            let c = tab(&e, Arc::new(vs.clone()), t, 1);
                            if self.branch(st, &c)? {
                                return Ok(Place::Many(*objs.iter().next().unwrap(), e, vs, ok));
                            }
                        }
                    }
                }
                let c = self.concretize(st, a, 64)?;
                match st.mem.locate(c, n, write) {
                    Ok((o, f)) => Ok(Place::One(o, f)),
                    Err(e) => Err(self.mem_err(e, write)),
                }
            }
            Val::A(_) => Err(End::Incomplete("vector address".into())),
        }
    }
    // ----- threads -----
    /// Note an access of the running thread: nothing may leave it unordered with one of the other.
    fn touch(&mut self, st: &mut State, o: u32, f: usize, n: usize, write: bool) -> R<()> {
        if st.par.is_none() || n == 0 {
            return Ok(());
        }
        if self.races(st, o, f, n, write, true) {
            return Err(End::Cand(
                "race",
                format!("{} not ordered with an access of another thread", if write { "write" } else { "read" }),
            ));
        }
        Ok(())
    }
    fn races(&self, st: &mut State, o: u32, f: usize, n: usize, write: bool, note: bool) -> bool {
        let Some(p) = st.par.as_mut() else { return false };
        let Some(ob) = st.mem.get(o) else { return false };
        match ob.kind {
            OKind::Const | OKind::Func => return false,
            OKind::Stack if ob.owner as usize == p.cur + 1 => return false,
            _ => {}
        }
        let kind = match (write, self.atomic) {
            (false, false) => Access::Read,
            (true, false) => Access::Write,
            (false, true) => Access::AtomicRead,
            (true, true) => Access::AtomicWrite,
        };
        p.access(o, ob.size as usize, f, n, kind, note)
    }
    fn place(&mut self, st: &mut State, a: &Val, n: u64, write: bool) -> R<Place> {
        let mut r = self.resolve(st, a, n, write)?;
        if st.par.is_none() {
            return Ok(r);
        }
        if let Place::Many(o, _, _, ok) = &r {
            let b = base_of(*o);
            let (o, at): (u32, Vec<usize>) = (*o, ok.iter().map(|x| x.wrapping_sub(b) as usize).collect());
            if at.iter().any(|f| self.races(st, o, *f, n as usize, write, false)) {
                let c = self.concretize(st, a, 64)?;
                let (o, f) = st.mem.locate(c, n, write).map_err(|e| self.mem_err(e, write))?;
                r = Place::One(o, f);
            } else {
                for f in at {
                    self.touch(st, o, f, n as usize, write)?;
                }
            }
        }
        if let Place::One(o, f) = &r {
            self.touch(st, *o, *f, n as usize, write)?;
        }
        Ok(r)
    }
    /// The running thread may stop here for the other one.
    fn point(&mut self, st: &mut State) {
        let Some(p) = st.par.as_mut() else { return };
        if p.decided {
            return;
        }
        p.decided = true;
        if p.left > 0 && p.can_run(1 - p.cur) {
            let mut s2 = st.clone();
            s2.par.as_mut().unwrap().left -= 1;
            s2.switch();
            self.r.forks.fetch_add(1, Relaxed);
            self.stack.push(s2);
            self.balance();
        }
    }
    /// The running thread cannot go on.
    fn give_way(&mut self, st: &mut State) -> R<()> {
        let p = st.par.as_ref().unwrap();
        if p.can_run(1 - p.cur) {
            st.switch();
            return Ok(());
        }
        Err(End::Cand("deadlock", "every thread waits".into()))
    }
    fn thread_end(&mut self, st: &mut State) -> R<()> {
        let p = match st.par.as_mut() {
            None => return Err(End::Done),
            Some(p) => p,
        };
        let k = p.cur;
        p.threads[k].done = true;
        if !p.threads[1 - k].done {
            return self.give_way(st);
        }
        let p = st.par.take().unwrap();
        for t in &p.threads {
            for o in t.tls.values() {
                st.mem.free(*o);
            }
        }
        (st.frames, st.regs) = p.main;
        st.mem.owner = 0;
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn thread_local(&mut self, st: &mut State, a: u64) -> u64 {
        let Some(p) = st.par.as_mut() else { return a };
        let g = (a >> BASE_SHIFT) as u32 - 1;
        let k = p.cur;
        let id = match p.threads[k].tls.get(&g) {
            Some(id) => *id,
            None => {
                let o = (**self.p.mem0.get(g).unwrap()).clone();
                let id = st.mem.add(o);
                p.threads[k].tls.insert(g, id);
                p.fresh(id);
                id
            }
        };
        base_of(id) | a & 0xffff_ffff
    }
    fn errno(&mut self, st: &mut State) -> u64 {
        let old = match &st.par {
            Some(p) => p.threads[p.cur].tls.get(&u32::MAX).map(|o| base_of(*o)),
            None => Some(st.errno).filter(|x| *x != 0),
        };
        old.unwrap_or_else(|| {
            let mut o = Obj::new(4, 4, OKind::Global);
            o.st = St::Init;
            let id = st.mem.add(o);
            match &mut st.par {
                Some(p) => {
                    let k = p.cur;
                    p.threads[k].tls.insert(u32::MAX, id);
                    p.fresh(id);
                }
                None => st.errno = base_of(id),
            }
            base_of(id)
        })
    }
    /// sym_par(f, d, g, e, switches): f(d) and g(e) in two threads
    fn par_start(&mut self, st: &mut State, args: &[(Opd, u8)]) -> R<()> {
        if st.par.is_some() {
            return Err(End::Incomplete("threads within threads".into()));
        }
        let mut v = [0; 5];
        for (k, x) in v.iter_mut().enumerate() {
            let a = self.arg(st, &args[k].0);
            *x = self.concretize(st, &a, args[k].1)?;
        }
        let mut t = vec![];
        for k in [0, 2] {
            let id = (v[k] >> BASE_SHIFT).wrapping_sub(1);
            let (ng, nf) = (self.p.ng as u64, self.p.nf as u64);
            if id < ng || id >= ng + nf {
                return Err(End::Incomplete("entry of a thread".into()));
            }
            let fi = (id - ng) as u32;
            let mut regs = vec![Val::C(0); self.p.m.funcs[fi as usize].nregs as usize];
            regs[0] = Val::C(v[k + 1]);
            self.blocks[self.p.bstart[fi as usize] as usize] = 1;
            t.push((vec![Frame { func: fi, block: 0, ip: 0, base: 0, dst: u32::MAX, allocas: vec![] }], regs));
        }
        let main = (std::mem::take(&mut st.frames), std::mem::take(&mut st.regs));
        let (t1, t0) = (t.pop().unwrap(), t.pop().unwrap());
        // the first thread's frames are the state's
        let mut p = Par::new(vec![], vec![], t1.0, t1.1, main, v[4] as u32);
        p.decided = true;
        st.par = Some(Box::new(p));
        (st.frames, st.regs) = t0;
        st.mem.owner = 1;
        // or the second thread comes first
        let mut s2 = st.clone();
        s2.switch();
        self.r.forks.fetch_add(1, Relaxed);
        self.stack.push(s2);
        self.balance();
        Ok(())
    }
    /// true: another thread runs now
    fn futex(&mut self, st: &mut State, d: Option<u32>, args: &[(Opd, u8)]) -> R<bool> {
        self.point(st);
        let a = |k: usize| self.arg(st, &args[k].0);
        let (addr, op, val) = (a(1), a(2), a(3));
        let addr = self.concretize(st, &addr, 64)?;
        let op = self.concretize(st, &op, args[2].1)? & 127;
        let val = self.concretize(st, &val, args[3].1)?;
        match op {
            0 | 9 => {
                let now = self.atomically(|s| s.load_scalar(st, &Val::C(addr), 32))?;
                let now = self.concretize(st, &now, 32)?;
                if now != val & 0xffff_ffff {
                    let e = self.errno(st);
                    st.mem.get_mut((e >> BASE_SHIFT) as u32 - 1).unwrap().write_conc(0, 11, 4);
                    self.set(st, d, Val::C(u64::MAX));
                    return Ok(false);
                }
                self.set(st, d, Val::C(0));
                if st.par.is_none() {
                    return Err(End::Cand("deadlock", "the only thread waits".into()));
                }
                let p = st.par.as_mut().unwrap();
                let k = p.cur;
                p.threads[k].waits = Some(addr);
                st.frames.last_mut().unwrap().ip += 1;
                self.give_way(st)?;
                Ok(true)
            }
            1 | 10 => {
                let mut n = 0;
                if let Some(p) = &mut st.par {
                    for t in &mut p.threads {
                        if t.waits == Some(addr) {
                            t.waits = None;
                            n += 1;
                        }
                    }
                }
                self.set(st, d, Val::C(n));
                Ok(false)
            }
            _ => Err(End::Incomplete(format!("futex operation {}", op))),
        }
    }
    fn atomically<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.atomic = true;
        let r = f(self);
        self.atomic = false;
        r
    }
    fn load_scalar(&mut self, st: &mut State, a: &Val, w: u8) -> R<Val> {
        let n = (w as usize + 7) / 8;
        let place = self.place(st, a, n as u64, false)?;
        let v = match place {
            Place::One(o, f) => st.mem.get(o).unwrap().read(f, n, o),
            Place::Many(o, e, _, ok) => {
                let ob = st.mem.get(o).unwrap().clone();
                let b = base_of(o);
                let vals: Vec<Val> = ok
                    .iter()
                    .map(|x| ob.read(x.wrapping_sub(b) as usize, n, o))
                    .collect();
                if n <= 8 && vals.iter().all(|v| matches!(v, Val::C(_))) {
                    let t = vals
                        .iter()
                        .map(|v| match v {
                            Val::C(c) => *c,
                            _ => 0,
                        })
                        .collect();
                    vl(tab(&e, Arc::new(ok), t, (n * 8) as u8))
                } else {
                    // chain of choices, grouped by equal content
                    let w8 = (n * 8) as u8;
                    let mut groups: Vec<(ExprRef, Vec<u64>)> = vec![];
                    let mut by: HashMap<u128, usize> = HashMap::new();
                    for (x, v) in ok.iter().zip(vals.iter()) {
                        let c = ex(v, w8);
                        match by.get(&c.hash) {
                            Some(i) => groups[*i].1.push(*x),
                            None => {
                                by.insert(c.hash, groups.len());
                                groups.push((c, vec![*x]));
                            }
                        }
                    }
                    let keys = Arc::new(ok.clone());
                    let mut r = groups[groups.len() - 1].0.clone();
                    for (c, xs) in groups[..groups.len() - 1].iter().rev() {
                        let cond = if xs.len() == 1 {
                            expr::eq(&e, &konst(xs[0] as u128, 64))
                        } else {
                            let t = ok.iter().map(|v| xs.binary_search(v).is_ok() as u64).collect();
                            tab(&e, keys.clone(), t, 1)
                        };
                        r = ite(&cond, c, &r);
                    }
                    vl(r)
                }
            }
        };
        if w as usize != n * 8 {
            return Ok(match v {
                Val::C(c) => Val::C(c & mask64(w)),
                Val::E(e) => vl(extract(&e, 0, w)),
                v => v,
            });
        }
        Ok(v)
    }
    fn store_scalar(&mut self, st: &mut State, a: &Val, v: &Val, w: u8) -> R<()> {
        let n = (w as usize + 7) / 8;
        match self.place(st, a, n as u64, true)? {
            Place::One(o, f) => {
                if self.merging > 0 {
                    self.stores.push((o, f, n));
                }
                let ob = st.mem.get_mut(o).unwrap();
                match v {
                    Val::C(c) => ob.write_conc(f, *c, n),
                    Val::E(e) => {
                        let e = if w as usize == n * 8 {
                            e.clone()
                        } else {
                            zext(e, (n * 8) as u8)
                        };
                        store_expr(ob, f, &e, n);
                    }
                    Val::A(_) => return Err(End::Incomplete("aggregate store".into())),
                }
            }
            Place::Many(o, e, _, ok) => {
                let ve = zx(&ex(v, w), (n * 8) as u8);
                let b = base_of(o);
                for x in ok {
                    let f = (x - b) as usize;
                    let cond = expr::eq(&e, &konst(x as u128, 64));
                    let old = {
                        let ob = st.mem.get(o).unwrap();
                        ex(&ob.read(f, n, o), (n * 8) as u8)
                    };
                    let nv = ite(&cond, &ve, &old);
                    if self.merging > 0 {
                        self.stores.push((o, f, n));
                    }
                    let ob = st.mem.get_mut(o).unwrap();
                    store_expr(ob, f, &nv, n);
                }
            }
        }
        Ok(())
    }
    fn addr_off(&self, a: &Val, off: u64) -> Val {
        if off == 0 {
            return a.clone();
        }
        bw(Op::Add, 64, a, &Val::C(off))
    }
    fn load(&mut self, st: &mut State, t: &Ty, a: &Val) -> R<Val> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => self.load_scalar(st, a, t.bits() as u8),
            Ty::Vec(..) => {
                let b = t.bits();
                if b > 128 {
                    return Err(End::Incomplete("wide vector load".into()));
                }
                let v = self.load_scalar(st, a, b as u8)?;
                Ok(from_bits(t, &ex(&v, b as u8)))
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut out = vec![];
                for i in 0..t.nfields() {
                    let p = self.addr_off(a, t.field_offset(i));
                    out.push(self.load(st, t.field(i), &p)?);
                }
                Ok(Val::A(Arc::new(out)))
            }
            _ => Err(End::Incomplete("load type".into())),
        }
    }
    fn store(&mut self, st: &mut State, t: &Ty, a: &Val, v: &Val) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => self.store_scalar(st, a, v, t.bits() as u8),
            Ty::Vec(..) => {
                let b = t.bits();
                if b > 128 {
                    return Err(End::Incomplete("wide vector store".into()));
                }
                let e = to_bits(t, v);
                self.store_scalar(st, a, &vl(e), b as u8)
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let x = vec_of(v);
                for i in 0..t.nfields() {
                    let p = self.addr_off(a, t.field_offset(i));
                    self.store(st, t.field(i), &p, &x[i])?;
                }
                Ok(())
            }
            _ => Err(End::Incomplete("store type".into())),
        }
    }

    // ----- instructions -----
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = &self.p.m.funcs[fr.func as usize];
        let from = fr.block;
        let base = fr.base as usize;
        let b = &f.blocks[to as usize];
        self.blocks[(self.p.bstart[fr.func as usize] + to) as usize] = 1;
        fr.block = to;
        fr.ip = 0;
        if b.phis.is_empty() {
            return;
        }
        if b.phis.len() == 1 {
            let (d, inc) = &b.phis[0];
            let v = phi_val(inc, from, &st.regs, base);
            st.regs[base + *d as usize] = v;
            return;
        }
        let vals: Vec<Val> = b
            .phis
            .iter()
            .map(|(_, inc)| phi_val(inc, from, &st.regs, base))
            .collect();
        for ((d, _), v) in b.phis.iter().zip(vals) {
            st.regs[base + *d as usize] = v;
        }
    }

    /// The branch at the end of the present block: if both ways are possible, do nothing and
    /// meet again, stay on one path.  Tells whether the state has moved.
    fn merge(&mut self, st: &mut State, cond: &ExprRef, yes: u32, no: u32) -> R<bool> {
        let p = self.p;
        if st.par.is_some() {
            return Ok(false);
        }
        let (func, block) = {
            let fr = st.frames.last().unwrap();
            (fr.func, fr.block)
        };
        let id = p.bstart[func as usize] + block;
        let Some(j) = *p.joins[id as usize].get_or_init(|| crate::merge::join(&p.m.funcs[func as usize], block)) else {
            return Ok(false);
        };
        if self.vain.get(&id).map_or(false, |v| *v > 8) || cond.as_const().is_some() {
            return Ok(false);
        }
        let cond = &self.settle(st, cond, "control flow depends on uninitialised memory")?;
        if cond.as_const().is_some() {
            return Ok(false);
        }
        let model = st.model.clone();
        let mine = self.z.ev.eval(cond, &model, st.mid) == 1;
        let other = if mine { not(cond) } else { cond.clone() };
        let Some(m) = self.feasible(st, &other)? else {
            st.decided.push((cond.hash, mine));
            return Ok(false);
        };
        let mut ends = vec![];
        let mut steps = 0;
        let mark = self.stores.len();
        if self.merging == 0 {
            self.dead.clear();
        }
        for side in [mine, !mine] {
            let mut s = st.clone();
            self.add_con(&mut s, &if side { cond.clone() } else { not(cond) });
            if side != mine {
                self.set_model(&mut s, &m);
            }
            s.decided.clear();
            self.jump(&mut s, if side { yes } else { no });
            if s.frames.last().unwrap().block != j {
                self.merging += 1;
                let r = self.slice(&mut s, j);
                self.merging -= 1;
                let there = s.frames.len() == st.frames.len() && s.frames.last().unwrap().block == j;
                if r.is_err() || !there {
                    if let Err(End::Incomplete(x)) = r {
                        if x.contains("limit") || x.contains("stopped") {
                            return Err(End::Incomplete(x));
                        }
                    }
                    *self.vain.entry(id).or_insert(0) += 1;
                    self.stores.truncate(mark);
                    return Ok(false);
                }
            }
            steps = s.steps.max(steps);
            ends.push(s);
        }
        let mut places = self.stores.split_off(mark);
        places.sort_unstable();
        places.dedup();
        let (s1, s0) = if mine { (&ends[0], &ends[1]) } else { (&ends[1], &ends[0]) };
        let mut writes = vec![];
        for (o, f, n) in places {
            let w = (n * 8) as u8;
            let (x, y) = (s1.mem.get(o).unwrap().read(f, n, o), s0.mem.get(o).unwrap().read(f, n, o));
            let (x, y) = (ex(&x, w), ex(&y, w));
            if self.dead.contains(&o) {
                continue;
            }
            if x.hash != y.hash && (w > 32 || x.vars.has_uninit() != y.vars.has_uninit()) {
                *self.vain.entry(id).or_insert(0) += 1;
                return Ok(false);
            }
            let v = match expr::remainder(cond, &x, &y) {
                Some((e, but)) if self.feasible(st, &but)?.is_none() => e,
                _ => ite(cond, &x, &y),
            };
            writes.push((o, f, n, v));
        }
        for (o, f, n, v) in writes {
            store_expr(st.mem.get_mut(o).unwrap(), f, &v, n);
            if self.merging > 0 {
                self.stores.push((o, f, n));
            }
        }
        *self.vain.entry(id).or_insert(0) -= 1;
        self.r.merges.fetch_add(1, Relaxed);
        let base = st.frames.last().unwrap().base as usize;
        let b = &p.m.funcs[func as usize].blocks[j as usize];
        for ((d, _), t) in b.phis.iter().zip(&b.phi_tys) {
            let k = base + *d as usize;
            let (x, y) = (&ends[0].regs[k], &ends[1].regs[k]);
            let (x, y) = if mine { (x, y) } else { (y, x) };
            let w = t.bits() as u8;
            let v = match expr::remainder(cond, &ex(x, w), &ex(y, w)) {
                Some((e, but)) if self.feasible(st, &but)?.is_none() => vl(e),
                _ => ite_val(cond, t, x, y),
            };
            st.regs[k] = match v {
                Val::E(e) if e.size > 100 && e.w <= 64 && e.single_var().is_some() => match self.z.collapse(&e) {
                    Some(t) => vl(t),
                    None => Val::E(e),
                },
                v => v,
            };
        }
        st.steps = steps;
        let fr = st.frames.last_mut().unwrap();
        fr.block = j;
        fr.ip = 0;
        st.decided.clear();
        st.conc.clear();
        Ok(true)
    }
    /// Run a bounded number of instructions (to the start of the block `stop`, while merging).
    fn slice(&mut self, st: &mut State, stop: u32) -> R<()> {
        let p = self.p;
        for _ in 0..200_000u32 {
            let fr = st.frames.last().unwrap();
            let base = fr.base as usize;
            let inst = &p.m.funcs[fr.func as usize].blocks[fr.block as usize].insts[fr.ip as usize];
            st.steps += 1;
            macro_rules! g {
                ($o:expr) => {
                    match $o {
                        Opd::R(r) => &st.regs[base + *r as usize],
                        Opd::K(v) => v,
                    }
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.regs[base + *$d as usize] = v;
                }};
            }
            match inst {
                Inst::Bin(op, w, d, a, b) => {
                    let (x, y) = (g!(a), g!(b));
                    if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                        if let Val::C(0) = y {
                            return Err(End::Cand("memory", "division by zero".into()));
                        }
                    }
                    let mut v = bw(*op, *w, x, y);
                    if let Val::E(e) = &v {
                        if e.size > 100 && e.w <= 64 && e.single_var().is_some() {
                            if let Some(t) = self.z.collapse(e) {
                                v = vl(t);
                            }
                        }
                    }
                    set!(d, v);
                }
                Inst::Cmp(op, neg, swap, w, d, a, b) => {
                    let v = cmpv(*op, *neg, *swap, *w, g!(a), g!(b));
                    set!(d, v);
                }
                Inst::Load(d, t, a) => {
                    let a = g!(a).clone();
                    let v = self.load(st, t, &a)?;
                    set!(d, v);
                }
                Inst::Store(t, v, a) => {
                    let v = g!(v).clone();
                    let a = g!(a).clone();
                    self.store(st, t, &a, &v)?;
                }
                Inst::Gep(d, b, off, idx) => {
                    let mut r = g!(b).clone();
                    let mut o = *off;
                    for (i, w, s) in idx {
                        match g!(i) {
                            Val::C(c) => {
                                o = o.wrapping_add((sext128(*c as u128, *w) as i64).wrapping_mul(*s))
                            }
                            v => {
                                let e = ex(v, *w);
                                let e = if *w < 64 { sext(&e, 64) } else { e };
                                let e = bin(Op::Mul, &e, &konst(*s as u64 as u128, 64));
                                r = bw(Op::Add, 64, &r, &vl(e));
                            }
                        }
                    }
                    if o != 0 {
                        r = bw(Op::Add, 64, &r, &Val::C(o as u64));
                    }
                    set!(d, r);
                }
                Inst::Br(l) => {
                    let l = *l;
                    self.jump(st, l);
                    if l == stop {
                        return Ok(());
                    }
                    continue;
                }
                Inst::CondBr(c, a, b) => {
                    let t = match g!(c) {
                        Val::C(x) => *x & 1 == 1,
                        Val::E(e) => {
                            let e = e.clone();
                            if self.merge(st, &e, *a, *b)? {
                                if st.frames.last().unwrap().block == stop {
                                    return Ok(());
                                }
                                continue;
                            }
                            let r = self.branch(st, &e)?;
                            st.decided.clear();
                            r
                        }
                        Val::A(_) => return Err(End::Incomplete("vector branch".into())),
                    };
                    let l = if t { *a } else { *b };
                    self.jump(st, l);
                    if l == stop {
                        return Ok(());
                    }
                    continue;
                }
                Inst::Switch(v, w, def, cases) => {
                    let l = match g!(v) {
                        Val::C(x) => cases.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*def),
                        v => {
                            let e = ex(v, *w);
                            let r = self.switch(st, &e, *def, cases)?;
                            st.decided.clear();
                            r
                        }
                    };
                    self.jump(st, l);
                    if l == stop {
                        return Ok(());
                    }
                    continue;
                }
                Inst::Cast(k, d, t, t2, a) => {
                    let mut x = g!(a).clone();
                    if matches!(k, Cast::UiToFp | Cast::SiToFp) && matches!(x, Val::E(_)) {
                        // floating point values are never symbolic: one path for each
                        x = Val::C(self.concretize(st, &x, t.bits() as u8)?);
                    }
                    let v = self.cast(*k, t, t2, &x)?;
                    set!(d, v);
                }
                Inst::Select(d, t, c, a, b) => {
                    let v = match g!(c) {
                        Val::C(x) => {
                            if *x & 1 == 1 {
                                g!(a).clone()
                            } else {
                                g!(b).clone()
                            }
                        }
                        Val::E(e) => ite_val(e, t, g!(a), g!(b)),
                        Val::A(_) => return Err(End::Incomplete("select".into())),
                    };
                    set!(d, v);
                }
                Inst::Extract(d, a, ix) => {
                    let mut v = g!(a);
                    for i in ix {
                        match v {
                            Val::A(x) => v = &x[*i as usize],
                            _ => return Err(End::Incomplete("extractvalue".into())),
                        }
                    }
                    let v = v.clone();
                    set!(d, v);
                }
                Inst::Insert(d, a, b, ix) => {
                    let v = insert(g!(a), g!(b), ix);
                    set!(d, v);
                }
                Inst::Alloca(d, size, al) => {
                    let id = st.mem.add(Obj::new(*size as u32, *al as u32, OKind::Stack));
                    if let Some(p) = &mut st.par {
                        p.fresh(id);
                    }
                    st.frames.last_mut().unwrap().allocas.push(id);
                    set!(d, Val::C(base_of(id)));
                }
                Inst::Call(d, callee, args, rt) => {
                    if self.call(st, *d, callee, args, rt)? {
                        st.decided.clear();
                        st.conc.clear();
                        continue; // entered a function
                    }
                }
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|o| g!(o).clone());
                    let fr = st.frames.pop().unwrap();
                    for a in fr.allocas {
                        st.mem.free(a);
                    }
                    st.regs.truncate(fr.base as usize);
                    match st.frames.last_mut() {
                        None => self.thread_end(st)?,
                        Some(c) => {
                            if fr.dst != u32::MAX {
                                st.regs[c.base as usize + fr.dst as usize] = v.unwrap_or(Val::C(0));
                            }
                            c.ip += 1;
                        }
                    }
                    continue;
                }
                Inst::Unreachable => {
                    return Err(End::Cand("unreachable", "reached code marked unreachable".into()))
                }
                Inst::Freeze(d, a) => {
                    let v = g!(a).clone();
                    set!(d, v);
                }
                Inst::VBin(op, w, d, a, b) => {
                    let (x, y) = (vec_of(g!(a)), vec_of(g!(b)));
                    let v = x.iter().zip(y.iter()).map(|(p, q)| bw(*op, *w, p, q)).collect();
                    set!(d, Val::A(Arc::new(v)));
                }
                Inst::VCmp(op, neg, swap, w, d, a, b) => {
                    let (x, y) = (vec_of(g!(a)), vec_of(g!(b)));
                    let v = x
                        .iter()
                        .zip(y.iter())
                        .map(|(p, q)| cmpv(*op, *neg, *swap, *w, p, q))
                        .collect();
                    set!(d, Val::A(Arc::new(v)));
                }
                Inst::VSelect(d, t, c, a, b) => {
                    let (k, x, y) = (vec_of(g!(c)), vec_of(g!(a)), vec_of(g!(b)));
                    let v = (0..x.len())
                        .map(|i| match &k[i] {
                            Val::C(1) => x[i].clone(),
                            Val::C(_) => y[i].clone(),
                            Val::E(e) => ite_val(e, t.field(i), &x[i], &y[i]),
                            _ => x[i].clone(),
                        })
                        .collect();
                    set!(d, Val::A(Arc::new(v)));
                }
                Inst::ExtractElem(d, a, i) => {
                    let x = vec_of(g!(a));
                    let i = match g!(i) {
                        Val::C(c) => *c as usize,
                        _ => return Err(End::Incomplete("symbolic vector index".into())),
                    };
                    set!(d, x[i].clone());
                }
                Inst::InsertElem(d, a, b, i) => {
                    let mut x = (*vec_of(g!(a))).clone();
                    let i = match g!(i) {
                        Val::C(c) => *c as usize,
                        _ => return Err(End::Incomplete("symbolic vector index".into())),
                    };
                    x[i] = g!(b).clone();
                    set!(d, Val::A(Arc::new(x)));
                }
                Inst::Shuffle(d, a, b, m) => {
                    let (x, y) = (vec_of(g!(a)), vec_of(g!(b)));
                    let v = m
                        .iter()
                        .map(|i| {
                            if *i < 0 {
                                x[0].clone()
                            } else if (*i as usize) < x.len() {
                                x[*i as usize].clone()
                            } else {
                                y[*i as usize - x.len()].clone()
                            }
                        })
                        .collect();
                    set!(d, Val::A(Arc::new(v)));
                }
                Inst::FOp(k, d, a, b, single) => {
                    let (x, y) = match (g!(a), g!(b)) {
                        // (one operation on floats is exact enough in doubles: rounding twice is harmless)
                        (Val::C(x), Val::C(y)) if *single => (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64),
                        (Val::C(x), Val::C(y)) => (f64::from_bits(*x), f64::from_bits(*y)),
                        (x, y) => return Err(End::Incomplete(format!("symbolic floating point ({} {:?} {:?})", k, x, y))),
                    };
                    let f = |x: f64| Val::C(if *single { (x as f32).to_bits() as u64 } else { x.to_bits() });
                    let b1 = |x: bool| Val::C(x as u64);
                    let v = match *k {
                        "fadd" => f(x + y),
                        "fsub" => f(x - y),
                        "fmul" => f(x * y),
                        "fdiv" => f(x / y),
                        "fneg" => f(-x),
                        "oeq" => b1(x == y),
                        "olt" => b1(x < y),
                        "ogt" => b1(x > y),
                        "ole" => b1(x <= y),
                        "oge" => b1(x >= y),
                        "one" => b1(x < y || x > y),
                        "ord" => b1(!x.is_nan() && !y.is_nan()),
                        "uno" => b1(x.is_nan() || y.is_nan()),
                        "ueq" => b1(!(x < y || x > y)),
                        "ult" => b1(!(x >= y)),
                        "ugt" => b1(!(x <= y)),
                        "ule" => b1(!(x > y)),
                        "uge" => b1(!(x < y)),
                        "true" => b1(true),
                        "false" => b1(false),
                        _ => b1(x != y),
                    };
                    set!(d, v);
                }
                Inst::ALoad(d, w, a, o) => {
                    let a = Val::C({
                        let a = g!(a).clone();
                        self.concretize(st, &a, 64)?
                    });
                    self.point(st);
                    let v = self.atomically(|s| s.load_scalar(st, &a, *w))?;
                    if let (Some(p), Val::C(a)) = (&mut st.par, &a) {
                        p.acquire(*a, *o);
                    }
                    set!(d, v);
                }
                Inst::AStore(w, v, a, o) => {
                    let v = g!(v).clone();
                    let a = Val::C({
                        let a = g!(a).clone();
                        self.concretize(st, &a, 64)?
                    });
                    self.point(st);
                    self.atomically(|s| s.store_scalar(st, &a, &v, *w))?;
                    if let (Some(p), Val::C(a)) = (&mut st.par, &a) {
                        p.release(*a, *o, false);
                    }
                }
                Inst::Fence(o) => {
                    if let Some(p) = &mut st.par {
                        p.fence(*o);
                    }
                }
                Inst::AtomicRmw(d, k, w, a, v, o) => {
                    let a = Val::C({
                        let a = g!(a).clone();
                        self.concretize(st, &a, 64)?
                    });
                    let v = g!(v).clone();
                    self.point(st);
                    let old = self.atomically(|s| s.load_scalar(st, &a, *w))?;
                    let n = match *k {
                        "xchg" => v,
                        "umax" | "umin" => {
                            let (x, y) = (ex(&old, *w), ex(&v, *w));
                            let less = bin(Op::Ult, &x, &y);
                            vl(if *k == "umax" { ite(&less, &y, &x) } else { ite(&less, &x, &y) })
                        }
                        k => bw(
                            match k {
                                "add" => Op::Add,
                                "sub" => Op::Sub,
                                "and" => Op::And,
                                "or" => Op::Or,
                                _ => Op::Xor,
                            },
                            *w,
                            &old,
                            &v,
                        ),
                    };
                    self.atomically(|s| s.store_scalar(st, &a, &n, *w))?;
                    if let (Some(p), Val::C(a)) = (&mut st.par, &a) {
                        p.acquire(*a, *o);
                        p.release(*a, *o, true);
                    }
                    set!(d, old);
                }
                Inst::CmpXchg(d, w, a, c, n, o, of) => {
                    let a = Val::C({
                        let a = g!(a).clone();
                        self.concretize(st, &a, 64)?
                    });
                    self.point(st);
                    let c = g!(c).clone();
                    let n = g!(n).clone();
                    let old = self.atomically(|s| s.load_scalar(st, &a, *w))?;
                    let k = ex(&cmpv(Op::Eq, false, false, *w, &old, &c), 1);
                    let ok = self.branch(st, &k)?;
                    if ok {
                        self.atomically(|s| s.store_scalar(st, &a, &n, *w))?;
                    }
                    if let (Some(p), Val::C(a)) = (&mut st.par, &a) {
                        p.acquire(*a, if ok { *o } else { *of });
                        if ok {
                            p.release(*a, *o, true);
                        }
                    }
                    set!(d, Val::A(Arc::new(vec![old, Val::C(ok as u64)])));
                }
                Inst::Bad(s) => {
                    let mut s = s.clone();
                    s.truncate(160);
                    return Err(End::Incomplete(format!("unsupported instruction: {}", s)));
                }
            }
            st.frames.last_mut().unwrap().ip += 1;
            if let Some(p) = &mut st.par {
                p.decided = false;
            }
            if !st.decided.is_empty() {
                st.decided.clear();
            }
            if !st.conc.is_empty() {
                st.conc.clear();
            }
        }
        if st.steps > self.r.o.max_steps {
            return Err(End::Cand(
                "hang",
                format!("no end after {} instructions", st.steps),
            ));
        }
        Ok(())
    }
    fn switch(&mut self, st: &mut State, e: &ExprRef, def: u32, cases: &[(u64, u32)]) -> R<u32> {
        if let Some(vs) = self.values(st, e, 1024) {
            // by the values the expression can take
            let lab = |x: u64| cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(def);
            let keys = Arc::new(vs.clone());
            let labels: Vec<u32> = vs.iter().map(|x| lab(*x)).collect();
            let mut seen: Vec<u32> = vec![];
            for l in &labels {
                if !seen.contains(l) {
                    seen.push(*l);
                }
            }
            let model = st.model.clone();
            let cur = lab(self.z.ev.eval(e, &model, st.mid) as u64);
            // the model's label first
            seen.sort_by_key(|l| *l != cur);
            let n = seen.len();
            for (i, l) in seen.iter().enumerate() {
                if i + 1 == n {
                    return Ok(*l);
                }
                let t = labels.iter().map(|x| (x == l) as u64).collect();
                let c = tab(e, keys.clone(), t, 1);
                if self.branch(st, &c)? {
                    return Ok(*l);
                }
            }
            return Ok(def);
        }
        let mut labels: Vec<(u32, ExprRef)> = vec![];
        for (k, l) in cases {
            if *l == def {
                continue;
            }
            let c = expr::eq(e, &konst(*k as u128, e.w));
            match labels.iter_mut().find(|x| x.0 == *l) {
                Some(x) => x.1 = expr::or(&x.1, &c),
                None => labels.push((*l, c)),
            }
        }
        for (l, c) in labels {
            if self.branch(st, &c)? {
                return Ok(l);
            }
        }
        Ok(def)
    }
    fn cast(&self, k: Cast, t: &Ty, t2: &Ty, a: &Val) -> R<Val> {
        if let (Ty::Vec(n, et), Ty::Vec(_, et2)) = (t, t2) {
            if k != Cast::Bit {
                let x = vec_of(a);
                let mut out = vec![];
                for i in 0..*n as usize {
                    out.push(self.cast(k, et, et2, &x[i])?);
                }
                return Ok(Val::A(Arc::new(out)));
            }
        }
        Ok(match k {
            Cast::Same => a.clone(),
            Cast::Bit => {
                if t.bits() > 128 {
                    return Err(End::Incomplete("wide bitcast".into()));
                }
                from_bits(t2, &to_bits(t, a))
            }
            Cast::ZExt => match a {
                Val::C(c) => {
                    if t2.bits() > 64 {
                        Val::E(konst(*c as u128, t2.bits() as u8))
                    } else {
                        Val::C(*c)
                    }
                }
                Val::E(e) => vl(zext(e, t2.bits() as u8)),
                _ => return Err(End::Incomplete("zext".into())),
            },
            Cast::SExt => {
                let (w, w2) = (t.bits() as u8, t2.bits() as u8);
                match a {
                    Val::C(c) if w2 <= 64 => Val::C(sext128(*c as u128, w) as u64 & mask64(w2)),
                    v => vl(sext(&ex(v, w), w2)),
                }
            }
            Cast::Trunc => {
                let w2 = t2.bits() as u8;
                match a {
                    Val::C(c) => Val::C(c & mask64(w2)),
                    v => vl(extract(&ex(v, t.bits() as u8), 0, w2)),
                }
            }
            Cast::UiToFp | Cast::SiToFp => match a {
                Val::C(c) if *t2 == Ty::F32 => {
                    let x = if k == Cast::UiToFp {
                        *c as f32
                    } else {
                        sext128(*c as u128, t.bits() as u8) as f32
                    };
                    Val::C(x.to_bits() as u64)
                }
                Val::C(c) if *t2 == Ty::F64 => {
                    let x = if k == Cast::UiToFp {
                        *c as f64
                    } else {
                        sext128(*c as u128, t.bits() as u8) as f64
                    };
                    Val::C(x.to_bits())
                }
                x => return Err(End::Incomplete(format!("symbolic floating point ({:?} {:?})", x, t2))),
            },
            Cast::FpToUi | Cast::FpToSi => match a {
                Val::C(c) if *t == Ty::F64 => {
                    let x = f64::from_bits(*c);
                    let r = if k == Cast::FpToUi { x as u64 } else { x as i64 as u64 };
                    Val::C(r & mask64(t2.bits() as u8))
                }
                _ => return Err(End::Incomplete("symbolic floating point".into())),
            },
        })
    }
    fn arg(&self, st: &State, o: &Opd) -> Val {
        let base = st.frames.last().unwrap().base as usize;
        match o {
            Opd::R(r) => st.regs[base + *r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn set(&self, st: &mut State, d: Option<u32>, v: Val) {
        if let Some(d) = d {
            let base = st.frames.last().unwrap().base as usize;
            st.regs[base + d as usize] = v;
        }
    }
    fn panic_end(&self, st: &State) -> End {
        if st.expect_panic {
            End::Panicked
        } else {
            End::Cand("panic", String::new())
        }
    }
    /// true: control moved into a function
    fn call(
        &mut self,
        st: &mut State,
        d: Option<u32>,
        callee: &Callee,
        args: &[(Opd, u8)],
        rt: &Ty,
    ) -> R<bool> {
        let fi = match callee {
            Callee::Func(f) => *f,
            Callee::Intr(i, w) => {
                self.intrinsic(st, d, *i, *w, args)?;
                return Ok(false);
            }
            Callee::Ext(e) if self.p.m.externs[*e as usize] == "sym_par" => {
                self.par_start(st, args)?;
                return Ok(true);
            }
            Callee::Ext(e) if self.p.m.externs[*e as usize] == "syscall" => {
                let n = self.arg(st, &args[0].0);
                let n = self.concretize(st, &n, 64)?;
                if n == 202 {
                    return self.futex(st, d, args);
                }
                self.external(st, d, *e, args)?;
                return Ok(false);
            }
            Callee::Ext(e) => {
                self.external(st, d, *e, args)?;
                return Ok(false);
            }
            Callee::Ind(o) => {
                let v = self.arg(st, o);
                let a = self.concretize(st, &v, 64)?;
                let id = (a >> BASE_SHIFT).wrapping_sub(1);
                let (ng, nf) = (self.p.ng as u64, self.p.nf as u64);
                if a & 0xffff_ffff == 0 && id >= ng && id < ng + nf {
                    (id - ng) as u32
                } else if a & 0xffff_ffff == 0
                    && id >= ng + nf
                    && id < ng + nf + self.p.m.externs.len() as u64
                {
                    self.external(st, d, (id - ng - nf) as u32, args)?;
                    return Ok(false);
                } else {
                    return Err(End::Cand("memory", "call through a wild pointer".into()));
                }
            }
            Callee::Bad(s) => return Err(End::Incomplete(format!("unsupported call: {}", s))),
        };
        match self.p.sp[fi as usize] {
            Sp::Panic => {
                let mut e = self.panic_end(st);
                if let End::Cand(_, d) = &mut e {
                    *d = self.p.m.funcs[fi as usize].name.clone();
                }
                return Err(e);
            }
            Sp::Nop => {
                let _ = rt;
                self.set(st, d, Val::C(0));
                return Ok(false);
            }
            Sp::Body => {}
        }
        if st.frames.len() > 2500 {
            return Err(End::Cand("stack", "call depth above 2500".into()));
        }
        let f = &self.p.m.funcs[fi as usize];
        let nb = st.regs.len();
        let vals: Vec<Val> = args.iter().map(|(o, _)| self.arg(st, o)).collect();
        st.regs.reserve(f.nregs as usize);
        st.regs.extend(vals);
        st.regs.resize(nb + f.nregs as usize, Val::C(0));
        st.frames.push(Frame {
            func: fi,
            block: 0,
            ip: 0,
            base: nb as u32,
            dst: d.unwrap_or(u32::MAX),
            allocas: vec![],
        });
        self.blocks[self.p.bstart[fi as usize] as usize] = 1;
        if self.r.o.trace {
            eprintln!("{}{}", " ".repeat(st.frames.len()), f.name);
        }
        Ok(true)
    }
    fn intrinsic(
        &mut self,
        st: &mut State,
        d: Option<u32>,
        i: Intr,
        w: u8,
        args: &[(Opd, u8)],
    ) -> R<()> {
        let a = |k: usize| self.arg(st, &args[k].0);
        let r: Val = match i {
            Intr::Nop | Intr::Assume => return Ok(()),
            Intr::LifeEnd => {
                if self.merging > 0 {
                    if let Some(Val::C(p)) = args.last().map(|_| a(args.len() - 1)) {
                        if let Ok((o, _)) = st.mem.locate(p, 0, false) {
                            self.dead.push(o);
                        }
                    }
                }
                return Ok(());
            }
            Intr::Trap => return Err(End::Cand("abort", "trap".into())),
            Intr::Memcpy | Intr::Memmove => {
                let (dst, src, len) = (a(0), a(1), a(2));
                let n = self.concretize(st, &len, args[2].1)?;
                if n == 0 {
                    return Ok(());
                }
                let s = self.concretize(st, &src, 64)?;
                let t = self.concretize(st, &dst, 64)?;
                let sp = st.mem.locate(s, n, false).map_err(|e| self.mem_err(e, false))?;
                let dp = st.mem.locate(t, n, true).map_err(|e| self.mem_err(e, true))?;
                if i == Intr::Memcpy && sp.0 == dp.0 && s != t && s < t + n && t < s + n {
                    return Err(End::Cand("memory", "overlapping copy_nonoverlapping".into()));
                }
                self.touch(st, sp.0, sp.1, n as usize, false)?;
                self.touch(st, dp.0, dp.1, n as usize, true)?;
                st.mem.copy(dp, sp, n as usize);
                return Ok(());
            }
            Intr::Memset => {
                let (dst, v, len) = (a(0), a(1), a(2));
                let n = self.concretize(st, &len, args[2].1)?;
                if n == 0 {
                    return Ok(());
                }
                let t = self.concretize(st, &dst, 64)?;
                let dp = st.mem.locate(t, n, true).map_err(|e| self.mem_err(e, true))?;
                self.touch(st, dp.0, dp.1, n as usize, true)?;
                let ob = st.mem.get_mut(dp.0).unwrap();
                match v {
                    Val::C(c) => ob.fill(dp.1, n as usize, c as u8),
                    v => {
                        let e = ex(&v, 8);
                        for k in 0..n as usize {
                            store_expr(ob, dp.1 + k, &e, 1);
                        }
                    }
                }
                return Ok(());
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let (x, y) = (a(0), a(1));
                let op = if matches!(i, Intr::UMax | Intr::UMin) { Op::Ult } else { Op::Slt };
                let c = ex(&bw(op, w, &x, &y), 1);
                let (p, q) = (ex(&x, w), ex(&y, w));
                if matches!(i, Intr::UMax | Intr::SMax) {
                    vl(ite(&c, &q, &p))
                } else {
                    vl(ite(&c, &p, &q))
                }
            }
            Intr::UAddSat => {
                let (x, y) = (ex(&a(0), w), ex(&a(1), w));
                let s = bin(Op::Add, &x, &y);
                vl(ite(&bin(Op::Ult, &s, &x), &konst(u128::MAX, w), &s))
            }
            Intr::USubSat => {
                let (x, y) = (ex(&a(0), w), ex(&a(1), w));
                vl(ite(&bin(Op::Ult, &x, &y), &konst(0, w), &bin(Op::Sub, &x, &y)))
            }
            Intr::SAddSat | Intr::SSubSat => {
                let (x, y) = (sext(&ex(&a(0), w), w + 1), sext(&ex(&a(1), w), w + 1));
                let s = bin(if i == Intr::SAddSat { Op::Add } else { Op::Sub }, &x, &y);
                let top = extract(&s, w, 1);
                let nxt = extract(&s, w - 1, 1);
                let over = not(&expr::eq(&top, &nxt));
                let mx = konst(mask(w) >> 1, w);
                let mn = konst(1u128 << (w - 1), w);
                vl(ite(&over, &ite(&top, &mn, &mx), &extract(&s, 0, w)))
            }
            Intr::BitReverse => {
                let e = ex(&a(0), w);
                let mut r = extract(&e, 0, 1);
                for k in 1..w {
                    r = concat(&r, &extract(&e, k, 1));
                }
                vl(r)
            }
            Intr::BSwap => {
                let e = ex(&a(0), w);
                let mut r = extract(&e, 0, 8);
                for k in 1..w / 8 {
                    r = concat(&r, &extract(&e, k * 8, 8));
                }
                vl(r)
            }
            Intr::Ctlz | Intr::Cttz => match a(0) {
                Val::C(c) => Val::C(if i == Intr::Cttz {
                    if c == 0 {
                        w as u64
                    } else {
                        c.trailing_zeros() as u64
                    }
                } else {
                    (c.leading_zeros() - (64 - w as u32)) as u64
                }),
                v => {
                    let e = ex(&v, w);
                    let mut r = konst(w as u128, w);
                    for k in 0..w {
                        // cttz: lowest set bit wins, so it goes last
                        let (bit, val) = if i == Intr::Cttz {
                            (w - 1 - k, w - 1 - k)
                        } else {
                            (k, w - 1 - k)
                        };
                        r = ite(&extract(&e, bit, 1), &konst(val as u128, w), &r);
                    }
                    vl(r)
                }
            },
            Intr::Ctpop => match a(0) {
                Val::C(c) => Val::C(c.count_ones() as u64),
                v => vl(add_all(&ex(&v, w))),
            },
            Intr::IsConstant => Val::C(0),
            Intr::ThreadLocalAddress => {
                let a = a(0);
                let a = self.concretize(st, &a, 64)?;
                Val::C(self.thread_local(st, a))
            }
            Intr::Expect => a(0),
            Intr::FshL | Intr::FshR => {
                let (x, y, s) = (ex(&a(0), w), ex(&a(1), w), a(2));
                match s {
                    Val::C(s) => {
                        let s = (s % w as u64) as u8;
                        if s == 0 {
                            vl(if i == Intr::FshL { x } else { y })
                        } else {
                            let sh = if i == Intr::FshL { w - s } else { s };
                            // low w bits of (x:y) >> sh
                            vl(concat(&extract(&x, 0, sh), &extract(&y, sh, w - sh)))
                        }
                    }
                    v => {
                        let s = bin(Op::URem, &ex(&v, w), &konst(w as u128, w));
                        let rs = bin(Op::Sub, &konst(w as u128, w), &s);
                        let r = if i == Intr::FshL {
                            bin(Op::Or, &bin(Op::Shl, &x, &s), &bin(Op::LShr, &y, &rs))
                        } else {
                            bin(Op::Or, &bin(Op::Shl, &x, &rs), &bin(Op::LShr, &y, &s))
                        };
                        vl(r)
                    }
                }
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (x, y) = (a(0), a(1));
                self.overflow(i, w, &x, &y)?
            }
            Intr::UCmp | Intr::SCmp => {
                let (x, y) = (a(0), a(1));
                let op = if i == Intr::UCmp { Op::Ult } else { Op::Slt };
                let lt = ex(&bw(op, w, &x, &y), 1);
                let gt = ex(&bw(op, w, &y, &x), 1);
                // result width: that of the destination (i8 in practice)
                vl(ite(&lt, &konst(255, 8), &ite(&gt, &konst(1, 8), &konst(0, 8))))
            }
            Intr::Abs => {
                let x = ex(&a(0), w);
                let neg = bin(Op::Slt, &x, &konst(0, w));
                vl(ite(&neg, &bin(Op::Sub, &konst(0, w), &x), &x))
            }
            Intr::FAbs => match a(0) {
                Val::C(c) => Val::C(c & !(1 << 63)),
                _ => return Err(End::Incomplete("symbolic floating point".into())),
            },
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd => {
                let x = vec_of(&a(0));
                let op = match i {
                    Intr::ReduceOr => Op::Or,
                    Intr::ReduceAnd => Op::And,
                    _ => Op::Add,
                };
                let mut r = x[0].clone();
                for k in 1..x.len() {
                    r = bw(op, w, &r, &x[k]);
                }
                r
            }
        };
        self.set(st, d, r);
        Ok(())
    }
    fn overflow(&self, i: Intr, w: u8, x: &Val, y: &Val) -> R<Val> {
        let pair = |r: Val, o: Val| Ok(Val::A(Arc::new(vec![r, o])));
        let m = mask64(w);
        if let (Val::C(p), Val::C(q)) = (x, y) {
            let (p, q) = (*p, *q);
            let (sp, sq) = (sext128(p as u128, w), sext128(q as u128, w));
            let fit = |v: i128| {
                Val::C((sext128(v as u128 & mask(w), w) != v) as u64)
            };
            return match i {
                Intr::UAddO => pair(Val::C(p.wrapping_add(q) & m), Val::C((p as u128 + q as u128 > m as u128) as u64)),
                Intr::USubO => pair(Val::C(p.wrapping_sub(q) & m), Val::C((p < q) as u64)),
                Intr::UMulO => pair(Val::C(p.wrapping_mul(q) & m), Val::C((p as u128 * q as u128 > m as u128) as u64)),
                Intr::SAddO => pair(Val::C(p.wrapping_add(q) & m), fit(sp + sq)),
                Intr::SSubO => pair(Val::C(p.wrapping_sub(q) & m), fit(sp - sq)),
                _ => pair(Val::C(p.wrapping_mul(q) & m), fit(sp * sq)),
            };
        }
        let (p, q) = (ex(x, w), ex(y, w));
        if w > 64 {
            return Err(End::Incomplete("wide overflow arithmetic".into()));
        }
        match i {
            Intr::UAddO => {
                let s = bin(Op::Add, &p, &q);
                let o = if p.hi.checked_add(q.hi).map(|h| h <= m).unwrap_or(false) {
                    Val::C(0)
                } else {
                    vl(bin(Op::Ult, &s, &p))
                };
                pair(vl(s), o)
            }
            Intr::USubO => pair(vl(bin(Op::Sub, &p, &q)), vl(bin(Op::Ult, &p, &q))),
            Intr::UMulO => {
                let s = bin(Op::Mul, &p, &q);
                let o = if p.hi.checked_mul(q.hi).map(|h| h <= m).unwrap_or(false) {
                    Val::C(0)
                } else {
                    let w2 = 2 * w;
                    let full = bin(Op::Mul, &zext(&p, w2), &zext(&q, w2));
                    vl(not(&expr::eq(&extract(&full, w, w), &konst(0, w))))
                };
                pair(vl(s), o)
            }
            Intr::SAddO | Intr::SSubO => {
                let op = if i == Intr::SAddO { Op::Add } else { Op::Sub };
                let s = bin(op, &sext(&p, w + 1), &sext(&q, w + 1));
                let o = not(&expr::eq(&extract(&s, w, 1), &extract(&s, w - 1, 1)));
                pair(vl(bin(op, &p, &q)), vl(o))
            }
            _ => {
                let w2 = 2 * w;
                let full = bin(Op::Mul, &sext(&p, w2), &sext(&q, w2));
                let lowx = sext(&extract(&full, 0, w), w2);
                let o = not(&expr::eq(&full, &lowx));
                pair(vl(bin(Op::Mul, &p, &q)), vl(o))
            }
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> R<Val> {
        if size > 1 << 26 {
            return Err(End::Cand("alloc", format!("allocation of {} bytes", size)));
        }
        let mut o = Obj::new(size as u32, align as u32, OKind::Heap);
        if zero {
            o.st = St::Init;
        }
        let id = st.mem.add(o);
        if let Some(p) = &mut st.par {
            p.fresh(id);
        }
        Ok(Val::C(base_of(id)))
    }
    fn heap_obj(&self, st: &State, p: u64) -> R<u32> {
        let id = (p >> BASE_SHIFT).wrapping_sub(1);
        if p & 0xffff_ffff == 0 && id < st.mem.next as u64 {
            match st.mem.get(id as u32) {
                Some(o) if o.kind == OKind::Heap => return Ok(id as u32),
                None => return Err(End::Cand("memory", "double free".into())),
                _ => {}
            }
        }
        Err(End::Cand("memory", "free of a pointer that was not allocated".into()))
    }
    fn new_var(&mut self, st: &mut State, w: u8) -> R<Val> {
        let i = st.widths.len();
        if i >= UNINIT_BIT {
            return Err(End::Incomplete("too many symbolic inputs".into()));
        }
        st.widths.push(w);
        st.doms.push(if w <= 8 { full_dom(w) } else { Dom::FULL });
        let mut m = (*st.model).clone();
        m.push(0);
        st.model = Arc::new(m);
        st.mid = self.r.mids.fetch_add(1, Relaxed);
        Ok(Val::E(var(i as u16, w)))
    }
    fn external(&mut self, st: &mut State, d: Option<u32>, e: u32, args: &[(Opd, u8)]) -> R<()> {
        let p = self.p;
        let name = p.m.externs[e as usize].as_str();
        let a = |k: usize| self.arg(st, &args[k].0);
        let r: Val = match name {
            "sym_u8" => self.new_var(st, 8)?,
            "sym_u16" => self.new_var(st, 16)?,
            "sym_u32" => self.new_var(st, 32)?,
            "sym_u64" => self.new_var(st, 64)?,
            "sym_tier" => Val::C(self.r.o.tier as u64),
            "sym_assume" => {
                let c = ex(&a(0), args[0].1);
                let c = if c.w == 1 { c } else { extract(&c, 0, 1) };
                match c.as_const() {
                    Some(1) => {}
                    Some(_) => return Err(End::Cut),
                    None => {
                        let c = self.settle(st, &c, "assumption on uninitialised memory")?;
                        let model = st.model.clone();
                        if self.z.ev.eval(&c, &model, st.mid) == 1 {
                            self.add_con(st, &c);
                        } else {
                            match self.feasible(st, &c)? {
                                None => return Err(End::Cut),
                                Some(m) => {
                                    self.add_con(st, &c);
                                    self.set_model(st, &m);
                                }
                            }
                        }
                    }
                }
                Val::C(0)
            }
            "sym_assert" => {
                let c = ex(&a(0), args[0].1);
                let c = if c.w == 1 { c } else { extract(&c, 0, 1) };
                let id = self.concretize(st, &a(1), args[1].1)?;
                self.r.asserts.fetch_add(1, Relaxed);
                match c.as_const() {
                    Some(1) => {
                        self.r.asserts_folded.fetch_add(1, Relaxed);
                    }
                    Some(_) => return Err(End::Cand("assert", format!("{}", id))),
                    None => {
                        self.r.asserts_solver.fetch_add(1, Relaxed);
                        // each conjunct is a question of its own (often about one variable)
                        let mut parts = vec![];
                        conjuncts(&c, &mut parts);
                        for part in &parts {
                            let part = &self.settle(st, part, "claim about uninitialised memory")?;
                            if let Some(m) = self.feasible(st, &not(part))? {
                                let mut s2 = st.clone();
                                self.set_model(&mut s2, &m);
                                self.candidate(&s2, "assert", format!("{}", id));
                                let model = st.model.clone();
                                if self.z.ev.eval(part, &model, st.mid) == 0 {
                                    return Err(End::Cut);
                                }
                                self.add_con(st, part);
                            }
                        }
                    }
                }
                Val::C(0)
            }
            "sym_concretize" => {
                let v = a(0);
                Val::C(self.concretize(st, &v, args[0].1)?)
            }
            "sym_cover" => {
                let v = self.concretize(st, &a(0), args[0].1)?;
                self.r.covers.lock().unwrap().insert(v);
                Val::C(0)
            }
            "sym_observe" => {
                let v = ex(&a(0), args[0].1);
                st.obs.push(v);
                Val::C(0)
            }
            "sym_expect_panic" => {
                let v = self.concretize(st, &a(0), args[0].1)?;
                st.expect_panic = v & 1 == 1;
                Val::C(0)
            }
            "sym_live_heap" => Val::C(st.mem.live_heap),
            "rt_alloc" | "rt_alloc_zeroed" => {
                let size = self.concretize(st, &a(0), 64)?;
                let align = self.concretize(st, &self.arg(st, &args[1].0), 64)?;
                if size == 0 {
                    return Err(End::Cand("layout", "allocation of zero bytes".into()));
                }
                self.alloc(st, size, align, name == "rt_alloc_zeroed")?
            }
            "rt_dealloc" => {
                let ptr = self.concretize(st, &a(0), 64)?;
                let size = self.concretize(st, &self.arg(st, &args[1].0), 64)?;
                let align = self.concretize(st, &self.arg(st, &args[2].0), 64)?;
                let id = self.heap_obj(st, ptr)?;
                let o = st.mem.get(id).unwrap();
                if o.size as u64 != size || o.align as u64 != align {
                    return Err(End::Cand(
                        "layout",
                        format!(
                            "deallocation with size {} align {} of an allocation with size {} align {}",
                            size, align, o.size, o.align
                        ),
                    ));
                }
                self.touch(st, id, 0, size as usize, true)?;
                st.mem.free(id);
                Val::C(0)
            }
            "rt_realloc" => {
                let ptr = self.concretize(st, &a(0), 64)?;
                let size = self.concretize(st, &self.arg(st, &args[1].0), 64)?;
                let align = self.concretize(st, &self.arg(st, &args[2].0), 64)?;
                let new = self.concretize(st, &self.arg(st, &args[3].0), 64)?;
                let id = self.heap_obj(st, ptr)?;
                let o = st.mem.get(id).unwrap();
                if o.size as u64 != size || o.align as u64 != align {
                    return Err(End::Cand("layout", "reallocation with another layout".into()));
                }
                if new == 0 {
                    return Err(End::Cand("layout", "reallocation to zero bytes".into()));
                }
                self.touch(st, id, 0, size as usize, true)?;
                let v = self.alloc(st, new, align, false)?;
                let nid = match v {
                    Val::C(c) => ((c >> BASE_SHIFT) - 1) as u32,
                    _ => unreachable!(),
                };
                st.mem.copy((nid, 0), (id, 0), size.min(new) as usize);
                st.mem.free(id);
                v
            }
            "malloc" => {
                let size = self.concretize(st, &a(0), 64)?;
                self.alloc(st, size, 16, false)?
            }
            "calloc" => {
                let n = self.concretize(st, &a(0), 64)?;
                let k = self.concretize(st, &self.arg(st, &args[1].0), 64)?;
                self.alloc(st, n * k, 16, true)?
            }
            "free" => {
                let ptr = self.concretize(st, &a(0), 64)?;
                if ptr != 0 {
                    let id = self.heap_obj(st, ptr)?;
                    let n = st.mem.get(id).unwrap().size as usize;
                    self.touch(st, id, 0, n, true)?;
                    st.mem.free(id);
                }
                Val::C(0)
            }
            "memcmp" | "bcmp" => {
                let n = self.concretize(st, &a(2), 64)? as usize;
                if n == 0 {
                    self.set(st, d, Val::C(0));
                    return Ok(());
                }
                let (v0, v1) = (self.arg(st, &args[0].0), self.arg(st, &args[1].0));
                let x = self.concretize(st, &v0, 64)?;
                let y = self.concretize(st, &v1, 64)?;
                let xp = st.mem.locate(x, n as u64, false).map_err(|e| self.mem_err(e, false))?;
                let yp = st.mem.locate(y, n as u64, false).map_err(|e| self.mem_err(e, false))?;
                self.touch(st, xp.0, xp.1, n, false)?;
                self.touch(st, yp.0, yp.1, n, false)?;
                let (xo, yo) = (st.mem.get(xp.0).unwrap(), st.mem.get(yp.0).unwrap());
                let mut allc = true;
                for k in 0..n {
                    if xo.state(xp.1 + k) != 0 || yo.state(yp.1 + k) != 0 {
                        allc = false;
                        break;
                    }
                }
                if allc {
                    let c = xo.data[xp.1..xp.1 + n].cmp(&yo.data[yp.1..yp.1 + n]);
                    Val::C(c as i32 as u32 as u64)
                } else if name == "bcmp" {
                    let mut r = tru();
                    for k in 0..n {
                        r = expr::and(&r, &expr::eq(&xo.byte_expr(xp.1 + k, xp.0), &yo.byte_expr(yp.1 + k, yp.0)));
                    }
                    vl(ite(&r, &konst(0, 32), &konst(1, 32)))
                } else {
                    let mut r = konst(0, 32);
                    for k in (0..n).rev() {
                        let p = xo.byte_expr(xp.1 + k, xp.0);
                        let q = yo.byte_expr(yp.1 + k, yp.0);
                        let df = ite(&bin(Op::Ult, &p, &q), &konst(0xffff_ffff, 32), &konst(1, 32));
                        r = ite(&expr::eq(&p, &q), &r, &df);
                    }
                    vl(r)
                }
            }
            "strlen" => {
                let x = self.concretize(st, &a(0), 64)?;
                let mut n = 0;
                loop {
                    let v = self.load_scalar(st, &Val::C(x + n), 8)?;
                    let b = self.concretize(st, &v, 8)?;
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::C(n)
            }
            "getenv" => Val::C(0),
            "write" => a(2),
            "writev" => Val::C(1),
            "__errno_location" => {
                Val::C(self.errno(st))
            }
            "syscall" | "getrandom" => {
                // getrandom(buf, len, flags): fixed bytes
                let k = if name == "syscall" { 1 } else { 0 };
                if name == "syscall" {
                    let n = self.concretize(st, &a(0), 64)?;
                    if n != 318 {
                        return Err(End::Incomplete(format!("system call {}", n)));
                    }
                }
                let buf = self.concretize(st, &self.arg(st, &args[k].0), 64)?;
                let n = self.concretize(st, &self.arg(st, &args[k + 1].0), 64)?;
                let dp = st.mem.locate(buf, n, true).map_err(|e| self.mem_err(e, true))?;
                st.mem.get_mut(dp.0).unwrap().fill(dp.1, n as usize, 0x5a);
                Val::C(n)
            }
            "__cxa_thread_atexit_impl" => Val::C(0),
            // thread-exit destructors: the one thread of a run never exits
            "pthread_key_create" => {
                let at = self.concretize(st, &a(0), 64)?;
                self.store_scalar(st, &Val::C(at), &Val::C(1), 32)?;
                Val::C(0)
            }
            "pthread_setspecific" | "pthread_key_delete" => Val::C(0),
            "pthread_getspecific" => Val::C(0),
            "sym_done" => return Err(End::Done),
            "abort" => return Err(End::Cand("abort", "abort".into())),
            _ => return Err(End::Incomplete(format!("external function {}", name))),
        };
        self.set(st, d, r);
        Ok(())
    }
}

enum Place {
    One(u32, usize),
    /// object, address expression, all values considered, the in-bounds ones (sorted)
    Many(u32, ExprRef, Vec<u64>, Vec<u64>),
}
pub fn full_dom(w: u8) -> Dom {
    if w >= 8 {
        return Dom::FULL;
    }
    let mut d = Dom::NONE;
    for k in 0..1u64 << w {
        d.set(k);
    }
    d
}
fn store_expr(ob: &mut Obj, f: usize, e: &ExprRef, n: usize) {
    match &e.kind {
        Kind::Const(c) => {
            if n <= 8 {
                ob.write_conc(f, *c as u64, n);
            } else {
                let b = c.to_le_bytes();
                ob.write_slice(f, &b[..n]);
            }
        }
        Kind::Uninit(_) => ob.write_uninit(f, n),
        Kind::Concat(hi, lo) if hi.w % 8 == 0 && lo.w % 8 == 0 => {
            let (hi, lo) = (hi.clone(), lo.clone());
            let ln = lo.w as usize / 8;
            store_expr(ob, f, &lo, ln);
            store_expr(ob, f + ln, &hi, n - ln);
        }
        _ => ob.write_sym(f, e, n),
    }
}
fn phi_val(inc: &[(u32, Opd)], from: u32, regs: &[Val], base: usize) -> Val {
    for (l, o) in inc {
        if *l == from {
            return match o {
                Opd::R(r) => regs[base + *r as usize].clone(),
                Opd::K(v) => v.clone(),
            };
        }
    }
    panic!("phi without the predecessor")
}
fn insert(a: &Val, b: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() {
        return b.clone();
    }
    let mut v = (*vec_of(a)).clone();
    v[ix[0] as usize] = insert(&v[ix[0] as usize], b, &ix[1..]);
    Val::A(Arc::new(v))
}
