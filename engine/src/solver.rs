//! Z3 back end (C API) and the queries over path conditions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_interrupt(c: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("symex: Z3 error code {}", code);
    std::process::exit(3);
}

pub fn z3_version() -> String {
    unsafe {
        CStr::from_ptr(Z3_get_full_version())
            .to_string_lossy()
            .into_owned()
    }
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64, // decided by Z3
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub cache_hits: AtomicU64,
    pub micros: AtomicU64,
    pub max_micros: AtomicU64,
    pub tables: AtomicU64, // byte-predicate tables shown equivalent to their expression by Z3
    pub tables_unverified: AtomicU64,
    pub table_decisions: AtomicU64,
}

#[derive(Clone)]
pub enum QRes {
    Unsat,
    Sat(Arc<Vec<(u16, u64)>>),
    Unknown,
}

/// The context a query is running in (as a number) and since when.
type Slot = Arc<Mutex<(usize, Option<Instant>)>>;

pub struct Shared {
    slots: Mutex<Vec<Slot>>,
    cache: Vec<Mutex<FastMap<u128, QRes>>>,
    verified: Mutex<FastMap<u128, ()>>,
    pub stats: Stats,
    pub timeout_ms: u32,
}
impl Shared {
    /// Interrupt queries that take too long. (Z3's own timeout can lose a wakeup and spin forever.)
    pub fn watch(self: &Arc<Self>) {
        let w = Arc::downgrade(self);
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let Some(sh) = w.upgrade() else { return };
            for s in sh.slots.lock().unwrap().iter() {
                let g = s.lock().unwrap();
                if let (c, Some(t)) = *g {
                    if t.elapsed().as_millis() > sh.timeout_ms as u128 {
                        unsafe { Z3_interrupt(c as P) }
                    }
                }
            }
        });
    }
    pub fn new(timeout_ms: u32) -> Self {
        Shared {
            slots: Mutex::new(vec![]),
            cache: (0..64).map(|_| Mutex::new(FastMap::default())).collect(),
            verified: Mutex::new(FastMap::default()),
            stats: Stats::default(),
            timeout_ms,
        }
    }
}

pub struct Z3 {
    ctx: P,
    solver: P,
    bv: FastMap<u128, P>,
    bo: FastMap<u128, P>,
    nq: u64,
    slot: Slot,
    short: FastMap<u128, Option<ExprRef>>,
    pub sh: Arc<Shared>,
    pub tt: TableCache,
    pub ev: EvalCache,
}

/// width of each variable on this path
pub type Widths = Vec<u8>;

impl Z3 {
    pub fn new(sh: Arc<Shared>) -> Z3 {
        let slot: Slot = Default::default();
        sh.slots.lock().unwrap().push(slot.clone());
        let mut z = Z3 {
            slot,
            short: FastMap::default(),
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            bv: FastMap::default(),
            bo: FastMap::default(),
            nq: 0,
            sh,
            tt: TableCache::new(),
            ev: EvalCache::new(),
        };
        z.open();
        z
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.solver = Z3_mk_solver_for_logic(self.ctx, sym);
            Z3_solver_inc_ref(self.ctx, self.solver);
        }
        self.bv.clear();
        self.bo.clear();
    }
    fn close(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
    fn run(&self) -> c_int {
        *self.slot.lock().unwrap() = (self.ctx as usize, Some(Instant::now()));
        let k = unsafe { Z3_solver_check(self.ctx, self.solver) };
        self.slot.lock().unwrap().1 = None;
        k
    }
    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    fn var(&self, i: u32, w: u8) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
            Z3_mk_const(
                self.ctx,
                Z3_mk_int_symbol(self.ctx, (i as i32) << 8 | w as i32),
                s,
            )
        }
    }
    fn b(&mut self, e: &ExprRef) -> P {
        // width-1 expression as Bool
        if let Some(p) = self.bo.get(&e.hash) {
            return *p;
        }
        let c = self.ctx;
        let r = unsafe {
            match &e.kind {
                Kind::Const(k) => {
                    if *k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Kind::Bin(op, x, y) => match op {
                    Op::Eq => {
                        if x.w == 1 {
                            let (p, q) = (self.b(x), self.b(y));
                            Z3_mk_eq(c, p, q)
                        } else {
                            let (p, q) = (self.v(x), self.v(y));
                            Z3_mk_eq(c, p, q)
                        }
                    }
                    Op::Ult => {
                        let (p, q) = (self.v(x), self.v(y));
                        Z3_mk_bvult(c, p, q)
                    }
                    Op::Ule => {
                        let (p, q) = (self.v(x), self.v(y));
                        Z3_mk_bvule(c, p, q)
                    }
                    Op::Slt => {
                        let (p, q) = (self.v(x), self.v(y));
                        Z3_mk_bvslt(c, p, q)
                    }
                    Op::Sle => {
                        let (p, q) = (self.v(x), self.v(y));
                        Z3_mk_bvsle(c, p, q)
                    }
                    Op::And | Op::Mul => {
                        let a = [self.b(x), self.b(y)];
                        Z3_mk_and(c, 2, a.as_ptr())
                    }
                    Op::Or => {
                        let a = [self.b(x), self.b(y)];
                        Z3_mk_or(c, 2, a.as_ptr())
                    }
                    Op::Xor | Op::Add | Op::Sub => {
                        if y.as_const() == Some(1) {
                            let p = self.b(x);
                            Z3_mk_not(c, p)
                        } else {
                            let (p, q) = (self.b(x), self.b(y));
                            Z3_mk_xor(c, p, q)
                        }
                    }
                    _ => {
                        let p = self.v(e);
                        Z3_mk_eq(c, p, self.num(1, 1))
                    }
                },
                Kind::Ite(k, x, y) => {
                    let (k, x, y) = (self.b(k), self.b(x), self.b(y));
                    Z3_mk_ite(c, k, x, y)
                }
                _ => {
                    let p = self.v(e);
                    Z3_mk_eq(c, p, self.num(1, 1))
                }
            }
        };
        self.bo.insert(e.hash, r);
        r
    }
    fn v(&mut self, e: &ExprRef) -> P {
        if let Some(p) = self.bv.get(&e.hash) {
            return *p;
        }
        let c = self.ctx;
        let boolish = e.w == 1
            && match &e.kind {
                Kind::Bin(op, _, _) => {
                    is_cmp(*op) || matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul)
                }
                Kind::Ite(..) => true,
                _ => false,
            };
        let r = unsafe {
            if boolish {
                let p = self.b(e);
                Z3_mk_ite(c, p, self.num(1, 1), self.num(0, 1))
            } else {
                match &e.kind {
                    Kind::Const(k) => self.num(*k, e.w),
                    Kind::Var(i) => self.var(*i as u32, e.w),
                    Kind::Uninit(s) => {
                        let name = CString::new(format!("uninit{}_{}", s, e.w)).unwrap();
                        let s = Z3_mk_bv_sort(c, e.w as c_uint);
                        Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), s)
                    }
                    Kind::Bin(op, x, y) => {
                        let (p, q) = (self.v(x), self.v(y));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, p, q),
                            Op::Sub => Z3_mk_bvsub(c, p, q),
                            Op::Mul => Z3_mk_bvmul(c, p, q),
                            Op::UDiv => Z3_mk_bvudiv(c, p, q),
                            Op::URem => Z3_mk_bvurem(c, p, q),
                            Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                            Op::SRem => Z3_mk_bvsrem(c, p, q),
                            Op::And => Z3_mk_bvand(c, p, q),
                            Op::Or => Z3_mk_bvor(c, p, q),
                            Op::Xor => Z3_mk_bvxor(c, p, q),
                            Op::Shl => Z3_mk_bvshl(c, p, q),
                            Op::LShr => Z3_mk_bvlshr(c, p, q),
                            Op::AShr => Z3_mk_bvashr(c, p, q),
                            _ => unreachable!(),
                        }
                    }
                    Kind::Ite(k, x, y) => {
                        let (k, x, y) = (self.b(k), self.v(x), self.v(y));
                        Z3_mk_ite(c, k, x, y)
                    }
                    Kind::Concat(x, y) => {
                        let (p, q) = (self.v(x), self.v(y));
                        Z3_mk_concat(c, p, q)
                    }
                    Kind::Extract(x, lo) => {
                        let p = self.v(x);
                        Z3_mk_extract(c, (*lo + e.w - 1) as c_uint, *lo as c_uint, p)
                    }
                    Kind::ZExt(x) => {
                        let p = self.v(x);
                        Z3_mk_zero_ext(c, (e.w - x.w) as c_uint, p)
                    }
                    Kind::SExt(x) => {
                        let p = self.v(x);
                        Z3_mk_sign_ext(c, (e.w - x.w) as c_uint, p)
                    }
                    Kind::Tab(x, k, vals) => {
                        let p = self.v(x);
                        let mut groups: std::collections::BTreeMap<u64, Vec<u64>> =
                            Default::default();
                        for (i, val) in vals.iter().enumerate() {
                            if *val != 0 {
                                groups.entry(*val).or_default().push(k[i]);
                            }
                        }
                        let mut r = self.num(0, e.w);
                        for (val, keys) in groups {
                            let cond = self.ranges(p, x.w, &keys);
                            r = Z3_mk_ite(c, cond, self.num(val as u128, e.w), r);
                        }
                        r
                    }
                }
            }
        };
        self.bv.insert(e.hash, r);
        r
    }
    /// p is one of the (sorted) keys
    fn ranges(&mut self, p: P, w: u8, keys: &[u64]) -> P {
        let c = self.ctx;
        let mut parts: Vec<P> = vec![];
        let mut i = 0;
        unsafe {
            while i < keys.len() {
                let mut j = i;
                while j + 1 < keys.len() && keys[j + 1] == keys[j] + 1 {
                    j += 1;
                }
                if i == j {
                    parts.push(Z3_mk_eq(c, p, self.num(keys[i] as u128, w)));
                } else {
                    let a = [
                        Z3_mk_bvule(c, self.num(keys[i] as u128, w), p),
                        Z3_mk_bvule(c, p, self.num(keys[j] as u128, w)),
                    ];
                    parts.push(Z3_mk_and(c, 2, a.as_ptr()));
                }
                i = j + 1;
            }
            Z3_mk_or(c, parts.len() as c_uint, parts.as_ptr())
        }
    }

    /// Decide satisfiability of the conjunction; on Sat give values of `vars`.
    fn solve(&mut self, parts: &[ExprRef], doms: &[(u16, u8, Dom)], vars: &[(u16, u8)]) -> QRes {
        self.nq += 1;
        if self.nq % 4000 == 0 || self.bv.len() > 400_000 {
            self.close();
            self.open();
        }
        let t0 = Instant::now();
        let c = self.ctx;
        let r;
        unsafe {
            Z3_solver_reset(c, self.solver);
            for (i, w, d) in doms {
                let p = self.var(*i as u32, *w);
                let keys: Vec<u64> = d.iter().collect();
                let q = self.ranges(p, *w, &keys);
                Z3_solver_assert(c, self.solver, q);
            }
            for e in parts {
                let p = self.b(e);
                Z3_solver_assert(c, self.solver, p);
            }
            let k = self.run();
            r = match k {
                -1 => QRes::Unsat,
                1 => {
                    let m = Z3_solver_get_model(c, self.solver);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for (i, w) in vars {
                        let p = self.var(*i as u32, *w);
                        let mut v: P = std::ptr::null_mut();
                        let mut x: u64 = 0;
                        if Z3_model_eval(c, m, p, true, &mut v) {
                            Z3_get_numeral_uint64(c, v, &mut x);
                        }
                        out.push((*i, x));
                    }
                    Z3_model_dec_ref(c, m);
                    QRes::Sat(Arc::new(out))
                }
                _ => QRes::Unknown,
            };
        }
        let st = &self.sh.stats;
        let us = t0.elapsed().as_micros() as u64;
        st.queries.fetch_add(1, Relaxed);
        st.micros.fetch_add(us, Relaxed);
        st.max_micros.fetch_max(us, Relaxed);
        match r {
            QRes::Unsat => st.unsat.fetch_add(1, Relaxed),
            QRes::Sat(_) => st.sat.fetch_add(1, Relaxed),
            QRes::Unknown => st.unknown.fetch_add(1, Relaxed),
        };
        if us > 2_000_000 && std::env::var("SYMEX_SLOW").is_ok() {
            eprintln!(
                "slow query {} ms: sizes {:?} last {:?}",
                us / 1000,
                parts.iter().map(|p| p.size).collect::<Vec<_>>(),
                parts.last()
            );
        }
        r
    }

    /// Truth table of a one-byte predicate; its equivalence with the expression is checked by Z3
    /// once per distinct predicate (up to renaming of the variable).
    pub fn truth(&mut self, e: &ExprRef, w: u8) -> Option<Dom> {
        let d = self.tt.truth(e)?;
        if e.size > 2500 {
            self.sh.stats.tables_unverified.fetch_add(1, Relaxed);
            return Some(d);
        }
        let e0 = rename(e);
        {
            let mut g = self.sh.verified.lock().unwrap();
            if g.contains_key(&e0.hash) {
                return Some(d);
            }
            g.insert(e0.hash, ());
        }
        // exists x: e0(x) != (x in d)
        self.nq += 1;
        let t0 = Instant::now();
        let c = self.ctx;
        let k = unsafe {
            Z3_solver_reset(c, self.solver);
            let p = self.var(0, w);
            let full = mask64(w);
            let keys: Vec<u64> = d.iter().filter(|x| *x <= full).collect();
            let q = if keys.is_empty() {
                Z3_mk_false(c)
            } else {
                self.ranges(p, w, &keys)
            };
            let b = self.b(&e0);
            Z3_solver_assert(c, self.solver, Z3_mk_xor(c, b, q));
            self.run()
        };
        let st = &self.sh.stats;
        let us = t0.elapsed().as_micros() as u64;
        st.queries.fetch_add(1, Relaxed);
        st.micros.fetch_add(us, Relaxed);
        st.max_micros.fetch_max(us, Relaxed);
        match k {
            -1 => {
                st.unsat.fetch_add(1, Relaxed);
                st.tables.fetch_add(1, Relaxed);
            }
            1 => {
                eprintln!("symex: INTERNAL: byte table of {:?} disagrees with Z3", e0);
                std::process::exit(3);
            }
            _ => {
                st.unknown.fetch_add(1, Relaxed);
                st.tables_unverified.fetch_add(1, Relaxed);
            }
        }
        Some(d)
    }

    /// A long expression over one byte, as a table over that byte (once Z3 has shown them equal).
    pub fn collapse(&mut self, e: &ExprRef) -> Option<ExprRef> {
        if let Some(r) = self.short.get(&e.hash) {
            return r.clone();
        }
        let v = byte_var(e)?;
        let t = self.tt.table(e)?;
        let keys = all_bytes();
        let mut r = Some(tab(&v, keys.clone(), t.to_vec(), e.w));
        let e0 = rename(e);
        let fresh = {
            let mut g = self.sh.verified.lock().unwrap();
            g.insert(e0.hash ^ 0xC0, ()).is_none()
        };
        if fresh {
            let t0 = tab(&var(0, 8), keys, t.to_vec(), e.w);
            let goal = not(&eq(&e0, &t0));
            match self.solve(&[goal], &[], &[]) {
                QRes::Unsat => {
                    self.sh.stats.tables.fetch_add(1, Relaxed);
                }
                QRes::Sat(_) => {
                    eprintln!("symex: INTERNAL: table of {:?} disagrees with Z3", e0);
                    std::process::exit(3);
                }
                QRes::Unknown => r = None,
            }
        }
        if self.short.len() > 100_000 {
            self.short.clear();
        }
        self.short.insert(e.hash, r.clone());
        r
    }

    /// Is pc /\ cond satisfiable?  `pc` gives the constraints sharing variables with cond.
    pub fn check(
        &mut self,
        slice: &[ExprRef],
        doms: &[(u16, u8, Dom)],
        cond: &ExprRef,
        vars: &[(u16, u8)],
    ) -> QRes {
        let mut key: u128 = 0;
        let mut h = |x: u128| {
            key = key.wrapping_add(
                (x ^ (x >> 64))
                    .wrapping_mul(0xD1B54A32D192ED03_9E3779B97F4A7C15)
                    .rotate_left(47),
            )
        };
        for e in slice {
            h(e.hash);
        }
        h(cond.hash);
        for (i, w, d) in doms {
            let mut k = (*i as u128) << 8 | *w as u128;
            for (n, x) in d.0.iter().enumerate() {
                k = k
                    .wrapping_mul(0xA0761D6478BD642F_E7037ED1A0B428DB)
                    .wrapping_add((*x as u128) << n);
            }
            h(k ^ 0x5555);
        }
        let shard = (key >> 32) as usize % 64;
        if let Some(r) = self.sh.cache[shard].lock().unwrap().get(&key) {
            self.sh.stats.cache_hits.fetch_add(1, Relaxed);
            return r.clone();
        }
        let mut parts: Vec<ExprRef> = slice.to_vec();
        parts.push(cond.clone());
        let r = self.solve(&parts, doms, vars);
        self.sh.cache[shard].lock().unwrap().insert(key, r.clone());
        r
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        self.close();
    }
}

/// the same expression over variable 0
fn rename(e: &ExprRef) -> ExprRef {
    fn go(e: &ExprRef, memo: &mut FastMap<u128, ExprRef>) -> ExprRef {
        if e.vars.is_empty() {
            return e.clone();
        }
        if let Some(r) = memo.get(&e.hash) {
            return r.clone();
        }
        let r = match &e.kind {
            Kind::Var(_) => var(0, e.w),
            Kind::Bin(op, a, b) => bin(*op, &go(a, memo), &go(b, memo)),
            Kind::Ite(a, b, c) => ite(&go(a, memo), &go(b, memo), &go(c, memo)),
            Kind::Concat(a, b) => concat(&go(a, memo), &go(b, memo)),
            Kind::Extract(a, lo) => extract(&go(a, memo), *lo, e.w),
            Kind::ZExt(a) => zext(&go(a, memo), e.w),
            Kind::SExt(a) => sext(&go(a, memo), e.w),
            Kind::Tab(a, k, v) => tab(&go(a, memo), k.clone(), v.to_vec(), e.w),
            _ => e.clone(),
        };
        memo.insert(e.hash, r.clone());
        r
    }
    go(e, &mut FastMap::default())
}
