//! Bit-vector expressions: construction with simplification, evaluation.
//! Widths 1..=128.  A boolean is a bit-vector of width 1.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Arc;

pub type ExprRef = Arc<Expr>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    // comparisons: width-1 result
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Debug)]
pub enum Kind {
    Const(u128),
    /// symbolic input, by creation order on the path
    Var(u16),
    /// uninitialised memory / undef; the number makes distinct occurrences distinct
    Uninit(u64),
    Bin(Op, ExprRef, ExprRef),
    Ite(ExprRef, ExprRef, ExprRef),
    Concat(ExprRef, ExprRef), // hi, lo
    Extract(ExprRef, u8),     // lo bit
    ZExt(ExprRef),
    SExt(ExprRef),
    /// table lookup: value of vals[i] where idx == keys[i] (sorted keys); 0 if absent
    Tab(ExprRef, Arc<Vec<u64>>, Arc<Vec<u64>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct VarSet(pub [u64; 4]);
pub const UNINIT_BIT: usize = 255;
impl VarSet {
    pub const EMPTY: VarSet = VarSet([0; 4]);
    pub fn single(i: usize) -> VarSet {
        let mut s = VarSet([0; 4]);
        s.0[i >> 6] |= 1 << (i & 63);
        s
    }
    #[inline]
    pub fn union(&self, o: &VarSet) -> VarSet {
        VarSet([
            self.0[0] | o.0[0],
            self.0[1] | o.0[1],
            self.0[2] | o.0[2],
            self.0[3] | o.0[3],
        ])
    }
    #[inline]
    pub fn intersects(&self, o: &VarSet) -> bool {
        (self.0[0] & o.0[0]) | (self.0[1] & o.0[1]) | (self.0[2] & o.0[2]) | (self.0[3] & o.0[3])
            != 0
    }
    pub fn contains(&self, i: usize) -> bool {
        self.0[i >> 6] >> (i & 63) & 1 == 1
    }
    pub fn is_empty(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn count(&self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..256).filter(move |i| self.contains(*i))
    }
    pub fn first(&self) -> usize {
        for k in 0..4 {
            if self.0[k] != 0 {
                return k * 64 + self.0[k].trailing_zeros() as usize;
            }
        }
        999
    }
    pub fn has_uninit(&self) -> bool {
        self.contains(UNINIT_BIT)
    }
}

pub struct Expr {
    pub kind: Kind,
    pub w: u8,
    pub size: u32, // saturating tree size
    pub vars: VarSet,
    pub hash: u128,
    pub lo: u64, // unsigned interval (w <= 64)
    pub hi: u64,
}

impl std::fmt::Debug for Expr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.size > 60 {
            return write!(f, "<expr w{} size {}>", self.w, self.size);
        }
        match &self.kind {
            Kind::Const(c) => write!(f, "{}:{}", c, self.w),
            Kind::Var(i) => write!(f, "v{}:{}", i, self.w),
            Kind::Uninit(i) => write!(f, "UNINIT{}:{}", i, self.w),
            Kind::Bin(o, a, b) => write!(f, "({:?} {:?} {:?})", o, a, b),
            Kind::Ite(c, a, b) => write!(f, "(ite {:?} {:?} {:?})", c, a, b),
            Kind::Concat(a, b) => write!(f, "(cat {:?} {:?})", a, b),
            Kind::Extract(a, lo) => write!(f, "({:?}[{}+:{}])", a, lo, self.w),
            Kind::ZExt(a) => write!(f, "(zx{} {:?})", self.w, a),
            Kind::SExt(a) => write!(f, "(sx{} {:?})", self.w, a),
            Kind::Tab(a, k, _) => write!(f, "(tab#{} {:?})", k.len(), a),
        }
    }
}

// Dropping deep expression chains must not overflow the native stack.
impl Drop for Expr {
    fn drop(&mut self) {
        if self.size < 4000 {
            return;
        }
        let mut stack: Vec<ExprRef> = vec![];
        let dummy = dummy();
        take_children(&mut self.kind, &mut stack, &dummy);
        while let Some(e) = stack.pop() {
            if let Ok(mut inner) = Arc::try_unwrap(e) {
                take_children(&mut inner.kind, &mut stack, &dummy);
                inner.size = 0;
            }
        }
    }
}
fn dummy() -> ExprRef {
    thread_local!(static D: ExprRef = Arc::new(Expr{kind: Kind::Const(0), w:1, size:1, vars: VarSet::EMPTY, hash:0, lo:0, hi:0}));
    D.try_with(|d| d.clone()).unwrap_or_else(|_| {
        Arc::new(Expr {
            kind: Kind::Const(0),
            w: 1,
            size: 1,
            vars: VarSet::EMPTY,
            hash: 0,
            lo: 0,
            hi: 0,
        })
    })
}
fn take_children(k: &mut Kind, out: &mut Vec<ExprRef>, d: &ExprRef) {
    let mut t = |e: &mut ExprRef| out.push(std::mem::replace(e, d.clone()));
    match k {
        Kind::Bin(_, a, b) | Kind::Concat(a, b) => {
            t(a);
            t(b)
        }
        Kind::Ite(c, a, b) => {
            t(c);
            t(a);
            t(b)
        }
        Kind::Extract(a, _) | Kind::ZExt(a) | Kind::SExt(a) | Kind::Tab(a, _, _) => t(a),
        _ => {}
    }
}

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn mask64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sext128(v: u128, w: u8) -> i128 {
    let sh = 128 - w as u32;
    ((v << sh) as i128) >> sh
}

fn mix(h: u128, x: u128) -> u128 {
    let a = (h ^ x.rotate_left(29)).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    let a = a ^ (a >> 61);
    let a = a.wrapping_mul(0xC2B2AE3D27D4EB4F165667B19E3779F9);
    a ^ (a >> 67)
}

fn mk(kind: Kind, w: u8) -> ExprRef {
    let mut h: u128 = 0x1234567 + w as u128;
    let mut vars = VarSet::EMPTY;
    let mut size: u32 = 1;
    let (mut lo, mut hi) = (0u64, mask64(w));
    macro_rules! ch {
        ($e:expr) => {{
            h = mix(h, $e.hash);
            vars = vars.union(&$e.vars);
            size = size.saturating_add($e.size);
        }};
    }
    match &kind {
        Kind::Const(c) => {
            h = mix(mix(h, 1), *c);
            if w <= 64 {
                lo = *c as u64;
                hi = lo;
            }
        }
        Kind::Var(i) => {
            h = mix(mix(h, 2), *i as u128);
            assert!((*i as usize) < UNINIT_BIT, "too many symbolic variables");
            vars = VarSet::single(*i as usize);
        }
        Kind::Uninit(i) => {
            h = mix(mix(h, 3), *i as u128);
            vars = VarSet::single(UNINIT_BIT);
        }
        Kind::Bin(op, a, b) => {
            h = mix(mix(h, 4), *op as u128);
            ch!(a);
            ch!(b);
            if w <= 64 && a.w <= 64 {
                let m = mask64(w);
                match op {
                    Op::Add => {
                        if let (Some(l), Some(u)) = (a.lo.checked_add(b.lo), a.hi.checked_add(b.hi))
                        {
                            if u <= m {
                                lo = l;
                                hi = u;
                            } else if l > m && (l & !m) == (u & !m) {
                                lo = l & m;
                                hi = u & m;
                            }
                        }
                    }
                    Op::Sub => {
                        if a.lo >= b.hi {
                            lo = a.lo - b.hi;
                            hi = a.hi - b.lo;
                        }
                    }
                    Op::Mul => {
                        if let (Some(l), Some(u)) = (a.lo.checked_mul(b.lo), a.hi.checked_mul(b.hi))
                        {
                            if u <= m {
                                lo = l;
                                hi = u;
                            }
                        }
                    }
                    Op::UDiv => {
                        if b.lo > 0 {
                            lo = a.lo / b.hi;
                            hi = a.hi / b.lo;
                        }
                    }
                    Op::URem => {
                        if b.lo > 0 {
                            hi = (b.hi - 1).min(a.hi);
                        }
                    }
                    Op::And => {
                        hi = a.hi.min(b.hi);
                    }
                    Op::Or => {
                        lo = a.lo.max(b.lo);
                        let bits = 64 - (a.hi | b.hi).leading_zeros();
                        hi = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
                        hi &= m;
                    }
                    Op::Xor => {
                        let bits = 64 - (a.hi | b.hi).leading_zeros();
                        hi = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
                        hi &= m;
                    }
                    Op::Shl => {
                        if b.lo == b.hi && b.lo < w as u64 {
                            let s = b.lo as u32;
                            if a.hi.leading_zeros() >= s + (64 - w as u32) {
                                lo = a.lo << s;
                                hi = a.hi << s;
                            }
                        }
                    }
                    Op::LShr => {
                        if b.lo == b.hi && b.lo < 64 {
                            lo = a.lo >> b.lo;
                            hi = a.hi >> b.lo;
                        } else {
                            hi = a.hi;
                        }
                    }
                    _ => {}
                }
            }
        }
        Kind::Ite(c, a, b) => {
            h = mix(h, 5);
            ch!(c);
            ch!(a);
            ch!(b);
            if w <= 64 {
                lo = a.lo.min(b.lo);
                hi = a.hi.max(b.hi);
            }
        }
        Kind::Concat(a, b) => {
            h = mix(h, 6);
            ch!(a);
            ch!(b);
            if w <= 64 {
                lo = (a.lo << b.w) | b.lo;
                hi = (a.hi << b.w) | b.hi;
            }
        }
        Kind::Extract(a, l) => {
            h = mix(mix(h, 7), *l as u128);
            ch!(a);
            if a.w <= 64 && w <= 64 {
                let l2 = a.lo >> l;
                let h2 = a.hi >> l;
                if h2 <= mask64(w) {
                    lo = l2;
                    hi = h2;
                }
            }
        }
        Kind::ZExt(a) => {
            h = mix(h, 8);
            ch!(a);
            if w <= 64 || a.w <= 64 {
                lo = a.lo;
                hi = a.hi;
            }
        }
        Kind::SExt(a) => {
            h = mix(h, 9);
            ch!(a);
            if w <= 64 && a.hi < (1u64 << (a.w - 1)) {
                lo = a.lo;
                hi = a.hi;
            }
        }
        Kind::Tab(a, k, v) => {
            h = mix(h, 10);
            ch!(a);
            let mut mn = 0;
            let mut mx = 0;
            for (i, x) in v.iter().enumerate() {
                h = mix(h, ((k[i] as u128) << 64) | *x as u128);
                if i == 0 {
                    mn = *x;
                    mx = *x;
                }
                mn = mn.min(*x);
                mx = mx.max(*x);
            }
            // an address outside the keys is infeasible on the path, so the bounds are those of the values
            lo = mn;
            hi = mx;
            size = size.saturating_add(4);
        }
    }
    if w > 64 {
        lo = 0;
        hi = u64::MAX;
    }
    Arc::new(Expr {
        kind,
        w,
        size,
        vars,
        hash: h,
        lo,
        hi,
    })
}

pub fn konst(v: u128, w: u8) -> ExprRef {
    mk(Kind::Const(v & mask(w)), w)
}
pub fn var(i: u16, w: u8) -> ExprRef {
    mk(Kind::Var(i), w)
}
pub fn uninit(serial: u64, w: u8) -> ExprRef {
    mk(Kind::Uninit(serial), w)
}
impl Expr {
    #[inline]
    pub fn as_const(&self) -> Option<u128> {
        match self.kind {
            Kind::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn single_var(&self) -> Option<usize> {
        if self.vars.count() == 1 {
            let v = self.vars.first();
            if v == UNINIT_BIT {
                None
            } else {
                Some(v)
            }
        } else {
            None
        }
    }
}

pub fn eval_bin(op: Op, a: u128, b: u128, w: u8) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext128(a, w);
            let s = b.min(w as u128 - 1);
            (x >> s) as u128
        }
        Op::Eq => return (a == b) as u128,
        Op::Ult => return (a < b) as u128,
        Op::Ule => return (a <= b) as u128,
        Op::Slt => return (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => return (sext128(a, w) <= sext128(b, w)) as u128,
    };
    r & m
}

pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

pub fn not(a: &ExprRef) -> ExprRef {
    debug_assert!(a.w == 1);
    bin(Op::Xor, a, &konst(1, 1))
}
pub fn tru() -> ExprRef {
    konst(1, 1)
}

/// operands of `op` have equal width
pub fn bin(op: Op, a: &ExprRef, b: &ExprRef) -> ExprRef {
    assert!(a.w == b.w, "width mismatch {:?} {} {}", op, a.w, b.w);
    let w = a.w;
    let rw = if is_cmp(op) { 1 } else { w };
    let (ca, cb) = (a.as_const(), b.as_const());
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(eval_bin(op, x, y, w), rw);
    }
    // constants to the right for commutative operators
    if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        return bin(op, b, a);
    }
    let same = a.hash == b.hash;
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a.clone();
            }
            if ca == Some(0) {
                return b.clone();
            }
            if let (Some(y), Kind::Bin(Op::Add, p, q)) = (cb, &a.kind) {
                if let Some(x) = q.as_const() {
                    return bin(Op::Add, p, &konst(x.wrapping_add(y), w));
                }
            }
            if w == 1 {
                return bin(Op::Xor, a, b);
            }
        }
        Op::Sub => {
            if cb == Some(0) {
                return a.clone();
            }
            if same {
                return konst(0, w);
            }
            if let Some(y) = cb {
                return bin(Op::Add, a, &konst((0u128).wrapping_sub(y), w));
            }
            // (base + x) - base
            if let Kind::Bin(Op::Add, p, q) = &a.kind {
                if q.hash == b.hash {
                    return p.clone();
                }
                if p.hash == b.hash {
                    return q.clone();
                }
            }
            if w == 1 {
                return bin(Op::Xor, a, b);
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return konst(0, w);
            }
            if cb == Some(1) {
                return a.clone();
            }
        }
        Op::UDiv => {
            if cb == Some(1) {
                return a.clone();
            }
        }
        Op::URem => {
            if cb == Some(1) {
                return konst(0, w);
            }
            if w <= 64 && b.lo > 0 && a.hi < b.lo {
                return a.clone();
            }
        }
        Op::And => {
            if cb == Some(0) {
                return konst(0, w);
            }
            if cb == Some(mask(w)) || same {
                return a.clone();
            }
            if let Some(m) = cb {
                // mask of low bits that covers the interval
                if w <= 64 && (m & (m + 1)) == 0 && a.hi as u128 <= m {
                    return a.clone();
                }
                if w <= 64 && m != 0 {
                    // all bits of mask above the value's range
                    let bits = 64 - a.hi.leading_zeros();
                    if bits < 64 && m as u64 & ((1u64 << bits) - 1) == 0 {
                        return konst(0, w);
                    }
                }
                if (m & (m + 1)) == 0 {
                    // low mask -> zext(extract)
                    let k = (128 - m.leading_zeros()) as u8;
                    if k < w {
                        return zext(&extract(a, 0, k), w);
                    }
                }
                if let Kind::Bin(Op::And, p, q) = &a.kind {
                    if let Some(x) = q.as_const() {
                        return bin(Op::And, p, &konst(x & m, w));
                    }
                }
            }
        }
        Op::Or => {
            if cb == Some(0) {
                return a.clone();
            }
            if ca == Some(0) {
                return b.clone();
            }
            if cb == Some(mask(w)) {
                return konst(mask(w), w);
            }
            if same {
                return a.clone();
            }
            if w == 1 {
                // a | !a
                if let Kind::Bin(Op::Xor, p, q) = &b.kind {
                    if q.as_const() == Some(1) && p.hash == a.hash {
                        return konst(1, 1);
                    }
                }
                if let Kind::Bin(Op::Xor, p, q) = &a.kind {
                    if q.as_const() == Some(1) && p.hash == b.hash {
                        return konst(1, 1);
                    }
                }
            }
            // zext(lo) | (zext(hi) << k) -> concat
            if let Some(e) = or_concat(a, b).or_else(|| or_concat(b, a)) {
                return e;
            }
        }
        Op::Xor => {
            if cb == Some(0) {
                return a.clone();
            }
            if same {
                return konst(0, w);
            }
            if let (Some(y), Kind::Bin(Op::Xor, p, q)) = (cb, &a.kind) {
                if let Some(x) = q.as_const() {
                    return bin(Op::Xor, p, &konst(x ^ y, w));
                }
            }
            if w == 1 && cb == Some(1) {
                // negated comparisons stay comparisons
                if let Kind::Bin(o, p, q) = &a.kind {
                    match o {
                        Op::Ult => return bin(Op::Ule, q, p),
                        Op::Ule => return bin(Op::Ult, q, p),
                        Op::Slt => return bin(Op::Sle, q, p),
                        Op::Sle => return bin(Op::Slt, q, p),
                        _ => {}
                    }
                }
            }
        }
        Op::Shl => {
            if cb == Some(0) {
                return a.clone();
            }
            if let Some(s) = cb {
                if s >= w as u128 {
                    return konst(0, w);
                }
            }
        }
        Op::LShr => {
            if cb == Some(0) {
                return a.clone();
            }
            if let Some(s) = cb {
                if s >= w as u128 {
                    return konst(0, w);
                }
                let s = s as u8;
                return zext(&extract(a, s, w - s), w);
            }
        }
        Op::AShr => {
            if cb == Some(0) {
                return a.clone();
            }
            if w <= 64 && a.hi < (1u64 << (w - 1)) {
                return bin(Op::LShr, a, b);
            }
        }
        Op::Eq => {
            if same {
                return tru();
            }
            if w <= 64 && (a.hi < b.lo || b.hi < a.lo) {
                return konst(0, 1);
            }
            if w == 1 {
                if cb == Some(1) {
                    return a.clone();
                }
                if cb == Some(0) {
                    return not(a);
                }
            }
            if let Some(c) = cb {
                match &a.kind {
                    Kind::ZExt(p) => {
                        return if c > mask(p.w) {
                            konst(0, 1)
                        } else {
                            bin(Op::Eq, p, &konst(c, p.w))
                        };
                    }
                    Kind::SExt(p) => {
                        let low = c & mask(p.w);
                        return if (sext128(low, p.w) as u128) & mask(w) != c {
                            konst(0, 1)
                        } else {
                            bin(Op::Eq, p, &konst(low, p.w))
                        };
                    }
                    Kind::Bin(Op::Add, p, q) => {
                        if let Some(k) = q.as_const() {
                            return bin(Op::Eq, p, &konst(c.wrapping_sub(k), w));
                        }
                    }
                    Kind::Bin(Op::Xor, p, q) => {
                        if let Some(k) = q.as_const() {
                            return bin(Op::Eq, p, &konst(c ^ k, w));
                        }
                    }
                    Kind::Concat(p, q) => {
                        return and(
                            &bin(Op::Eq, p, &konst(c >> q.w, p.w)),
                            &bin(Op::Eq, q, &konst(c, q.w)),
                        );
                    }
                    Kind::Ite(k, p, q) => {
                        let (pc, qc) = (p.as_const(), q.as_const());
                        if let (Some(x), Some(y)) = (pc, qc) {
                            return match (x == c, y == c) {
                                (true, true) => tru(),
                                (true, false) => k.clone(),
                                (false, true) => not(k),
                                (false, false) => konst(0, 1),
                            };
                        }
                        if pc.is_some() || qc.is_some() {
                            let x = bin(Op::Eq, p, b);
                            let y = bin(Op::Eq, q, b);
                            return ite(k, &x, &y);
                        }
                    }
                    _ => {}
                }
            }
            if let (Kind::ZExt(p), Kind::ZExt(q)) = (&a.kind, &b.kind) {
                if p.w == q.w {
                    return bin(Op::Eq, p, q);
                }
            }
            if let (Kind::Concat(p, q), Kind::Concat(r, s)) = (&a.kind, &b.kind) {
                if q.w == s.w {
                    return and(&bin(Op::Eq, p, r), &bin(Op::Eq, q, s));
                }
            }
        }
        Op::Ult => {
            if same {
                return konst(0, 1);
            }
            if w <= 64 {
                if a.hi < b.lo {
                    return tru();
                }
                if a.lo >= b.hi {
                    return konst(0, 1);
                }
            }
            if cb == Some(1) {
                return bin(Op::Eq, a, &konst(0, w));
            }
            if w == 1 {
                return and(&not(a), b);
            }
            if let Some(e) = narrow_cmp(op, a, b) {
                return e;
            }
        }
        Op::Ule => {
            if same {
                return tru();
            }
            if w <= 64 {
                if a.hi <= b.lo {
                    return tru();
                }
                if a.lo > b.hi {
                    return konst(0, 1);
                }
            }
            if w == 1 {
                return or(&not(a), b);
            }
            if let Some(e) = narrow_cmp(op, a, b) {
                return e;
            }
        }
        Op::Slt | Op::Sle => {
            if same {
                return konst((op == Op::Sle) as u128, 1);
            }
            if w <= 64 {
                let half = 1u64 << (w - 1);
                let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                if a.hi < half && b.hi < half {
                    return bin(u, a, b);
                }
                if a.lo >= half && b.lo >= half {
                    return bin(u, a, b);
                }
                if a.hi < half && b.lo >= half {
                    return konst(0, 1);
                }
                if a.lo >= half && b.hi < half {
                    return tru();
                }
            }
        }
        _ => {}
    }
    mk(Kind::Bin(op, a.clone(), b.clone()), rw)
}

fn narrow_cmp(op: Op, a: &ExprRef, b: &ExprRef) -> Option<ExprRef> {
    match (&a.kind, &b.kind) {
        (Kind::ZExt(p), Kind::ZExt(q)) if p.w == q.w => Some(bin(op, p, q)),
        (Kind::ZExt(p), Kind::Const(c)) if *c <= mask(p.w) => {
            Some(bin(op, p, &konst(*c, p.w)))
        }
        (Kind::Const(c), Kind::ZExt(q)) if *c <= mask(q.w) => {
            Some(bin(op, &konst(*c, q.w), q))
        }
        _ => None,
    }
}

fn or_concat(lo: &ExprRef, hi: &ExprRef) -> Option<ExprRef> {
    let w = lo.w;
    if let (Kind::ZExt(l), Kind::Bin(Op::Shl, h, s)) = (&lo.kind, &hi.kind) {
        let s = s.as_const()? as u8;
        if l.w <= s {
            if s >= w {
                return None;
            }
            let l2 = zext(l, s);
            let h2 = extract(h, 0, w - s);
            return Some(concat(&h2, &l2));
        }
    }
    None
}

pub fn and(a: &ExprRef, b: &ExprRef) -> ExprRef {
    if a.w == 1 {
        if a.as_const() == Some(1) {
            return b.clone();
        }
        if b.as_const() == Some(1) {
            return a.clone();
        }
        if a.as_const() == Some(0) || b.as_const() == Some(0) {
            return konst(0, 1);
        }
    }
    bin(Op::And, a, b)
}
pub fn or(a: &ExprRef, b: &ExprRef) -> ExprRef {
    if a.w == 1 {
        if a.as_const() == Some(0) {
            return b.clone();
        }
        if b.as_const() == Some(0) {
            return a.clone();
        }
        if a.as_const() == Some(1) || b.as_const() == Some(1) {
            return konst(1, 1);
        }
    }
    bin(Op::Or, a, b)
}
pub fn eq(a: &ExprRef, b: &ExprRef) -> ExprRef {
    bin(Op::Eq, a, b)
}

pub fn ite(c: &ExprRef, a: &ExprRef, b: &ExprRef) -> ExprRef {
    assert!(a.w == b.w && c.w == 1);
    if let Some(k) = c.as_const() {
        return if k == 1 { a.clone() } else { b.clone() };
    }
    if a.hash == b.hash {
        return a.clone();
    }
    if a.w == 1 {
        match (a.as_const(), b.as_const()) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(&not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(&not(c), a),
            _ => {}
        }
    }
    if let Kind::Bin(Op::Xor, p, q) = &c.kind {
        if q.as_const() == Some(1) {
            return ite(p, b, a);
        }
    }
    if let Kind::Ite(c2, x, _y) = &a.kind {
        if c2.hash == c.hash {
            return ite(c, x, b);
        }
    }
    if let Kind::Ite(c2, _x, y) = &b.kind {
        if c2.hash == c.hash {
            return ite(c, a, y);
        }
    }
    if let (Kind::ZExt(x), Kind::ZExt(y)) = (&a.kind, &b.kind) {
        if x.w == y.w {
            return zext(&ite(c, x, y), a.w);
        }
    }
    if let (Kind::ZExt(x), Kind::Const(y)) = (&a.kind, &b.kind) {
        if *y <= mask(x.w) {
            return zext(&ite(c, x, &konst(*y, x.w)), a.w);
        }
    }
    if let (Kind::Const(y), Kind::ZExt(x)) = (&a.kind, &b.kind) {
        if *y <= mask(x.w) {
            return zext(&ite(c, &konst(*y, x.w), x), a.w);
        }
    }
    if let Some((e, but)) = remainder(c, a, b) {
        if but.as_const() == Some(0) {
            return e;
        }
    }
    mk(Kind::Ite(c.clone(), a.clone(), b.clone()), a.w)
}
/// `if x < k { x } else { x - k }` and `if x == 0 { 0 } else { k - x }` as remainders, and
/// when they are not.
pub fn remainder(c: &ExprRef, a: &ExprRef, b: &ExprRef) -> Option<(ExprRef, ExprRef)> {
    if let Kind::Bin(Op::Xor, p, q) = &c.kind {
        if q.as_const() == Some(1) {
            return remainder(p, b, a);
        }
    }
    let Kind::Bin(op, p, q) = &c.kind else { return None };
    if a.w > 64 || p.w != a.w {
        return None;
    }
    let (pc, qc) = (p.as_const(), q.as_const());
    if *op == Op::Eq {
        let Kind::Bin(Op::Sub, k, x) = &b.kind else { return None };
        if qc == Some(0) && a.as_const() == Some(0) && x.hash == p.hash && k.as_const()? > 0 {
            return Some((bin(Op::URem, b, k), bin(Op::Ult, k, x)));
        }
        return None;
    }
    // x < k, and what it is then and otherwise
    let (x, k, yes, no) = match (op, pc, qc) {
        (Op::Ult, None, Some(k)) => (p, k, a, b),
        (Op::Ule, None, Some(k)) => (p, k + 1, a, b),
        (Op::Ule, Some(k), None) => (q, k, b, a),
        (Op::Ult, Some(k), None) => (q, k + 1, b, a),
        _ => return None,
    };
    let Kind::Bin(Op::Add, y, m) = &no.kind else { return None };
    if yes.hash == x.hash
        && y.hash == x.hash
        && m.as_const() == Some((0u128).wrapping_sub(k) & mask(x.w))
        && k > 0
        && k <= mask(x.w)
    {
        let but = if 2 * k > mask(x.w) {
            konst(0, 1)
        } else {
            bin(Op::Ule, &konst(2 * k, x.w), x)
        };
        return Some((bin(Op::URem, x, &konst(k, x.w)), but));
    }
    None
}

pub fn concat(hi: &ExprRef, lo: &ExprRef) -> ExprRef {
    let w = hi.w + lo.w;
    if let (Some(x), Some(y)) = (hi.as_const(), lo.as_const()) {
        return konst((x << lo.w) | y, w);
    }
    if hi.as_const() == Some(0) {
        return zext(lo, w);
    }
    if let (Kind::Extract(a, la), Kind::Extract(b, lb)) = (&hi.kind, &lo.kind) {
        if a.hash == b.hash && *la == lb + lo.w {
            return extract(a, *lb, w);
        }
    }
    // concat(hi, concat(p,q)) where hi and p are adjacent extracts
    if let (Kind::Extract(a, la), Kind::Concat(p, q)) = (&hi.kind, &lo.kind) {
        if let Kind::Extract(b, lb) = &p.kind {
            if a.hash == b.hash && *la == lb + p.w {
                return concat(&extract(a, *lb, hi.w + p.w), q);
            }
        }
    }
    if let (Some(x), Kind::Concat(p, q)) = (hi.as_const(), &lo.kind) {
        if let Some(y) = p.as_const() {
            return concat(&konst((x << p.w) | y, hi.w + p.w), q);
        }
    }
    if let Kind::ZExt(h) = &hi.kind {
        return zext(&concat(h, lo), w);
    }
    mk(Kind::Concat(hi.clone(), lo.clone()), w)
}

pub fn extract(a: &ExprRef, lo: u8, w: u8) -> ExprRef {
    if lo == 0 && w == a.w {
        return a.clone();
    }
    assert!(lo + w <= a.w, "extract {}+{} of {}", lo, w, a.w);
    match &a.kind {
        Kind::Const(c) => return konst(c >> lo, w),
        Kind::Uninit(s) => return uninit(s.wrapping_mul(131).wrapping_add(lo as u64 + 1), w),
        Kind::Extract(b, l2) => return extract(b, l2 + lo, w),
        Kind::Concat(h, l) => {
            if lo >= l.w {
                return extract(h, lo - l.w, w);
            }
            if lo + w <= l.w {
                return extract(l, lo, w);
            }
            let low = extract(l, lo, l.w - lo);
            let high = extract(h, 0, w - low.w);
            return concat(&high, &low);
        }
        Kind::ZExt(b) => {
            if lo >= b.w {
                return konst(0, w);
            }
            if lo + w <= b.w {
                return extract(b, lo, w);
            }
            return zext(&extract(b, lo, b.w - lo), w);
        }
        Kind::SExt(b) => {
            if lo + w <= b.w {
                return extract(b, lo, w);
            }
            if lo < b.w {
                return sext(&extract(b, lo, b.w - lo), w);
            }
        }
        Kind::Ite(c, x, y) => {
            if x.as_const().is_some() || y.as_const().is_some() || lo == 0 {
                return ite(c, &extract(x, lo, w), &extract(y, lo, w));
            }
        }
        Kind::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
            return bin(*op, &extract(x, lo, w), &extract(y, lo, w));
        }
        Kind::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
            return bin(*op, &extract(x, 0, w), &extract(y, 0, w));
        }
        Kind::Bin(Op::Shl, x, s) => {
            if let Some(s) = s.as_const() {
                let s = s as u8;
                if lo >= s {
                    return extract(x, lo - s, w);
                }
                if lo + w <= s {
                    return konst(0, w);
                }
            }
        }
        Kind::Tab(i, k, v) => {
            let nv: Vec<u64> = v.iter().map(|x| (x >> lo) & mask64(w)).collect();
            return tab(i, k.clone(), nv, w);
        }
        _ => {}
    }
    if a.w <= 64 && lo as u32 + a.hi.leading_zeros() >= 64 {
        // all selected bits above the interval
        if lo >= 64 || (a.hi >> lo) == 0 {
            return konst(0, w);
        }
    }
    mk(Kind::Extract(a.clone(), lo), w)
}

pub fn tab(idx: &ExprRef, keys: Arc<Vec<u64>>, vals: Vec<u64>, w: u8) -> ExprRef {
    if vals.iter().all(|x| *x == vals[0]) {
        return konst(vals[0] as u128, w);
    }
    if let Some(c) = idx.as_const() {
        if let Ok(i) = keys.binary_search(&(c as u64)) {
            return konst(vals[i] as u128, w);
        }
    }
    // a function of one byte: index by that byte itself
    if !matches!(idx.kind, Kind::Var(_)) && idx.w <= 64 {
        if let Some(v) = idx.single_var().and_then(|_| byte_var(idx)) {
            let t = vec_eval(idx, &mut FastMap::default());
            let (mut k2, mut v2) = (vec![], vec![]);
            for x in 0..256usize {
                if let Ok(i) = keys.binary_search(&(t[x] as u64)) {
                    k2.push(x as u64);
                    v2.push(vals[i]);
                }
            }
            if !k2.is_empty() {
                return tab(&v, Arc::new(k2), v2, w);
            }
        }
    }
    mk(Kind::Tab(idx.clone(), keys, Arc::new(vals)), w)
}

/// The variable of a single-variable expression, if it has 8 bits.
pub fn byte_var(e: &ExprRef) -> Option<ExprRef> {
    if e.vars.is_empty() {
        return None;
    }
    match &e.kind {
        Kind::Var(_) => (e.w == 8).then(|| e.clone()),
        Kind::Bin(_, a, b) | Kind::Concat(a, b) => byte_var(if a.vars.is_empty() { b } else { a }),
        Kind::Ite(c, a, b) => byte_var(if !c.vars.is_empty() {
            c
        } else if !a.vars.is_empty() {
            a
        } else {
            b
        }),
        Kind::Extract(a, _) | Kind::ZExt(a) | Kind::SExt(a) | Kind::Tab(a, _, _) => byte_var(a),
        _ => None,
    }
}

pub fn all_bytes() -> Arc<Vec<u64>> {
    static K: std::sync::OnceLock<Arc<Vec<u64>>> = std::sync::OnceLock::new();
    K.get_or_init(|| Arc::new((0..256).collect())).clone()
}

/// The expression with zero for uninitialised memory.
pub fn no_uninit(e: &ExprRef, memo: &mut std::collections::HashMap<u128, ExprRef>) -> ExprRef {
    if !e.vars.has_uninit() {
        return e.clone();
    }
    if let Some(r) = memo.get(&e.hash) {
        return r.clone();
    }
    let mut f = |x: &ExprRef| no_uninit(x, memo);
    let r = match &e.kind {
        Kind::Const(_) | Kind::Var(_) => e.clone(),
        Kind::Uninit(_) => konst(0, e.w),
        Kind::Bin(op, a, b) => bin(*op, &f(a), &f(b)),
        Kind::Ite(c, a, b) => ite(&f(c), &f(a), &f(b)),
        Kind::Concat(a, b) => concat(&f(a), &f(b)),
        Kind::Extract(a, lo) => extract(&f(a), *lo, e.w),
        Kind::ZExt(a) => zext(&f(a), e.w),
        Kind::SExt(a) => sext(&f(a), e.w),
        Kind::Tab(i, k, v) => tab(&f(i), k.clone(), v.to_vec(), e.w),
    };
    memo.insert(e.hash, r.clone());
    r
}
pub fn zext(a: &ExprRef, w: u8) -> ExprRef {
    if a.w == w {
        return a.clone();
    }
    assert!(w > a.w);
    match &a.kind {
        Kind::Const(c) => return konst(*c, w),
        Kind::ZExt(b) => return zext(b, w),
        Kind::Tab(i, k, v) if w <= 64 => return tab(i, k.clone(), v.to_vec(), w),
        _ => {}
    }
    mk(Kind::ZExt(a.clone()), w)
}
pub fn sext(a: &ExprRef, w: u8) -> ExprRef {
    if a.w == w {
        return a.clone();
    }
    assert!(w > a.w);
    match &a.kind {
        Kind::Const(c) => return konst(sext128(*c, a.w) as u128, w),
        Kind::ZExt(b) => return zext(b, w),
        Kind::SExt(b) => return sext(b, w),
        _ => {}
    }
    if a.w <= 64 && a.hi < (1u64 << (a.w - 1)) {
        return zext(a, w);
    }
    mk(Kind::SExt(a.clone()), w)
}

// ---------- evaluation ----------

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u128(&mut self, x: u128) {
        self.0 ^= (x as u64) ^ ((x >> 64) as u64).rotate_left(17);
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FastMap<K, V> = HashMap<K, V, BuildHasherDefault<IdHasher>>;

fn eval_node(e: &Expr, g: &mut dyn FnMut(&ExprRef) -> u128, model: &[u64]) -> u128 {
    match &e.kind {
        Kind::Const(c) => *c,
        Kind::Var(i) => (model.get(*i as usize).copied().unwrap_or(0) as u128) & mask(e.w),
        Kind::Uninit(_) => 0,
        Kind::Bin(op, a, b) => {
            let x = g(a);
            let y = g(b);
            eval_bin(*op, x, y, a.w)
        }
        Kind::Ite(c, a, b) => {
            if g(c) == 1 {
                g(a)
            } else {
                g(b)
            }
        }
        Kind::Concat(a, b) => (g(a) << b.w) | g(b),
        Kind::Extract(a, lo) => (g(a) >> lo) & mask(e.w),
        Kind::ZExt(a) => g(a),
        Kind::SExt(a) => (sext128(g(a), a.w) as u128) & mask(e.w),
        Kind::Tab(a, k, v) => {
            let i = g(a) as u64;
            match k.binary_search(&i) {
                Ok(p) => v[p] as u128,
                Err(_) => 0,
            }
        }
    }
}

fn eval_small(e: &ExprRef, model: &[u64]) -> u128 {
    eval_node(e, &mut |x| eval_small(x, model), model)
}

pub struct EvalCache {
    map: FastMap<(u128, u64), u128>,
}
impl EvalCache {
    pub fn new() -> Self {
        EvalCache {
            map: FastMap::default(),
        }
    }
    /// `mid` identifies the model (changes whenever the model does)
    pub fn eval(&mut self, e: &ExprRef, model: &[u64], mid: u64) -> u128 {
        if e.size <= 48 {
            return eval_small(e, model);
        }
        if self.map.len() > 2_000_000 {
            self.map.clear();
        }
        self.rec(e, model, mid)
    }
    fn rec(&mut self, e: &ExprRef, model: &[u64], mid: u64) -> u128 {
        if e.size <= 16 {
            return eval_small(e, model);
        }
        if let Some(v) = self.map.get(&(e.hash, mid)) {
            return *v;
        }
        let v = eval_node(e, &mut |x| self.rec(x, model, mid), model);
        self.map.insert((e.hash, mid), v);
        v
    }
}

/// A set of byte values.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Dom(pub [u64; 4]);
impl Dom {
    pub const FULL: Dom = Dom([u64::MAX; 4]);
    pub const NONE: Dom = Dom([0; 4]);
    pub fn has(&self, v: u64) -> bool {
        v < 256 && self.0[(v >> 6) as usize] >> (v & 63) & 1 == 1
    }
    pub fn set(&mut self, v: u64) {
        self.0[(v >> 6) as usize] |= 1 << (v & 63)
    }
    pub fn and(&self, o: &Dom) -> Dom {
        Dom([
            self.0[0] & o.0[0],
            self.0[1] & o.0[1],
            self.0[2] & o.0[2],
            self.0[3] & o.0[3],
        ])
    }
    pub fn not(&self) -> Dom {
        Dom([!self.0[0], !self.0[1], !self.0[2], !self.0[3]])
    }
    pub fn is_empty(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn first(&self) -> u64 {
        VarSet(self.0).first() as u64
    }
    pub fn iter(&self) -> impl Iterator<Item = u64> + '_ {
        (0..256u64).filter(move |i| self.has(*i))
    }
    pub fn count(&self) -> u32 {
        VarSet(self.0).count()
    }
}

pub type Table = Arc<Vec<u64>>; // 256 values (w <= 64)
pub struct TableCache {
    map: FastMap<u128, Table>,
}
impl TableCache {
    pub fn new() -> Self {
        TableCache {
            map: FastMap::default(),
        }
    }
    /// values of a single-variable expression (variable of width <= 8) for all 256 inputs
    pub fn table(&mut self, e: &ExprRef) -> Option<Table> {
        if e.w > 64 {
            return None;
        }
        if let Some(t) = self.map.get(&e.hash) {
            return Some(t.clone());
        }
        let t: Vec<u64> = if e.size > 64 {
            // memoised per-node vectors
            let mut memo: FastMap<u128, Arc<Vec<u128>>> = FastMap::default();
            let r = vec_eval(e, &mut memo);
            r.iter().map(|x| *x as u64).collect()
        } else {
            let mut model = vec![0u64; e.vars.first() + 1];
            let vi = e.vars.first();
            (0..256u64)
                .map(|v| {
                    model[vi] = v;
                    eval_small(e, &model) as u64
                })
                .collect()
        };
        if self.map.len() > 200_000 {
            self.map.clear();
        }
        let t = Arc::new(t);
        self.map.insert(e.hash, t.clone());
        Some(t)
    }
    pub fn truth(&mut self, e: &ExprRef) -> Option<Dom> {
        let t = self.table(e)?;
        let mut d = Dom::NONE;
        for (i, x) in t.iter().enumerate() {
            if *x & 1 == 1 {
                d.set(i as u64);
            }
        }
        Some(d)
    }
}
fn vec_eval(e: &ExprRef, memo: &mut FastMap<u128, Arc<Vec<u128>>>) -> Arc<Vec<u128>> {
    if let Some(v) = memo.get(&e.hash) {
        return v.clone();
    }
    let w = e.w;
    let r: Vec<u128> = match &e.kind {
        Kind::Const(c) => vec![*c; 256],
        Kind::Var(_) => (0..256u128).map(|x| x & mask(w)).collect(),
        Kind::Uninit(_) => vec![0; 256],
        Kind::Bin(op, a, b) => {
            let x = vec_eval(a, memo);
            let y = vec_eval(b, memo);
            (0..256).map(|i| eval_bin(*op, x[i], y[i], a.w)).collect()
        }
        Kind::Ite(c, a, b) => {
            let k = vec_eval(c, memo);
            let x = vec_eval(a, memo);
            let y = vec_eval(b, memo);
            (0..256).map(|i| if k[i] == 1 { x[i] } else { y[i] }).collect()
        }
        Kind::Concat(a, b) => {
            let x = vec_eval(a, memo);
            let y = vec_eval(b, memo);
            (0..256).map(|i| (x[i] << b.w) | y[i]).collect()
        }
        Kind::Extract(a, lo) => {
            let x = vec_eval(a, memo);
            (0..256).map(|i| (x[i] >> lo) & mask(w)).collect()
        }
        Kind::ZExt(a) => return vec_eval(a, memo),
        Kind::SExt(a) => {
            let x = vec_eval(a, memo);
            (0..256)
                .map(|i| (sext128(x[i], a.w) as u128) & mask(w))
                .collect()
        }
        Kind::Tab(a, k, v) => {
            let x = vec_eval(a, memo);
            (0..256)
                .map(|i| match k.binary_search(&(x[i] as u64)) {
                    Ok(p) => v[p] as u128,
                    Err(_) => 0,
                })
                .collect()
        }
    };
    let r = Arc::new(r);
    memo.insert(e.hash, r.clone());
    r
}
