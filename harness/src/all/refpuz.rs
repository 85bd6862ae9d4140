//! An independent model of puzzles: transformations and patterns as plain
//! vectors, their composition, and the meaning of algs.
use super::refalg::{Pre, N};
use super::rt::*;
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use std::collections::HashMap;

/// One orbit of a transformation.
#[derive(Clone, Debug)]
pub struct T {
    pub perm: Vec<u8>,
    pub d: Vec<u8>,
}
/// One orbit of a pattern; `m` is the orientation modulus, 0 for the default one.
#[derive(Clone, Debug)]
pub struct Q {
    pub pieces: Vec<u8>,
    pub o: Vec<u8>,
    pub m: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Orbit {
    pub name: &'static str,
    pub p: u8,
    pub n: u8,
}
pub fn orbit(name: &'static str, p: u8, n: u8) -> Orbit {
    Orbit { name, p, n }
}

pub fn id(p: u8) -> T {
    let mut perm = vec![];
    for i in 0..p {
        perm.push(i);
    }
    T {
        perm,
        d: vec![0; p as usize],
    }
}
pub fn ids(os: &[Orbit]) -> Vec<T> {
    os.iter().map(|o| id(o.p)).collect()
}
/// `a`, then `b`.
pub fn mul(a: &T, b: &T, n: u8) -> T {
    let mut r = T {
        perm: vec![],
        d: vec![],
    };
    for i in 0..b.perm.len() {
        let j = b.perm[i] as usize;
        r.perm.push(a.perm[j]);
        r.d.push(((a.d[j] as u16 + b.d[i] as u16) % n as u16) as u8);
    }
    r
}
pub fn muls(a: &[T], b: &[T], os: &[Orbit]) -> Vec<T> {
    (0..os.len()).map(|k| mul(&a[k], &b[k], os[k].n)).collect()
}
pub fn inv(a: &T, n: u8) -> T {
    let mut r = id(a.perm.len() as u8);
    for i in 0..a.perm.len() {
        r.perm[a.perm[i] as usize] = i as u8;
        r.d[a.perm[i] as usize] = ((n as u16 - a.d[i] as u16) % n as u16) as u8;
    }
    r
}
pub fn invs(a: &[T], os: &[Orbit]) -> Vec<T> {
    (0..os.len()).map(|k| inv(&a[k], os[k].n)).collect()
}
/// `a` done `k` times; `e` is a number of times that gives the identity.
pub fn pows(a: &[T], k: i32, e: i32, os: &[Orbit]) -> Vec<T> {
    let mut r = ids(os);
    let k = k.rem_euclid(e);
    for _ in 0..k {
        r = muls(&r, a, os);
    }
    r
}
/// `q`, then `t`.
pub fn act(q: &Q, t: &T, n: u8) -> Q {
    let mut r = Q {
        pieces: vec![],
        o: vec![],
        m: vec![],
    };
    for i in 0..t.perm.len() {
        let j = t.perm[i] as usize;
        r.pieces.push(q.pieces[j]);
        let m = q.m[j];
        let md = if m == 0 { n } else { m };
        r.m.push(m);
        r.o.push(((q.o[j] as u16 + t.d[i] as u16) % md as u16) as u8);
    }
    r
}
pub fn acts(q: &[Q], t: &[T], os: &[Orbit]) -> Vec<Q> {
    (0..os.len()).map(|k| act(&q[k], &t[k], os[k].n)).collect()
}
pub fn eq_t(a: &[T], b: &[T]) -> bool {
    let mut ok = a.len() == b.len();
    for k in 0..a.len() {
        ok &= same(&a[k].perm, &b[k].perm) & same(&a[k].d, &b[k].d);
    }
    ok
}
/// A modulus equal to the number of orientations means the same as 0.
fn m0(m: u8, n: u8) -> u8 {
    let keep = (m != n) as u8;
    m & keep.wrapping_neg()
}
pub fn eq_q(a: &[Q], b: &[Q], os: &[Orbit]) -> bool {
    let mut ok = a.len() == b.len();
    for k in 0..a.len() {
        ok &= same(&a[k].pieces, &b[k].pieces) & same(&a[k].o, &b[k].o);
        for i in 0..a[k].m.len() {
            ok &= m0(a[k].m[i], os[k].n) == m0(b[k].m[i], os[k].n);
        }
    }
    ok
}

// ---- arbitrary values ----

/// An arbitrary permutation with arbitrary orientation deltas.
pub fn any_t(p: u8, n: u8) -> T {
    let mut perm: Vec<u8> = vec![];
    let mut d = vec![];
    for i in 0..p as usize {
        let v = below(p as usize);
        for j in 0..i {
            assume(v != perm[j]);
        }
        perm.push(v);
    }
    for _ in 0..p {
        d.push(below(n as usize));
    }
    T { perm, d }
}
pub fn any_ts(os: &[Orbit]) -> Vec<T> {
    os.iter().map(|o| any_t(o.p, o.n)).collect()
}
/// The same with the permutation on a path of its own.
pub fn any_t_split(p: u8, n: u8) -> T {
    let mut t = any_t(p, n);
    for v in t.perm.iter_mut() {
        *v = fix(*v as u64) as u8;
    }
    t
}
/// An arbitrary orientation and modulus for an orbit with `n` orientations.
pub fn any_o(n: u8) -> (u8, u8) {
    let m = any_u8();
    let mut ok = m == 0;
    let mut lim = 0u8;
    lim |= n & ((m == 0) as u8).wrapping_neg();
    for k in 1..=n {
        if n % k == 0 {
            ok |= m == k;
            lim |= k & ((m == k) as u8).wrapping_neg();
        }
    }
    assume(ok);
    let o = any_u8();
    assume(o < lim);
    (o, m)
}
pub fn any_q(p: u8, n: u8) -> Q {
    let mut q = Q {
        pieces: vec![],
        o: vec![],
        m: vec![],
    };
    for _ in 0..p {
        q.pieces.push(any_u8());
        let (o, m) = any_o(n);
        q.o.push(o);
        q.m.push(m);
    }
    q
}
pub fn any_qs(os: &[Orbit]) -> Vec<Q> {
    os.iter().map(|o| any_q(o.p, o.n)).collect()
}

// ---- the crate's values ----

pub fn t_data(os: &[Orbit], t: &[T]) -> KTransformationData {
    let mut m = HashMap::new();
    for k in 0..os.len() {
        m.insert(
            KPuzzleOrbitName(os[k].name.to_owned()),
            KTransformationOrbitData {
                permutation: t[k].perm.clone(),
                orientation_delta: t[k].d.clone(),
            },
        );
    }
    m
}
pub fn q_data(os: &[Orbit], q: &[Q]) -> KPatternData {
    let mut m = HashMap::new();
    for k in 0..os.len() {
        m.insert(
            KPuzzleOrbitName(os[k].name.to_owned()),
            KPatternOrbitData {
                pieces: q[k].pieces.clone(),
                orientation: q[k].o.clone(),
                orientation_mod: Some(q[k].m.clone()),
            },
        );
    }
    m
}
pub fn solved(os: &[Orbit]) -> Vec<Q> {
    os.iter()
        .map(|o| Q {
            pieces: id(o.p).perm,
            o: vec![0; o.p as usize],
            m: vec![0; o.p as usize],
        })
        .collect()
}
pub fn def(
    os: &[Orbit],
    moves: Vec<(Move, Vec<T>)>,
    derived: Option<Vec<(Move, Alg)>>,
) -> KPuzzleDefinition {
    let mut mv = HashMap::new();
    for (m, t) in moves {
        mv.insert(m, t_data(os, &t));
    }
    let derived_moves = derived.map(|v| {
        let mut d = HashMap::new();
        for (m, a) in v {
            d.insert(m, a);
        }
        d
    });
    KPuzzleDefinition {
        name: "p".to_owned(),
        orbits: os
            .iter()
            .map(|o| KPuzzleOrbitDefinition {
                orbit_name: KPuzzleOrbitName(o.name.to_owned()),
                num_pieces: o.p,
                num_orientations: o.n,
            })
            .collect(),
        default_pattern: q_data(os, &solved(os)),
        moves: mv,
        derived_moves,
    }
}
pub fn puzzle(os: &[Orbit]) -> KPuzzle {
    KPuzzle::try_new(def(os, vec![], None)).unwrap()
}
/// Made with the setters, from the identity.
pub fn set_t(k: &KPuzzle, t: &[T]) -> KTransformation {
    let mut r = k.identity_transformation();
    for (x, info) in t.iter().zip(k.orbit_info_iter()) {
        for i in 0..x.perm.len() {
            r.set_permutation_idx(info, i as u8, x.perm[i]);
            r.set_orientation_delta(info, i as u8, x.d[i]);
        }
    }
    r
}
pub fn set_q(k: &KPuzzle, q: &[Q]) -> KPattern {
    let mut r = k.default_pattern();
    for (x, info) in q.iter().zip(k.orbit_info_iter()) {
        for i in 0..x.pieces.len() {
            r.set_piece(info, i as u8, x.pieces[i]);
            r.set_orientation_with_mod(
                info,
                i as u8,
                &OrientationWithMod {
                    orientation: x.o[i],
                    orientation_mod: x.m[i],
                },
            );
        }
    }
    r
}
pub fn get_t(t: &KTransformation) -> Vec<T> {
    t.kpuzzle()
        .orbit_info_iter()
        .map(|info| {
            let mut x = T {
                perm: vec![],
                d: vec![],
            };
            for i in 0..info.num_pieces {
                x.perm.push(t.get_permutation_idx(info, i));
                x.d.push(t.get_orientation_delta(info, i));
            }
            x
        })
        .collect()
}
pub fn get_q(q: &KPattern) -> Vec<Q> {
    q.kpuzzle()
        .orbit_info_iter()
        .map(|info| {
            let mut x = Q {
                pieces: vec![],
                o: vec![],
                m: vec![],
            };
            for i in 0..info.num_pieces {
                x.pieces.push(q.get_piece(info, i));
                let o = q.get_orientation_with_mod(info, i);
                x.o.push(o.orientation);
                x.m.push(o.orientation_mod);
            }
            x
        })
        .collect()
}
pub fn observe_t(t: &KTransformation) {
    for x in get_t(t) {
        observe_bytes(&x.perm);
        observe_bytes(&x.d);
    }
}
pub fn observe_q(q: &KPattern) {
    for x in get_q(q) {
        observe_bytes(&x.pieces);
        observe_bytes(&x.o);
        observe_bytes(&x.m);
    }
}

// ---- the meaning of algs ----

pub struct Env<'a> {
    pub os: &'a [Orbit],
    /// A number of times that gives the identity, for every transformation.
    pub e: i32,
    pub direct: Vec<(N, Vec<T>)>,
    pub derived: Vec<(N, Vec<N>)>,
}
#[derive(Debug, PartialEq)]
pub enum Bad {
    Undefined,
    Recursive,
}
impl<'a> Env<'a> {
    pub fn eval(&self, v: &[N], depth: usize) -> Result<Vec<T>, Bad> {
        let mut t = ids(self.os);
        for n in v {
            t = muls(&t, &self.node(n, depth)?, self.os);
        }
        Ok(t)
    }
    fn node(&self, n: &N, depth: usize) -> Result<Vec<T>, Bad> {
        let os = self.os;
        match n {
            N::Move(..) => self.mv(n, depth),
            N::Pause | N::Newline | N::Comment(_) => Ok(ids(os)),
            N::Group(v, k) => Ok(pows(&self.eval(v, depth)?, *k, self.e, os)),
            N::Comm(a, b) => {
                let (a, b) = (self.eval(a, depth)?, self.eval(b, depth)?);
                let t = muls(&muls(&a, &b, os), &invs(&a, os), os);
                Ok(muls(&t, &invs(&b, os), os))
            }
            N::Conj(a, b) => {
                let (a, b) = (self.eval(a, depth)?, self.eval(b, depth)?);
                Ok(muls(&muls(&a, &b, os), &invs(&a, os), os))
            }
        }
    }
    pub fn mv(&self, n: &N, depth: usize) -> Result<Vec<T>, Bad> {
        if depth == 0 {
            return Err(Bad::Recursive);
        }
        let (pre, fam, k) = match n {
            N::Move(p, f, k) => (p, f, *k),
            _ => unreachable!(),
        };
        // by amount: 1, the same one, its negation
        for (i, (amount, times)) in [(1, k), (k, 1), (-k, -1)].into_iter().enumerate() {
            // `/` is its own inverse
            if i == 2 && *pre == Pre::No && fam == b"_SLASH_" {
                break;
            }
            let key = N::Move(pre.clone(), fam.clone(), amount);
            for (m, t) in &self.direct {
                if *m == key {
                    return Ok(pows(t, times, self.e, self.os));
                }
            }
            for (m, v) in &self.derived {
                if *m == key {
                    return Ok(pows(&self.eval(v, depth - 1)?, times, self.e, self.os));
                }
            }
        }
        Err(Bad::Undefined)
    }
}
