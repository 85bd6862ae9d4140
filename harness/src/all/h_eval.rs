//! Harnesses over the meaning of algs and moves on a puzzle.
use super::h_alg::{any_deeper, far};
use super::refalg as r;
use super::refalg::{Pre, N};
use super::refpuz::*;
use super::rt::*;
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;

fn mv(f: &str, k: i32) -> N {
    N::Move(Pre::No, f.as_bytes().to_vec(), k)
}
fn km(f: &str, k: i32) -> Move {
    r::to_move(&mv(f, k))
}
fn any_delta_t(perm: &[u8], n: u8) -> T {
    T { perm: perm.to_vec(), d: perm.iter().map(|_| below(n as usize)).collect() }
}
const P3: [&[u8]; 6] = [&[1, 2, 0], &[0, 2, 1], &[0, 1, 2], &[2, 0, 1], &[1, 0, 2], &[2, 1, 0]];

/// Sequences of at most `budget` nodes, of every kind and nesting, over moves A and B.
fn any_alg(budget: &mut usize, depth: usize, undefined: bool) -> Vec<N> {
    let mut v = Vec::new();
    while *budget > 0 {
        let k = pick(if depth > 0 { 8 } else { 5 });
        if k == 0 {
            break;
        }
        *budget -= 1;
        v.push(match k {
            1 => mv("A", [1, -1, 2][pick(3)]),
            2 => mv("B", [1, -3][pick(2)]),
            3 => match pick(3) {
                0 => N::Pause,
                1 => N::Newline,
                _ => N::Comment(b"c".to_vec()),
            },
            4 => {
                if !undefined {
                    assume(false);
                }
                mv("X", 1)
            }
            5 => {
                let w = any_alg(budget, depth - 1, undefined);
                N::Group(w, [0, 1, -1, 2, 3, -2][pick(6)])
            }
            6 => {
                let a = any_alg(budget, depth - 1, undefined);
                N::Comm(a, any_alg(budget, depth - 1, undefined))
            }
            _ => {
                let a = any_alg(budget, depth - 1, undefined);
                N::Conj(a, any_alg(budget, depth - 1, undefined))
            }
        });
    }
    v
}
/// A puzzle with moves A and B that are anything.
struct Two {
    os: Vec<Orbit>,
    a: Vec<T>,
    b: Vec<T>,
    k: KPuzzle,
}
impl Two {
    fn new(os: Vec<Orbit>, a: Vec<T>, b: Vec<T>) -> Two {
        let k = KPuzzle::try_new(def(&os, vec![(km("A", 1), a.clone()), (km("B", 1), b.clone())], None)).unwrap();
        Two { os, a, b, k }
    }
    fn env(&self, e: i32) -> Env<'_> {
        Env { os: &self.os, e, direct: vec![(mv("A", 1), self.a.clone()), (mv("B", 1), self.b.clone())], derived: vec![] }
    }
}
fn check_eval(p: &Two, e: i32, v: &[N], more: bool) {
    let a = r::to_alg(v);
    let got = p.k.transformation_from_alg(&a);
    match (p.env(e).eval(v, 3), got) {
        (Ok(w), Ok(t)) => {
            cover(1);
            check!(1401 "an alg does what its parts do, in order", eq_t(&get_t(&t), &w));
            if more {
                match p.k.transformation_from_alg(&a.invert()) {
                    Err(_) => check!(1402 "the inverse of an alg that can be done can be done", false),
                    Ok(i) => check!(1403 "the inverse of an alg undoes it", eq_t(&get_t(&i), &invs(&w, &p.os))),
                }
            }
        }
        (Err(_), Err(e)) => {
            cover(2);
            observe(e.to_string().len() as u64);
        }
        (Ok(_), Err(_)) => check!(1404 "an alg of moves that exist can be done", false),
        (Err(_), Ok(_)) => check!(1405 "an alg with a move that does not exist is refused", false),
    }
}

/// Ways to write a derived move, over the derived moves D0.. and the direct one A.
fn template(k: usize, d: &[N]) -> Vec<N> {
    let i = k % 3;
    match k / 3 {
        0 => vec![d[i].clone()],
        1 => vec![N::Group(vec![d[i].clone()], 0)],
        2 => vec![N::Comm(vec![mv("A", 1)], vec![d[i].clone()])],
        3 => vec![N::Comm(vec![d[i].clone()], vec![mv("A", 1)])],
        4 => vec![N::Conj(vec![d[i].clone()], vec![mv("A", -1)])],
        5 => vec![N::Conj(vec![mv("A", 1)], vec![N::Group(vec![N::Pause, d[i].clone()], -2)])],
        6 => vec![d[i].clone(), d[(i + 1) % 3].clone()],
        // brackets around nothing else, and numbers of times that come to nothing
        8 => vec![N::Conj(vec![d[i].clone()], vec![])],
        9 => vec![N::Comm(vec![d[i].clone()], vec![])],
        10 => vec![N::Comm(vec![N::Pause], vec![d[i].clone(), N::Newline])],
        11 => vec![N::Group(vec![N::Group(vec![N::Conj(vec![], vec![d[i].clone()])], 0)], 1)],
        12 => match &d[i] {
            N::Move(pre, family, _) => vec![N::Comment(b"c".to_vec()), N::Move(pre.clone(), family.clone(), 0)],
            _ => unreachable!(),
        },
        _ => match i {
            0 => vec![],
            1 => vec![mv("A", 1), mv("A", 2)],
            _ => vec![mv("A", 1), mv("X", 1)],
        },
    }
}

fn direct_name(direct: &[(N, Vec<T>)], i: usize) -> N {
    direct[i % direct.len()].0.clone()
}
const NAMES: [&str; 20] = [
    "Ba", "Bb", "Bc", "Bd", "Be", "Bf", "Bg", "Bh", "Bi", "Bj", "Bk", "Bl", "Bm", "Bn", "Bo", "Bp", "Bq", "Br", "Bs", "Bt",
];

harnesses! {
    // --- what algs do
    fn h_eval_tree() {
        // every small alg; moves with one of two permutations and any deltas
        let os = vec![orbit("P", 3, 2)];
        let (a, b) = (any_delta_t(P3[0], 2), any_delta_t(P3[1], 2));
        let p = Two::new(os, vec![a], vec![b]);
        let mut budget = if thorough() { 4 } else { 3 };
        let v = any_alg(&mut budget, 2, true);
        check_eval(&p, 12, &v, true);
    }
    fn h_eval_perm() {
        // algs of fixed shapes; moves with any permutation and any deltas, two orbits
        let os = vec![orbit("P", 3, 2), orbit("Q", 2, 3)];
        let (a, b) = (any_ts(&os), any_ts(&os));
        let p = Two::new(os, a, b);
        let v = match pick(6) {
            0 => vec![N::Comm(vec![mv("A", 1)], vec![mv("B", 1)])],
            1 => vec![N::Conj(vec![mv("A", 1)], vec![mv("B", 1)])],
            2 => vec![N::Group(vec![mv("A", 1), mv("B", 1)], 2)],
            3 => vec![mv("A", -1), mv("B", 2)],
            4 => vec![N::Group(vec![mv("A", 1), mv("B", -1)], -1)],
            _ => vec![mv("A", 1), mv("B", 1), mv("A", 1)],
        };
        check_eval(&p, 12, &v, thorough());
    }
    fn h_eval_amount() {
        // one move done any number of times (-128..=127, or around a power of two, or with bits in many places)
        let perms = if thorough() { 3 } else { 1 };
        let (n, k) = match pick(if thorough() { 4 } else { 5 }) {
            // (2 has the order 100 modulo 101, so that no two powers of two are the same number of times)
            0 => (101, {
                let k = (1i32 << (7 + pick(24))).wrapping_add(pick(3) as i32 - 1);
                if any_bool() { -k } else { k }
            }),
            1 => (101, {
                let k = [0x55u32, 0x33, 0x0f, 0xb6, 0xe9][pick(5)].rotate_left(5 + pick(18) as u32) as i32;
                if any_bool() { -k } else { k }
            }),
            2 => (3, fix(any_u8() as u64) as u8 as i8 as i32),
            _ if thorough() => ([2u8, 3, 5][pick(3)], {
                let w = match pick(8) {
                    7 => {
                        let k = 1i32 << (8 + pick(23));
                        if any_bool() { -k } else { k }
                    }
                    i => [0, 256, -256, 65_536, 1 << 24, i32::MAX - 128, -(i32::MAX - 128)][i],
                };
                w + fix(any_u8() as u64) as u8 as i8 as i32
            }),
            3 => (3, i32::MAX - pick(16) as i32),
            _ => (3, pick(16) as i32 - i32::MAX),
        };
        let os = vec![orbit("P", 3, n)];
        let x = if n == 101 { 7 } else { below(n as usize) };
        let a = T { perm: P3[pick(perms)].to_vec(), d: vec![x, 0, 1] };
        let p = Two::new(os, vec![a.clone()], vec![a]);
        let e = 6 * n as i32;
        let env = p.env(e);
        cover(1);
        match p.k.transformation_from_move(&km("A", k)) {
            Err(_) => check!(1406 "a move can be done any number of times", false),
            Ok(t) => check!(1407 "a move with an amount is the move done that many times", eq_t(&get_t(&t), &pows(&env.direct[0].1, k, e, &p.os))),
        }
        let g = Alg { nodes: vec![Grouping { alg: std::sync::Arc::new(Alg { nodes: vec![km("A", 1).into()] }), amount: k }.into()] };
        match p.k.transformation_from_alg(&g) {
            Err(_) => check!(1408 "a grouping can be done any number of times", false),
            Ok(t) => check!(1409 "a grouping with an amount is what is in it, done that many times", eq_t(&get_t(&t), &pows(&env.direct[0].1, k, e, &p.os))),
        }
    }
    fn h_eval_pattern() {
        // the same through patterns
        let os = vec![orbit("P", 3, 2)];
        let (a, b) = (any_delta_t(P3[0], 2), any_delta_t(P3[1], 2));
        let q = any_qs(&os);
        let p = Two::new(os, vec![a], vec![b]);
        let mut budget = if thorough() { 3 } else { 2 };
        let v = any_alg(&mut budget, 1, true);
        let x = r::to_alg(&v);
        let pat = set_q(&p.k, &q);
        match (p.env(12).eval(&v, 3), pat.apply_alg(&x)) {
            (Ok(w), Ok(y)) => {
                cover(1);
                check!(1410 "applying an alg is applying what it does", eq_q(&get_q(&y), &acts(&q, &w, &p.os), &p.os));
                check!(1411 "the pattern itself is left alone", eq_q(&get_q(&pat), &q, &p.os));
            }
            (Err(_), Err(_)) => cover(2),
            _ => check!(1412 "an alg can be applied exactly when all of its moves exist", false),
        }
        if let [n @ N::Move(..)] = v.as_slice() {
            match (p.env(12).mv(n, 3), pat.apply_move(&r::to_move(n))) {
                (Ok(w), Ok(y)) => {
                    cover(3);
                    check!(1413 "applying a move is applying what it does", eq_q(&get_q(&y), &acts(&q, &w, &p.os), &p.os))
                }
                (Err(_), Err(_)) => cover(4),
                _ => check!(1414 "a move can be applied exactly when it exists", false),
            }
        }
    }
    fn h_eval_concat() {
        // doing one alg and then another is doing them in one go
        let os = vec![orbit("P", 3, 2)];
        let (a, b) = (any_delta_t(P3[0], 2), any_delta_t(P3[1], 2));
        let p = Two::new(os, vec![a], vec![b]);
        let n = if thorough() { 2 } else { 1 };
        let (mut x, mut y) = (2, n);
        let (v, w) = (any_alg(&mut x, 1, false), any_alg(&mut y, 1, false));
        let both: Vec<N> = v.iter().chain(w.iter()).cloned().collect();
        let f = |v: &[N]| p.k.transformation_from_alg(&r::to_alg(v)).unwrap();
        cover(1);
        check!(1415 "algs one after the other do what their concatenation does", f(&v).apply_transformation(&f(&w)) == f(&both));
    }
    fn h_eval_long() {
        // many parts in a row, one of which is of any kind
        let os = vec![orbit("P", 3, 3)];
        let a = T { perm: P3[pick(2)].to_vec(), d: vec![2, 0, 1] };
        let b = T { perm: P3[4].to_vec(), d: vec![fix(below(3) as u64) as u8, 2, 0] };
        let p = Two::new(os, vec![a], vec![b]);
        let n = far(&[140]);
        let mut v: Vec<N> = (0..n).map(|i| mv(["A", "B"][(i / 3) % 2], [1, -1, 2, -3][i % 4])).collect();
        let i = [0, 1, n / 2, n - 2, n - 1][pick(5)];
        v[i] = match pick(7) {
            0 => N::Pause,
            1 => N::Group(v[..i].to_vec(), [0, 1, 5, -2][pick(4)]),
            2 => N::Comm(v[..i].to_vec(), v[i..].to_vec()),
            3 => N::Conj(v[i..].to_vec(), v[..i].to_vec()),
            4 => mv("X", 1),
            5 => mv("B", 0),
            _ => mv("A", 1),
        };
        check_eval(&p, 18, &v, true);
    }
    fn h_eval_deep() {
        // brackets in brackets
        let os = vec![orbit("P", 3, 3)];
        let a = T { perm: P3[pick(2)].to_vec(), d: vec![2, 0, 1] };
        let b = T { perm: P3[4].to_vec(), d: vec![below(3), 2, 0] };
        let p = Two::new(os, vec![a], vec![b]);
        let v = any_deeper(vec![if pick(4) == 0 { mv("X", 1) } else { mv("A", [1, -1, 2][pick(3)]) }]);
        check_eval(&p, 18, &v, true);
    }

    // --- which definition a move has
    fn h_lookup() {
        let os = vec![orbit("P", 3, 4)];
        let n = 4;
        let b = any_delta_t(P3[2], n);
        // keys with amounts 1, 2, -1, -2: each undefined, defined, derived (or both)
        let mut direct = vec![(mv("B", 1), vec![b])];
        let mut derived: Vec<(N, Vec<N>)> = vec![];
        let pre = match pick(3) {
            0 => Pre::No,
            1 => Pre::One(2),
            _ => Pre::Two(2, 3),
        };
        let amounts: &[i32] = if thorough() { &[1, 2, -1, -2, 0] } else { &[1, 2, -1] };
        for (i, k) in amounts.iter().enumerate() {
            let key = N::Move(pre.clone(), b"A".to_vec(), *k);
            let how = pick(4);
            if how & 1 != 0 {
                direct.push((key.clone(), vec![any_delta_t(P3[i], n)]));
            }
            if how & 2 != 0 {
                derived.push((key, vec![mv("B", i as i32 + 1)]));
            }
        }
        let d = def(
            &os,
            direct.iter().map(|(m, t)| (r::to_move(m), t.clone())).collect(),
            if derived.is_empty() && pick(2) == 0 { None } else { Some(derived.iter().map(|(m, v)| (r::to_move(m), r::to_alg(v))).collect()) },
        );
        let env = Env { os: &os, e: 24, direct, derived };
        let k = match KPuzzle::try_new(d) {
            Err(_) => return check!(1501 "a definition without anything wrong is accepted", false),
            Ok(k) => k,
        };
        // what is asked for
        let q = match pick(4) {
            0 => (pre.clone(), "A"),
            1 => (Pre::No, "A"),
            2 => (pre.clone(), "a"),
            _ => (Pre::Two(2, 4), "A"),
        };
        const ASK: [i32; 14] = [1, -1, 2, -2, 3, 0, -3, 4, i32::MAX, -1000, -i32::MAX, 5, -4, 1 << 30];
        let amounts = if thorough() { &ASK[..] } else { &ASK[..11] };
        let m = N::Move(q.0, q.1.as_bytes().to_vec(), amounts[pick(amounts.len())]);
        match (env.mv(&m, 3), k.transformation_from_move(&r::to_move(&m))) {
            (Ok(w), Ok(t)) => {
                cover(1);
                check!(1502 "a move does what its definition says", eq_t(&get_t(&t), &w));
            }
            (Err(_), Err(e)) => {
                cover(2);
                observe(e.to_string().len() as u64);
            }
            (Ok(_), Err(_)) => check!(1503 "a move that is defined is found", false),
            (Err(_), Ok(_)) => check!(1504 "a move that is not defined is refused", false),
        }
    }
    fn h_lookup_far() {
        // definitions of and requests for large amounts
        let os = vec![orbit("P", 3, 101)];
        let t = |i: usize| vec![T { perm: P3[i].to_vec(), d: vec![7, 0, 1] }];
        const FAR: [i32; 10] = [3, -3, 0, 5, 1000, -1000, i32::MAX, -i32::MAX, 1 << 30, -(1 << 16)];
        let key = FAR[pick(FAR.len())];
        let ask = match pick(5) {
            0 => key,
            1 => -key,
            2 => key / 2,
            3 => 1,
            _ => FAR[pick(FAR.len())],
        };
        let mut direct = vec![(mv("B", 1), t(1))];
        let mut derived = vec![];
        match pick(4) {
            0 => direct.push((mv("A", key), t(2))),
            1 => derived.push((mv("A", key), vec![mv("B", 3)])),
            2 => {
                direct.push((mv("A", key), t(2)));
                direct.push((mv("A", -key), t(3)));
            }
            _ => {
                derived.push((mv("A", key), vec![mv("B", 3)]));
                direct.push((mv("A", -key), t(3)));
            }
        }
        if key == 0 {
            direct.truncate(2);
        }
        let d = def(
            &os,
            direct.iter().map(|(m, t)| (r::to_move(m), t.clone())).collect(),
            Some(derived.iter().map(|(m, v)| (r::to_move(m), r::to_alg(v))).collect()),
        );
        let k = KPuzzle::try_new(d).unwrap();
        let env = Env { os: &os, e: 606, direct, derived };
        let m = mv("A", ask);
        match (env.mv(&m, 3), k.transformation_from_move(&r::to_move(&m))) {
            (Ok(w), Ok(t)) => {
                cover(1);
                check!(1508 "a move of a large amount does what its definition says", eq_t(&get_t(&t), &w));
            }
            (Err(_), Err(_)) => cover(2),
            _ => check!(1509 "a move of a large amount is found exactly when it is defined", false),
        }
    }
    fn h_lookup_layers() {
        // prefixes with any numbers
        let os = vec![orbit("P", 2, 2)];
        let (x, y) = (any_u8() as u32, any_u8() as u32);
        let key = if pick(2) == 0 { Pre::One(7) } else { Pre::Two(7, 9) };
        let ask = if pick(2) == 0 { Pre::One(x) } else { Pre::Two(x, y) };
        let t = vec![any_delta_t(&[1, 0], 2)];
        let direct = vec![(N::Move(key.clone(), b"A".to_vec(), 1), t)];
        let d = def(&os, direct.iter().map(|(m, t)| (r::to_move(m), t.clone())).collect(), None);
        let k = KPuzzle::try_new(d).unwrap();
        // (the hash of a key is computed on paths of their own)
        let ask = match ask {
            Pre::One(x) => Pre::One(fix(x as u64) as u32),
            Pre::Two(x, y) => {
                assume(x == 7 || y == 9);
                Pre::Two(fix(x as u64) as u32, fix(y as u64) as u32)
            }
            p => p,
        };
        let found = k.transformation_from_move(&r::to_move(&N::Move(ask.clone(), b"A".to_vec(), 1))).is_ok();
        if found {
            cover(1);
        } else {
            cover(2);
        }
        check!(1505 "a move is found exactly when it has the prefix of the definition", found == r::eq_pre(&ask, &key));
    }
    fn h_lookup_slash() {
        // a slash is its own inverse, so a key with another amount is not found through it
        let os = vec![orbit("P", 2, 3)];
        let pre = if pick(2) == 0 { Pre::No } else { Pre::One(2) };
        let amounts = [1, -1, 2, -2];
        let key = N::Move(pre.clone(), b"_SLASH_".to_vec(), amounts[pick(4)]);
        let m = N::Move(pre, b"_SLASH_".to_vec(), amounts[pick(4)]);
        let direct = vec![(key, vec![any_delta_t(&[1, 0], 3)])];
        let d = def(&os, direct.iter().map(|(m, t)| (r::to_move(m), t.clone())).collect(), None);
        let k = KPuzzle::try_new(d).unwrap();
        let env = Env { os: &os, e: 6, direct, derived: vec![] };
        match (env.mv(&m, 3), k.transformation_from_move(&r::to_move(&m))) {
            (Ok(w), Ok(t)) => {
                cover(1);
                check!(1506 "a slash does what its definition says", eq_t(&get_t(&t), &w));
            }
            (Err(_), Err(_)) => cover(2),
            _ => check!(1507 "a slash is found exactly when it is defined", false),
        }
    }
    fn h_lookup_names() {
        // many definitions, long names, differences in one place
        let os = vec![orbit("P", 2, 101)];
        let name = |at: usize, c: u8| {
            let mut t = b"LongFamilyName_with_parts".to_vec();
            t[at] = c;
            String::from_utf8(t).unwrap()
        };
        let n = 1 + pick(24);
        let mut direct = vec![];
        let mut derived = vec![];
        for i in 0..n {
            let m = mv(&name(i, b'z'), [1, 2, -1][i % 3]);
            if i % 4 == 3 {
                derived.push((m, vec![direct_name(&direct, i / 2)]));
            } else {
                direct.push((m, vec![T { perm: vec![1, 0], d: vec![i as u8, 1] }]));
            }
        }
        let d = def(
            &os,
            direct.iter().map(|(m, t)| (r::to_move(m), t.clone())).collect(),
            Some(derived.iter().map(|(m, v)| (r::to_move(m), r::to_alg(v))).collect()),
        );
        let k = KPuzzle::try_new(d).unwrap();
        let env = Env { os: &os, e: 202, direct, derived };
        let at = pick(25);
        let m = mv(&name(at, [b'z', b'Z', b'y'][pick(3)]), [1, 2, -2, -1, 7][pick(5)]);
        match (env.mv(&m, 3), k.transformation_from_move(&r::to_move(&m))) {
            (Ok(w), Ok(t)) => {
                cover(1);
                check!(1510 "a move with a long name does what its definition says", eq_t(&get_t(&t), &w));
            }
            (Err(_), Err(_)) => cover(2),
            _ => check!(1511 "a move with a long name is found exactly when it is defined", false),
        }
    }

    // --- derived moves
    fn h_derived() {
        let os = vec![orbit("P", 3, 2)];
        let a = vec![any_delta_t(P3[0], 2)];
        let n = if thorough() { 3 } else { 2 };
        // the third one may itself be a direct move
        let keys = [mv("D", 1), mv("E", [1, -1, 2][pick(3)]), mv("F", 1)];
        let uses = [mv("D", -1), mv("E", [1, 2][pick(2)]), mv("F", 1)];
        let mut direct = vec![(mv("A", 1), a.clone())];
        let mut derived = vec![];
        for i in 0..3 {
            if i < n {
                let forms = if i == 0 || thorough() { 39 } else { 24 };
                derived.push((keys[i].clone(), template(pick(forms), &uses)));
            } else {
                direct.push((keys[i].clone(), a.clone()));
            }
        }
        let d = def(
            &os,
            direct.iter().map(|(m, t)| (r::to_move(m), t.clone())).collect(),
            Some(derived.iter().map(|(m, v)| (r::to_move(m), r::to_alg(v))).collect()),
        );
        let env = Env { os: &os, e: 12, direct, derived };
        let ok = env.derived.iter().all(|(m, _)| env.mv(m, 4).is_ok());
        match KPuzzle::try_new(d) {
            Err(e) => {
                cover(1);
                check!(1601 "only definitions with a derived move that is undefined or needs itself are refused", !ok);
                observe(e.to_string().is_empty() as u64);
            }
            Ok(k) => {
                cover(2);
                check!(1602 "definitions with a derived move that is undefined or needs itself are refused", ok);
                if !ok {
                    return;
                }
                for m in uses.iter().chain(keys.iter()) {
                    match (env.mv(m, 5), k.transformation_from_move(&r::to_move(m))) {
                        (Ok(w), Ok(t)) => {
                            cover(3);
                            check!(1603 "a derived move does what its alg does", eq_t(&get_t(&t), &w));
                        }
                        (Err(_), Err(_)) => cover(4),
                        _ => check!(1604 "a derived move of an accepted puzzle can be done", false),
                    }
                }
            }
        }
    }
    fn h_derived_many() {
        // many derived moves that need nothing of each other, but for one that may be wrong
        let os = vec![orbit("P", 2, 3)];
        let t = vec![any_delta_t(&[1, 0], 3)];
        let n = 1 + pick(if thorough() { 20 } else { 12 });
        let at = pick(n);
        let how = pick(4);
        let mut derived: Vec<(N, Vec<N>)> = (0..n).map(|i| (mv(NAMES[i], 1), vec![mv("A", i as i32 % 3 - 1)])).collect();
        derived[at].1 = match how {
            0 => vec![mv("A", 2)],
            1 => vec![mv("X", 1)],
            2 => vec![N::Group(vec![mv(NAMES[at], -1)], 0)],
            _ => vec![mv(NAMES[(at + 1) % n], 1)],
        };
        let ok = how == 0 || (how == 3 && n > 1);
        let d = def(&os, vec![(km("A", 1), t.clone())], Some(derived.iter().map(|(m, v)| (r::to_move(m), r::to_alg(v))).collect()));
        match KPuzzle::try_new(d) {
            Err(_) => {
                cover(1);
                check!(1608 "many derived moves without anything wrong are accepted", !ok);
            }
            Ok(k) => {
                cover(2);
                check!(1609 "many derived moves, one of them wrong, are refused", ok);
                if !ok {
                    return;
                }
                let i = pick(n);
                let times = if i != at {
                    i as i32 % 3 - 1
                } else if how == 0 {
                    2
                } else {
                    ((at + 1) % n) as i32 % 3 - 1
                };
                let w = k.transformation_from_move(&km(NAMES[i], 1)).unwrap();
                check!(1610 "each of many derived moves does what its alg does", eq_t(&get_t(&w), &pows(&t, times, 6, &os)));
            }
        }
    }
    fn h_derived_chain() {
        // chains and rings of derived moves of any length up to a bound
        let os = vec![orbit("P", 2, 3)];
        let t = vec![any_delta_t(&[1, 0], 3)];
        let n = 1 + pick(if thorough() { 20 } else { 12 });
        let last = pick(n + 2);
        let mut derived = vec![];
        for i in 0..n {
            let next = if i + 1 < n {
                mv(NAMES[i + 1], -1)
            } else if last < n {
                mv(NAMES[last], 1)
            } else {
                mv(["A", "X"][last - n], 1)
            };
            derived.push((mv(NAMES[i], 1), vec![next]));
        }
        let d = def(&os, vec![(km("A", 1), t.clone())], Some(derived.iter().map(|(m, v)| (r::to_move(m), r::to_alg(v))).collect()));
        match KPuzzle::try_new(d) {
            Err(_) => {
                cover(1);
                check!(1605 "a chain that ends in a move that exists is accepted", last != n);
            }
            Ok(k) => {
                cover(2);
                check!(1606 "a chain that ends in itself or nowhere is refused", last == n);
                let w = k.transformation_from_move(&km("Ba", 1)).unwrap();
                let want = if n % 2 == 1 { t.clone() } else { invs(&t, &os) };
                check!(1607 "the first of a chain does what the last does", eq_t(&get_t(&w), &want));
            }
        }
    }
    fn h_derived_long() {
        // long chains and rings, and many uses of one
        let os = vec![orbit("P", 3, 2)];
        let t = vec![any_delta_t(P3[0], 2)];
        let n = far(&[140]);
        let name = |i: usize| format!("M{}{}", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char);
        let last = pick(5);
        let shape = pick(4);
        let mut derived = vec![];
        for i in 0..n {
            let next = if i + 1 < n { name(i + 1) } else { ["A".to_owned(), "X".to_owned(), name(0), name(n / 2), name(n - 1)][last].clone() };
            let u = mv(&next, if shape == 0 { -1 } else { 1 });
            derived.push((
                mv(&name(i), 1),
                match shape {
                    0 => vec![u],
                    1 => vec![N::Conj(vec![mv("A", 1)], vec![u])],
                    2 => vec![mv("A", 1), N::Group(vec![N::Pause, u], -1), mv("A", -2)],
                    _ => vec![N::Comment(b"c".to_vec()), N::Newline, N::Conj(vec![N::Pause], vec![N::Group(vec![u], 1)])],
                },
            ));
        }
        let d = def(&os, vec![(km("A", 1), t.clone())], Some(derived.iter().map(|(m, v)| (r::to_move(m), r::to_alg(v))).collect()));
        match KPuzzle::try_new(d) {
            Err(_) => {
                cover(1);
                check!(1610 "a long chain that ends in a move that exists is accepted", last != 0);
            }
            Ok(k) => {
                cover(2);
                check!(1611 "a long chain that ends in itself or nowhere is refused", last == 0);
                // (from the end to the beginning)
                let mut w = t.clone();
                for _ in 0..n {
                    w = match shape {
                        0 => invs(&w, &os),
                        1 => muls(&muls(&t, &w, &os), &invs(&t, &os), &os),
                        2 => {
                            let i = invs(&t, &os);
                            muls(&muls(&muls(&t, &invs(&w, &os), &os), &i, &os), &i, &os)
                        }
                        _ => w,
                    };
                }
                match k.transformation_from_move(&km(&name(0), 1)) {
                    Err(_) => check!(1612 "the first of a long chain can be done", false),
                    Ok(x) => check!(1613 "the first of a long chain does what the last does", eq_t(&get_t(&x), &w)),
                }
            }
        }
    }
}
