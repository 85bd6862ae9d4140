//! Two threads at once on values they share.
use super::refpuz::*;
use super::rt::*;
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use cubing_core::puzzles::{cube2x2x2_kpuzzle, cube3x3x3_kpuzzle};
use std::sync::Arc;

struct Shared {
    k: KPuzzle,
    p: KPattern,
    q: KPattern,
    t: KTransformation,
    u: KTransformation,
    a: Alg,
    n: Alg,
    m: Move,
}
fn shared() -> Shared {
    let os = [orbit("A", 3, 3), orbit("B", 2, 2)];
    let fixed = |x: u8| vec![T { perm: vec![1, 2, 0], d: vec![x, 0, 1] }, T { perm: vec![1, 0], d: vec![0, x % 2] }];
    let m = |s: &str| s.parse::<Move>().unwrap();
    let mut d = fixed(1);
    d[0].d[1] = below(3);
    let k = KPuzzle::try_new(def(
        &os,
        vec![(m("X"), fixed(0)), (m("Y"), d.clone())],
        Some(vec![(m("Z"), "X Y".parse::<Alg>().unwrap())]),
    ))
    .unwrap();
    let q = vec![
        Q { pieces: vec![2, any_u8(), 0], o: vec![0, below(3), 1], m: vec![0, 0, 0] },
        Q { pieces: vec![1, 0], o: vec![below(2), 1], m: vec![0, 0] },
    ];
    Shared {
        p: set_q(&k, &q),
        q: set_q(&k, &q),
        t: set_t(&k, &d),
        u: set_t(&k, &fixed(2)),
        a: "X Y' Z2".parse().unwrap(),
        n: "(X [Y: Z])3 // x".parse().unwrap(),
        m: m("Y2'"),
        k,
    }
}
fn bytes_t(t: &KTransformation) -> Vec<u8> {
    get_t(t).into_iter().flat_map(|x| x.perm.into_iter().chain(x.d)).collect()
}
fn bytes_q(q: &KPattern) -> Vec<u8> {
    get_q(q).into_iter().flat_map(|x| x.pieces.into_iter().chain(x.o).chain(x.m)).collect()
}
const OPS: usize = 14;
/// What a thread may do with what it shares, as the bytes that come out.
fn op(s: &Shared, i: usize) -> Vec<u8> {
    match i {
        0 => bytes_q(&s.p.apply_transformation(&s.t)),
        1 => bytes_t(&s.t.apply_transformation(&s.u)),
        2 => bytes_t(&s.t.invert()),
        3 => bytes_q(&s.k.default_pattern()),
        4 => {
            let k = s.k.clone();
            let t = k.identity_transformation();
            drop(k);
            let k = t.kpuzzle().clone();
            drop(t);
            vec![k.orbit_info_iter().count() as u8]
        }
        5 => vec![(s.p == s.q) as u8, (s.t == s.u) as u8, (s.t == s.t) as u8],
        6 => {
            let mut b = KPatternBuffer::from(s.p.clone());
            b.apply_transformation(&s.t);
            b.apply_transformation(&s.u);
            bytes_q(b.current())
        }
        7 => {
            let mut b = KTransformationBuffer::from(s.t.clone());
            b.apply_transformation(&s.u);
            bytes_t(b.current())
        }
        8 => {
            let a = s.n.clone();
            let b = a.invert();
            drop(a);
            b.to_string().into_bytes()
        }
        9 => {
            let a = s.a.clone();
            vec![(a == s.a) as u8, (a == s.n) as u8]
        }
        10 => vec![(s.q == s.p) as u8, (s.u == s.t) as u8],
        11 => bytes_t(&s.k.transformation_from_move(&s.m).unwrap()),
        12 => bytes_t(&s.k.transformation_from_alg(&s.a).unwrap()),
        _ => bytes_q(&s.p.apply_alg(&s.a).unwrap()),
    }
}
fn all_same(a: &[u8], b: &[u8]) -> bool {
    same(a, b)
}
fn switches(quick: u32, thorough: u32) -> u32 {
    if tier() > 0 { thorough } else { quick }
}

harnesses! {
    // any two of the cheap operations
    fn h_par_ops() {
        let before = live_heap();
        let s = shared();
        let (i, j) = (pick(OPS - 2), pick(OPS - 2));
        assume(i <= j);
        let (x, y) = par(switches(4, 10), || op(&s, i), || op(&s, j));
        check!(950 "what a thread gets is what it gets alone", all_same(&x, &op(&s, i)));
        check!(951 "what a thread gets is what it gets alone", all_same(&y, &op(&s, j)));
        observe_bytes(&x);
        observe_bytes(&y);
        drop((x, y, s));
        check!(952 "nothing stays behind on the heap", live_heap() == before);
        cover(1);
    }
    // evaluating algs, with derived moves, next to anything
    fn h_par_eval() {
        let before = live_heap();
        let s = shared();
        let (i, j) = (OPS - 2 + pick(2), pick(OPS));
        let (x, y) = par(switches(1, 3), || op(&s, i), || op(&s, j));
        check!(953 "what a thread gets is what it gets alone", all_same(&x, &op(&s, i)));
        check!(954 "what a thread gets is what it gets alone", all_same(&y, &op(&s, j)));
        observe_bytes(&x);
        observe_bytes(&y);
        drop((x, y, s));
        check!(955 "nothing stays behind on the heap", live_heap() == before);
        cover(1);
    }
    // the last owners of what was shared, in whichever thread they end
    fn h_par_drop() {
        let before = live_heap();
        {
            let s = shared();
            let which = pick(4);
            match which {
                0 => {
                    let (k, l) = (s.k.clone(), s.k.clone());
                    drop(s);
                    let (x, y) = par(switches(8, 14), move || bytes_q(&k.default_pattern()), move || bytes_t(&l.identity_transformation()));
                    check!(956 "the default pattern", x == vec![0, 1, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0]);
                    check!(957 "the identity", y == vec![0, 1, 2, 0, 0, 0, 0, 1, 0, 0]);
                    observe_bytes(&x);
                }
                1 => {
                    let (p, t) = (s.p.clone(), s.t.clone());
                    let want = bytes_q(&p.apply_transformation(&t));
                    let t2 = t.clone();
                    drop(s);
                    let (x, y) = par(switches(8, 14), move || p.apply_transformation(&t), move || t2.invert());
                    check!(958 "a pattern from another thread", same(&bytes_q(&x), &want));
                    observe_t(&y);
                    // and what came out goes on in other threads
                    let (x, y) = par(switches(8, 14), move || bytes_q(&x), move || bytes_t(&y.invert()));
                    check!(959 "a pattern in a third thread", same(&x, &want));
                    observe_bytes(&y);
                }
                2 => {
                    let (a, b) = (s.n.clone(), s.n.clone());
                    drop(s);
                    let (x, y) = par(switches(8, 14), move || a.invert(), move || b.to_string());
                    check!(960 "the inverse of the inverse", x.invert().to_string() == y);
                    observe_bytes(y.as_bytes());
                }
                _ => {
                    let a: Arc<Alg> = Arc::new(s.n.clone());
                    let b = a.clone();
                    let m: Move = "2-3Rw2'".parse().unwrap();
                    let m2 = m.clone();
                    drop(s);
                    let (x, y) = par(switches(8, 14), move || (drop(a), m.invert()), move || (b.nodes.len(), m2));
                    check!(961 "a move from another thread", x.1.invert() == y.1);
                    observe(y.0 as u64);
                }
            }
        }
        check!(962 "nothing stays behind on the heap", live_heap() == before);
        cover(1);
    }
    // the constants that are made when they are first needed
    fn h_par_once() {
        let texts = ["(1, 2)", "(-3, 0)", "(0, 5) (1, 1)"];
        let (i, j) = (pick(3), pick(3));
        let (x, y) = par(
            switches(3, 5),
            || texts[i].parse::<Alg>().unwrap(),
            || texts[j].parse::<Alg>().unwrap(),
        );
        check!(963 "a tuple parsed in a thread", x == texts[i].parse::<Alg>().unwrap());
        check!(964 "a tuple parsed in a thread", y == texts[j].parse::<Alg>().unwrap());
        check!(965 "its text", x.to_string().parse::<Alg>().unwrap() == x);
        observe_bytes(y.to_string().as_bytes());
        cover(1);
    }
    // the built-in puzzles, which are loaded by whoever asks first
    fn h_par_builtin() {
        let which = pick(2);
        let get = move || if which == 0 { cube2x2x2_kpuzzle() } else { cube3x3x3_kpuzzle() };
        let m: Move = "R2".parse().unwrap();
        let (x, y) = par(
            switches(1, 2),
            || {
                let k = get();
                (k, k.transformation_from_move(&m).unwrap())
            },
            || {
                let k = get();
                (k, k.default_pattern())
            },
        );
        check!(966 "one puzzle for every thread", std::ptr::eq(x.0, y.0) & std::ptr::eq(x.0, get()));
        check!(967 "made by it", std::ptr::eq(x.0.definition(), y.1.kpuzzle().definition()));
        let back = y.1.apply_transformation(&x.1).apply_transformation(&x.1);
        check!(968 "twice a half turn", back == y.1);
        observe_t(&x.1);
        cover(1);
    }
}
