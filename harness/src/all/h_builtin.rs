//! The built-in cubes against a geometric model: stickers on a cube in space.
use super::refalg as r;
use super::refalg::{Pre, N};
use super::refpuz::*;
use super::rt::*;
use cubing_core::kpuzzle::*;
use cubing_core::puzzles::{cube2x2x2_kpuzzle, cube3x3x3_kpuzzle};

type V = [i8; 3];
fn face(c: u8) -> V {
    match c {
        b'U' => [0, 1, 0],
        b'D' => [0, -1, 0],
        b'R' => [1, 0, 0],
        b'L' => [-1, 0, 0],
        b'F' => [0, 0, 1],
        _ => [0, 0, -1],
    }
}
fn dot(a: V, b: V) -> i8 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
/// A quarter turn, clockwise as seen from outside along `ax`.
fn rot(ax: V, v: V) -> V {
    let k = dot(ax, v);
    let c = [v[1] * ax[2] - v[2] * ax[1], v[2] * ax[0] - v[0] * ax[2], v[0] * ax[1] - v[1] * ax[0]];
    [k * ax[0] + c[0], k * ax[1] + c[1], k * ax[2] + c[2]]
}
const EDGES: [&str; 12] = ["UF", "UR", "UB", "UL", "DF", "DR", "DB", "DL", "FR", "FL", "BR", "BL"];
const CORNERS: [&str; 8] = ["UFR", "URB", "UBL", "ULF", "DRF", "DFL", "DLB", "DBR"];
const CENTERS: [&str; 6] = ["U", "L", "F", "R", "B", "D"];
/// The side of each center that points "up".
const UPS: [u8; 6] = [b'B', b'U', b'U', b'U', b'U', b'F'];

fn same_set(a: &[V], b: &[V]) -> bool {
    a.iter().all(|x| b.contains(x))
}
/// The orbit of edges (`n` = 2) or corners (`n` = 3) after the turn.
fn turn(pos: &[&str], ax: V, layers: &[i8], n: usize) -> T {
    let at = |s: &str| s.bytes().map(face).collect::<Vec<V>>();
    let mut t = T { perm: vec![0; pos.len()], d: vec![0; pos.len()] };
    for (i, p) in pos.iter().enumerate() {
        let f = at(p);
        let c = [f.iter().map(|v| v[0]).sum(), f.iter().map(|v| v[1]).sum(), f.iter().map(|v| v[2]).sum()];
        let g: Vec<V> = if layers.contains(&dot(ax, c)) { f.iter().map(|v| rot(ax, *v)).collect() } else { f };
        for (j, q) in pos.iter().enumerate() {
            let h = at(q);
            if same_set(&g, &h) {
                // where the first sticker went
                let k = h.iter().position(|v| *v == g[0]).unwrap();
                t.perm[j] = i as u8;
                t.d[j] = (if n == 3 { (n - k) % n } else { k }) as u8;
            }
        }
    }
    t
}
fn turn_centers(ax: V, layers: &[i8]) -> T {
    let mut t = T { perm: vec![0; 6], d: vec![0; 6] };
    for i in 0..6 {
        let (n, u) = (face(CENTERS[i].as_bytes()[0]), face(UPS[i]));
        let (n, u) = if layers.contains(&dot(ax, n)) { (rot(ax, n), rot(ax, u)) } else { (n, u) };
        let j = (0..6).find(|j| face(CENTERS[*j].as_bytes()[0]) == n).unwrap();
        t.perm[j] = i as u8;
        let mut w = face(UPS[j]);
        while w != u {
            w = rot(n, w);
            t.d[j] += 1;
        }
    }
    t
}
/// Every move: its name, the face it is named after, and the layers that it turns.
fn moves(cube3: bool) -> Vec<(Pre, Vec<u8>, V, Vec<i8>)> {
    let mut v = vec![];
    for c in *b"ULFRBD" {
        v.push((Pre::No, vec![c], face(c), vec![1]));
        v.push((Pre::No, vec![c, b'v'], face(c), vec![1, 0, -1]));
        if cube3 {
            v.push((Pre::No, vec![c | 32], face(c), vec![1, 0]));
            v.push((Pre::No, vec![c, b'w'], face(c), vec![1, 0]));
            v.push((Pre::One(2), vec![c], face(c), vec![0]));
        }
    }
    for (c, f) in [(b'x', b'R'), (b'y', b'U'), (b'z', b'F')] {
        v.push((Pre::No, vec![c], face(f), vec![1, 0, -1]));
    }
    if cube3 {
        for (c, f) in [(b'M', b'L'), (b'E', b'D'), (b'S', b'F')] {
            v.push((Pre::No, vec![c], face(f), vec![0]));
        }
    }
    v
}
fn model(cube3: bool, m: &(Pre, Vec<u8>, V, Vec<i8>)) -> Vec<T> {
    if cube3 {
        vec![turn(&EDGES, m.2, &m.3, 2), turn(&CORNERS, m.2, &m.3, 3), turn_centers(m.2, &m.3)]
    } else {
        vec![turn(&CORNERS, m.2, &m.3, 3)]
    }
}
fn cube(cube3: bool) -> (&'static KPuzzle, Vec<Orbit>) {
    if cube3 {
        (cube3x3x3_kpuzzle(), vec![orbit("EDGES", 12, 2), orbit("CORNERS", 8, 3), orbit("CENTERS", 6, 4)])
    } else {
        (cube2x2x2_kpuzzle(), vec![orbit("CORNERS", 8, 3)])
    }
}
/// Any stickering: every piece and orientation; the moduli are all default, or
/// those of the solved cube, or all 1.
fn any_state(os: &[Orbit]) -> Vec<Q> {
    let how = pick(3);
    os.iter()
        .map(|o| {
            let mut q = Q { pieces: vec![], o: vec![], m: vec![] };
            for _ in 0..o.p {
                q.pieces.push(any_u8());
                let m = if how == 2 || (how == 1 && o.n == 4) { 1 } else { 0 };
                q.o.push(below(if m == 0 { o.n as usize } else { 1 }));
                q.m.push(m);
            }
            q
        })
        .collect()
}
fn check_move(cube3: bool) {
    let (k, os) = cube(cube3);
    let ms = moves(cube3);
    let m = &ms[pick(ms.len())];
    let amounts: &[i32] = if thorough() { &[1, -1, 2, -2, 3, 4, 0, 5, 7, -9, 100, 1003] } else { &[1, -1, 2, -2, 3, 1003] };
    let a = amounts[pick(amounts.len())];
    let t = pows(&model(cube3, m), a, 4, &os);
    let q = any_state(&os);
    let p = set_q(k, &q);
    let n = r::to_move(&N::Move(m.0.clone(), m.1.clone(), a));
    match (k.transformation_from_move(&n), p.apply_move(&n)) {
        (Ok(x), Ok(y)) => {
            cover(1);
            check!(2301 "a move of a built-in cube turns the layers that its name says", eq_t(&get_t(&x), &t));
            check!(2302 "a move turns any stickering of a built-in cube", eq_q(&get_q(&y), &acts(&q, &t, &os), &os));
        }
        _ => check!(2303 "a built-in cube has every move of its notation", false),
    }
}
fn check_two(cube3: bool) {
    // two moves, in a form
    let (k, os) = cube(cube3);
    let ms = moves(cube3);
    let quick = [0, 1, 4, ms.len() - 1, ms.len() - 3, 2];
    let (i, j) = if thorough() { (pick(ms.len()), pick(ms.len())) } else { (pick(ms.len()), quick[pick(6)]) };
    let (a, b) = (model(cube3, &ms[i]), model(cube3, &ms[j]));
    let (x, y) = (N::Move(ms[i].0.clone(), ms[i].1.clone(), 1), N::Move(ms[j].0.clone(), ms[j].1.clone(), 1));
    let m = |x: &[T], y: &[T]| muls(x, y, &os);
    let (v, t) = match pick(3) {
        0 => (vec![x, y], m(&a, &b)),
        1 => (vec![N::Comm(vec![x], vec![y])], m(&m(&a, &b), &m(&invs(&a, &os), &invs(&b, &os)))),
        _ => (vec![N::Group(vec![N::Conj(vec![x], vec![y])], -1)], m(&m(&a, &invs(&b, &os)), &invs(&a, &os))),
    };
    let q = any_state(&os);
    match set_q(k, &q).apply_alg(&r::to_alg(&v)) {
        Err(_) => check!(2304 "an alg of moves of a built-in cube can be done", false),
        Ok(z) => {
            cover(1);
            check!(2305 "an alg of two moves turns any stickering of a built-in cube", eq_q(&get_q(&z), &acts(&q, &t, &os), &os));
        }
    }
}

harnesses! {
    fn h_cube3_moves() {
        check_move(true);
    }
    fn h_cube2_moves() {
        check_move(false);
    }
    fn h_cube3_two() {
        check_two(true);
    }
    fn h_cube2_two() {
        check_two(false);
    }
    fn h_cube_solved() {
        for c in [true, false] {
            let (k, os) = cube(c);
            let mut want = solved(&os);
            if c {
                want[2].m = vec![1; 6];
            }
            cover(1);
            check!(2306 "the default pattern of a built-in cube is the solved one", eq_q(&get_q(&k.default_pattern()), &want, &os));
            check!(2307 "a built-in cube is loaded once", std::ptr::eq(k, cube(c).0));
            let mut i = 0;
            for x in k.orbit_info_iter() {
                check!(2308 "the orbits of a built-in cube are the ones documented", i < os.len() && x.name.0 == os[i].name && x.num_pieces == os[i].p && x.num_orientations == os[i].n);
                i += 1;
            }
            check!(2309 "a built-in cube has no other orbits", i == os.len());
        }
        // any single letter is a move of the cubes exactly when it names one
        let b = any_u8();
        assume((b | 32).wrapping_sub(b'a') < 26);
        let b = fix(b as u64) as u8;
        let c3 = pick(2) == 1;
        let (k, _) = cube(c3);
        let is = k.transformation_from_move(&r::to_move(&N::Move(Pre::No, vec![b], 1))).is_ok();
        let known = moves(c3).iter().any(|m| m.0 == Pre::No && m.1 == [b]);
        if is { cover(2) } else { cover(3) }
        check!(2310 "a letter is a move of a built-in cube exactly when it names one", is == known);
        // a modulus of 1 makes the centers of the solved cube look the same however they are turned
        if c3 && known {
            cover(4);
            let t = k.transformation_from_move(&r::to_move(&N::Move(Pre::No, vec![b], 1))).unwrap();
            let d = k.default_pattern();
            let mut x = d.clone();
            for _ in 0..4 {
                x = x.apply_transformation(&t);
            }
            check!(2311 "four quarter turns solve the cube again", x == d);
        }
    }
}
