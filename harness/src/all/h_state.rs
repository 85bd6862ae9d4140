//! Harnesses over equality, copies, buffers, single entries and memory.
use super::h_alg::Rec;
use super::refalg as r;
use super::refalg::{Pre, N};
use super::h_alg::far;
use super::refpuz::*;
use super::rt::*;
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use std::hash::Hash;

fn hash_of<X: Hash>(x: &X) -> Vec<u8> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}
fn some_orbits() -> Vec<Orbit> {
    match pick(4) {
        0 => vec![orbit("A", 3, 3), orbit("B", 2, 2)],
        1 => vec![orbit("A", 0, 2), orbit("B", 2, 4)],
        2 => vec![orbit("A", 1, 6), orbit("B", 2, 1), orbit("C", 1, 107)],
        _ => vec![orbit("A", 4, 12)],
    }
}
/// A puzzle whose pieces do not fit into 256 bytes, and one of many orbits.
fn wide_orbits() -> Vec<Orbit> {
    match pick(4) {
        0 => vec![orbit("A", 255, 2)],
        1 => vec![orbit("A", 130, 3), orbit("B", 200, 4), orbit("C", 3, 2)],
        2 => vec![orbit("A", 60, 12), orbit("B", 24, 107), orbit("C", 40, 1)],
        _ => vec![orbit("A", 1, 2), orbit("B", 2, 3), orbit("C", 3, 4), orbit("D", 4, 5), orbit("E", 5, 6), orbit("F", 6, 7), orbit("G", 0, 9), orbit("H", 8, 1), orbit("I", 129, 2)],
    }
}
/// A fixed permutation (one of a few) with some arbitrary orientation changes.
fn wide_t(os: &[Orbit], which: usize, free: usize) -> Vec<T> {
    let total: usize = os.iter().map(|o| o.p as usize).sum();
    let step = (total / free).max(1);
    let mut at = which;
    os.iter()
        .map(|o| {
            let p = o.p as usize;
            let mut mul = [1, 7, 11, 13][which % 4];
            while p > 0 && gcd(mul, p) != 1 {
                mul += 2;
            }
            let mut t = T { perm: vec![], d: vec![] };
            for i in 0..p {
                t.perm.push(((i * mul + which * 5 + 1) % p) as u8);
                t.d.push(if at % step == 0 { below(o.n as usize) } else { ((i * 3 + which) % o.n as usize) as u8 });
                at += 1;
            }
            t
        })
        .collect()
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn wide_q(os: &[Orbit], free: usize) -> Vec<Q> {
    let total: usize = os.iter().map(|o| o.p as usize).sum();
    let step = (total / free).max(1);
    let mut at = 0;
    os.iter()
        .map(|o| {
            let mut q = Q { pieces: vec![], o: vec![], m: vec![] };
            for i in 0..o.p as usize {
                let m = if i % 3 == 0 && o.n % 2 == 0 { 2 } else { 0 };
                let lim = if m == 0 { o.n } else { m };
                if at % step == 0 {
                    q.pieces.push(any_u8());
                    q.o.push(below(lim as usize));
                } else {
                    q.pieces.push((i * 5 % 256) as u8);
                    q.o.push((i % lim as usize) as u8);
                }
                q.m.push(m);
                at += 1;
            }
            q
        })
        .collect()
}
fn wide_free() -> usize {
    if thorough() {
        24
    } else {
        10
    }
}
/// (Products whose parts meet are harder.)
fn wide_few() -> usize {
    if thorough() { 18 } else { 10 }
}
fn must_panic() {
    expect_panic(true);
}
/// Things that can be done to a pattern or transformation, with any values that are out of range.
fn bad_call(k: &KPuzzle, os: &[Orbit], what: usize) {
    let at = pick(os.len());
    let (info, o) = (k.orbit_info_iter().nth(at).unwrap(), &os[at]);
    let i = any_u8();
    let v = any_u8();
    let mut p = k.default_pattern();
    let mut t = k.identity_transformation();
    match what {
        0 => {
            assume(i >= o.p);
            must_panic();
            p.get_piece(info, i);
        }
        1 => {
            assume(i >= o.p);
            must_panic();
            p.get_orientation_with_mod(info, i);
        }
        2 => {
            assume(i >= o.p);
            must_panic();
            p.set_piece(info, i, v);
        }
        3 => {
            assume(i >= o.p);
            must_panic();
            p.set_orientation_with_mod(info, i, &OrientationWithMod { orientation: 0, orientation_mod: 0 });
        }
        4 => {
            assume(i < o.p);
            let m = any_u8();
            let mut valid = (m == 0) & (v < o.n);
            for k in 1..=o.n {
                if o.n % k == 0 {
                    valid |= (m == k) & (v < k);
                }
            }
            assume(!valid);
            must_panic();
            p.set_orientation_with_mod(info, i, &OrientationWithMod { orientation: v, orientation_mod: m });
        }
        5 => {
            assume(i >= o.p);
            must_panic();
            t.get_permutation_idx(info, i);
        }
        6 => {
            assume(i >= o.p);
            must_panic();
            t.get_orientation_delta(info, i);
        }
        7 => {
            assume((i >= o.p) | (v >= o.p));
            must_panic();
            t.set_permutation_idx(info, i, v);
        }
        _ => {
            assume((i >= o.p) | (v >= o.n));
            must_panic();
            t.set_orientation_delta(info, i, v);
        }
    }
    check!(2101 "what is out of range is refused", false);
}

harnesses! {
    // --- equality, hashing and copies
    fn h_eq_pattern() {
        let os = some_orbits();
        let k = puzzle(&os);
        let (a, b) = (any_qs(&os), any_qs(&os));
        let (p, q) = (set_q(&k, &a), set_q(&k, &b));
        let e = eq_q(&a, &b, &os);
        cover(1);
        check!(1901 "patterns are equal exactly when pieces and orientations are", (p == q) == e);
        check!(1902 "equal patterns hash equally", !e | same(&hash_of(&p), &hash_of(&q)));
        check!(1903 "equality is symmetric", (p == q) == (q == p));
    }
    fn h_eq_transformation() {
        let os = some_orbits();
        let k = puzzle(&os);
        let (a, b) = (any_ts(&os), any_ts(&os));
        let (p, q) = (set_t(&k, &a), set_t(&k, &b));
        cover(1);
        check!(1904 "transformations are equal exactly when permutations and orientation changes are", (p == q) == eq_t(&a, &b));
        check!(1905 "equality is symmetric", (p == q) == (q == p));
    }
    fn h_eq_paths() {
        // equal values may be made in different ways
        let n = [3, 4, 12][pick(if thorough() { 3 } else { 2 })];
        let os = [orbit("A", if thorough() && n < 12 { 3 } else { 2 }, n)];
        let k = puzzle(&os);
        let (t, q) = (vec![any_t_split(os[0].p, os[0].n)], any_qs(&os));
        let (mut q, mut t) = (q, t);
        for m in q[0].m.iter_mut().chain(t[0].d.iter_mut().take(1)) {
            *m = fix(*m as u64) as u8;
        }
        let p = set_q(&k, &q);
        let a = set_t(&k, &t);
        let x = p.apply_transformation(&a);
        let y = set_q(&k, &acts(&q, &t, &os));
        let z = KPattern::try_from_data(&k, &x.to_data()).unwrap();
        cover(1);
        check!(1906 "a pattern equals the same one made otherwise", (x == y) & (x == z));
        check!(1907 "and hashes like it", same(&hash_of(&x), &hash_of(&y)) & same(&hash_of(&x), &hash_of(&z)));
        let u = a.apply_transformation(&a);
        let v = set_t(&k, &muls(&t, &t, &os));
        let w = KTransformation::try_from_data(&k, &u.to_data()).unwrap();
        check!(1908 "a transformation equals the same one made otherwise", (u == v) & (u == w));
        // the same puzzle, loaded once more
        let l = puzzle(&os);
        let r = set_q(&l, &acts(&q, &t, &os));
        check!(1921 "a pattern of the same puzzle, loaded again, is equal and hashes equally", (x == r) & (r == x) & same(&hash_of(&x), &hash_of(&r)));
        let c = set_t(&l, &muls(&t, &t, &os));
        check!(1922 "a transformation of the same puzzle, loaded again, is equal", (u == c) & (c == u));
        let (mut q2, mut t2) = (acts(&q, &t, &os), muls(&t, &t, &os));
        q2[0].pieces[1] = any_u8();
        let d = &mut t2[0].d;
        d[0] = below(n as usize);
        let (r2, c2) = (set_q(&l, &q2), set_t(&l, &t2));
        check!(1923 "another pattern of the same puzzle, loaded again, is not equal", (x == r2) == (q2[0].pieces[1] == acts(&q, &t, &os)[0].pieces[1]));
        check!(1924 "another transformation of the same puzzle, loaded again, is not equal", (u == c2) == eq_t(&t2, &muls(&t, &t, &os)));
    }
    fn h_clone() {
        // a copy and its original do not affect each other
        let os = some_orbits();
        let k = puzzle(&os);
        let which = pick(os.len());
        let info = k.orbit_info_iter().nth(which).unwrap();
        let o = &os[which];
        assume(o.p > 0);
        let i = pick(o.p as usize);
        let second = pick(2) == 1;
        if pick(2) == 0 {
            let q = any_qs(&os);
            let mut a = set_q(&k, &q);
            let mut b = a.clone();
            check!(1909 "a copy is equal", (a == b) & eq_q(&get_q(&b), &q, &os) & same(&hash_of(&a), &hash_of(&b)));
            let (v, (x, m)) = (any_u8(), any_o(o.n));
            let mut w = q.clone();
            w[which].pieces[i] = v;
            w[which].o[i] = x;
            w[which].m[i] = m;
            let c = if second { &mut b } else { &mut a };
            c.set_piece(info, i as u8, v);
            c.set_orientation_with_mod(info, i as u8, &OrientationWithMod { orientation: x, orientation_mod: m });
            let (c, d) = if second { (&b, &a) } else { (&a, &b) };
            cover(1);
            check!(1910 "changing one of two copies changes it", eq_q(&get_q(c), &w, &os));
            check!(1911 "changing one of two copies leaves the other alone", eq_q(&get_q(d), &q, &os));
            let e: KPattern = d.into();
            check!(1912 "a copy can be made of a reference", e == *d);
        } else {
            let t = any_ts(&os);
            let mut a = set_t(&k, &t);
            let mut b = a.clone();
            check!(1913 "a copy is equal", (a == b) & eq_t(&get_t(&b), &t));
            let (v, x) = (below(o.p as usize), below(o.n as usize));
            let mut w = t.clone();
            w[which].perm[i] = v;
            w[which].d[i] = x;
            let c = if second { &mut b } else { &mut a };
            c.set_permutation_idx(info, i as u8, v);
            c.set_orientation_delta(info, i as u8, x);
            let (c, d) = if second { (&b, &a) } else { (&a, &b) };
            cover(2);
            check!(1914 "changing one of two copies changes it", eq_t(&get_t(c), &w));
            check!(1915 "changing one of two copies leaves the other alone", eq_t(&get_t(d), &t));
        }
    }
    fn h_eq_wide() {
        let os = wide_orbits();
        let k = puzzle(&os);
        let f = wide_free();
        let (a, b) = (wide_q(&os, f), wide_q(&os, f));
        let (p, q) = (set_q(&k, &a), set_q(&k, &b));
        let e = eq_q(&a, &b, &os);
        cover(1);
        check!(1916 "patterns of many pieces are equal exactly when pieces and orientations are", (p == q) == e);
        check!(1917 "equal patterns of many pieces hash equally", !e | same(&hash_of(&p), &hash_of(&q)));
        let c = p.clone();
        check!(1918 "a copy of many pieces has all of them", eq_q(&get_q(&c), &a, &os) & (c == p));
        let (a, b) = (wide_t(&os, 1, f), wide_t(&os, 1, f));
        let (t, u) = (set_t(&k, &a), set_t(&k, &b));
        check!(1919 "transformations of many pieces are equal exactly when they do the same", (t == u) == eq_t(&a, &b));
        check!(1920 "a copy of many pieces has all of them", eq_t(&get_t(&t.clone()), &a));
    }

    // --- buffers
    fn h_buffer_pattern() {
        let os = vec![orbit("A", 3, 4), orbit("B", 2, 3)];
        let k = puzzle(&os);
        let q = any_qs(&os[..1]).into_iter().chain(solved(&os[1..])).collect::<Vec<_>>();
        let mut ts = vec![
            vec![T { perm: vec![1, 2, 0], d: vec![below(4), 1, 3] }, T { perm: vec![1, 0], d: vec![0, 1] }],
            vec![T { perm: vec![0, 2, 1], d: vec![2, 0, below(4)] }, T { perm: vec![0, 1], d: vec![2, 0] }],
            // (one that may leave everything alone)
            vec![T { perm: vec![0, 1, 2], d: vec![0, below(4), 0] }, T { perm: vec![0, 1], d: vec![below(3), 0] }],
        ];
        // (and one that takes back the first)
        ts.push(invs(&ts[0], &os));
        let ks: Vec<KTransformation> = ts.iter().map(|t| set_t(&k, t)).collect();
        let p = set_q(&k, &q);
        let mut b = KPatternBuffer::from(p.clone());
        let mut want = q.clone();
        check!(2001 "a buffer starts with the pattern given", eq_q(&get_q(b.current()), &q, &os));
        let n = pick(if thorough() { 6 } else { 5 });
        for _ in 0..n {
            let i = pick(5);
            if i == 4 {
                // asking does not change anything
                let x = b.current().clone();
                check!(2002 "what a buffer holds can be copied", x == *b.current());
                continue;
            }
            b.apply_transformation(&ks[i]);
            want = acts(&want, &ts[i], &os);
            check!(2003 "a buffer holds what was applied, step by step", eq_q(&get_q(b.current()), &want, &os));
        }
        cover(1);
        check!(2004 "the pattern a buffer was made of is left alone", eq_q(&get_q(&p), &q, &os));
        // the same contents, reached in another number of steps
        let c = KPatternBuffer::from(b.current().clone());
        check!(2005 "buffers are equal when they hold the same", c == b && b == c);
        let mut d = KPatternBuffer::from(set_q(&k, &want));
        d.apply_transformation(&ks[0]);
        check!(2006 "buffers are equal exactly when they hold the same", (d == b) == eq_q(&acts(&want, &ts[0], &os), &want, &os));
        d.apply_transformation(&ks[0].invert());
        check!(2007 "a step back makes buffers equal again", d == b);
    }
    fn h_buffer_transformation() {
        let os = vec![orbit("A", 3, 4), orbit("B", 2, 3)];
        let k = puzzle(&os);
        let t0 = any_ts(&os[..1]).into_iter().chain(ids(&os[1..])).collect::<Vec<_>>();
        let mut ts = vec![
            vec![T { perm: vec![1, 2, 0], d: vec![below(4), 1, 3] }, T { perm: vec![1, 0], d: vec![0, 1] }],
            vec![T { perm: vec![0, 2, 1], d: vec![2, 0, below(4)] }, T { perm: vec![0, 1], d: vec![2, 0] }],
            // (one that may leave everything alone)
            vec![T { perm: vec![0, 1, 2], d: vec![0, below(4), 0] }, T { perm: vec![0, 1], d: vec![below(3), 0] }],
        ];
        // (and one that takes back the first)
        ts.push(invs(&ts[0], &os));
        let ks: Vec<KTransformation> = ts.iter().map(|t| set_t(&k, t)).collect();
        let p = set_t(&k, &t0);
        let mut b = KTransformationBuffer::from(p.clone());
        let mut want = t0.clone();
        check!(2008 "a buffer starts with the transformation given", eq_t(&get_t(b.current()), &t0));
        let n = pick(if thorough() { 6 } else { 5 });
        for _ in 0..n {
            let i = pick(5);
            if i == 4 {
                let x = b.current().clone();
                check!(2009 "what a buffer holds can be copied", x == *b.current());
                continue;
            }
            b.apply_transformation(&ks[i]);
            want = muls(&want, &ts[i], &os);
            check!(2010 "a buffer holds what was applied, step by step", eq_t(&get_t(b.current()), &want));
        }
        cover(1);
        check!(2011 "the transformation a buffer was made of is left alone", eq_t(&get_t(&p), &t0));
        let c = KTransformationBuffer::from(b.current().clone());
        check!(2012 "buffers are equal when they hold the same", c == b && b == c);
        let mut d = KTransformationBuffer::from(set_t(&k, &want));
        d.apply_transformation(&ks[0]);
        check!(2013 "buffers are equal exactly when they hold the same", (d == b) == eq_t(&muls(&want, &ts[0], &os), &want));
        d.apply_transformation(&ks[0].invert());
        check!(2014 "a step back makes buffers equal again", d == b);
    }
    fn h_buffer_wide() {
        let os = wide_orbits();
        let k = puzzle(&os);
        let f = 10;
        let (q, t) = (wide_q(&os, f), wide_t(&os, 1, f));
        let kt = set_t(&k, &t);
        let mut b = KPatternBuffer::from(set_q(&k, &q));
        let mut c = KTransformationBuffer::from(k.identity_transformation());
        let (mut w, mut x) = (q, ids(&os));
        cover(1);
        for _ in 0..3 {
            b.apply_transformation(&kt);
            c.apply_transformation(&kt);
            w = acts(&w, &t, &os);
            x = muls(&x, &t, &os);
            check!(2015 "a buffer of many pieces holds what was applied", eq_q(&get_q(b.current()), &w, &os));
            check!(2016 "a buffer of many changes holds what was applied", eq_t(&get_t(c.current()), &x));
        }
    }
    fn h_buffer_long() {
        // many steps, in each of which one of the transformations may be any
        let os = vec![orbit("A", 3, 4), orbit("B", 2, 3)];
        let k = puzzle(&os);
        let mut q = solved(&os);
        q[0].pieces[1] = any_u8();
        let (o, m) = any_o(4);
        q[0].o[0] = o;
        q[0].m[0] = m;
        let ts = [
            vec![T { perm: vec![1, 2, 0], d: vec![3, 1, 3] }, T { perm: vec![1, 0], d: vec![0, 1] }],
            vec![T { perm: vec![0, 2, 1], d: vec![2, 0, 1] }, T { perm: vec![0, 1], d: vec![2, 0] }],
            ids(&os),
        ];
        let ts = [&ts[..], &[invs(&ts[0], &os)]].concat();
        let ks: Vec<KTransformation> = ts.iter().map(|t| set_t(&k, t)).collect();
        let mut b = KPatternBuffer::from(set_q(&k, &q));
        let mut c = KTransformationBuffer::from(ks[0].clone());
        let (mut w, mut x) = (q.clone(), ts[0].clone());
        let kind = pick(6);
        cover(1);
        for step in 0..far(&[140]) {
            let i = match kind {
                3 => step % 2,
                4 => [0, 3, 3, 0, 1][step % 5],
                5 => [3, 0, 1][step % 3],
                _ => [kind, 1, kind][step % 3],
            };
            b.apply_transformation(&ks[i]);
            c.apply_transformation(&ks[i]);
            w = acts(&w, &ts[i], &os);
            x = muls(&x, &ts[i], &os);
            check!(2017 "a buffer holds what was applied in many steps", eq_q(&get_q(b.current()), &w, &os));
            check!(2018 "a buffer of transformations holds what was applied in many steps", eq_t(&get_t(c.current()), &x));
        }
        check!(2019 "buffers with the same contents are equal after many steps", b == KPatternBuffer::from(set_q(&k, &w)));
        check!(2020 "also for transformations", c == KTransformationBuffer::from(set_t(&k, &x)));
    }

    // --- single entries
    fn h_set_pattern() {
        // any few writes, each changes its own entry and nothing else
        let os = some_orbits();
        let k = puzzle(&os);
        let mut q = any_qs(&os);
        let mut p = set_q(&k, &q);
        let n = 1 + pick(if thorough() { 3 } else { 2 });
        for _ in 0..n {
            let at = pick(os.len());
            let info = k.orbit_info_iter().nth(at).unwrap();
            assume(os[at].p > 0);
            let i = pick(os[at].p as usize);
            if pick(2) == 0 {
                let v = any_u8();
                p.set_piece(info, i as u8, v);
                q[at].pieces[i] = v;
                check!(2102 "a piece is read as it was written", p.get_piece(info, i as u8) == v);
            } else {
                let (o, m) = any_o(os[at].n);
                p.set_orientation_with_mod(info, i as u8, &OrientationWithMod { orientation: o, orientation_mod: m });
                q[at].o[i] = o;
                q[at].m[i] = m;
            }
        }
        cover(1);
        check!(2103 "writing an entry of a pattern changes that entry only", eq_q(&get_q(&p), &q, &os));
    }
    fn h_set_transformation() {
        let os = some_orbits();
        let k = puzzle(&os);
        let mut t = any_ts(&os);
        let mut a = set_t(&k, &t);
        let n = 1 + pick(if thorough() { 3 } else { 2 });
        for _ in 0..n {
            let at = pick(os.len());
            let info = k.orbit_info_iter().nth(at).unwrap();
            assume(os[at].p > 0);
            let i = pick(os[at].p as usize);
            if pick(2) == 0 {
                let v = below(os[at].p as usize);
                a.set_permutation_idx(info, i as u8, v);
                t[at].perm[i] = v;
            } else {
                let v = below(os[at].n as usize);
                a.set_orientation_delta(info, i as u8, v);
                t[at].d[i] = v;
            }
        }
        cover(1);
        check!(2104 "writing an entry of a transformation changes that entry only", eq_t(&get_t(&a), &t));
    }
    fn h_set_raw() {
        // the unchecked and raw ways to the same entries, used within their conditions
        let os = some_orbits();
        let k = puzzle(&os);
        let at = pick(os.len());
        let info = k.orbit_info_iter().nth(at).unwrap();
        let o = &os[at];
        assume(o.p > 0);
        let i = pick(o.p as usize);
        let j = i as u8;
        let way = pick(3);
        if pick(2) == 0 {
            let mut t = any_ts(&os);
            let mut a = set_t(&k, &t);
            let (v, x) = (below(o.p as usize), below(o.n as usize));
            check!(2112 "the unchecked readers read what the checked ones do", unsafe {
                (a.get_permutation_idx_unchecked(info, j) == t[at].perm[i]) & (a.get_orientation_delta_unchecked(info, j) == t[at].d[i])
            });
            check!(2113 "the raw readers read what the checked ones do", unsafe {
                let r = a.packed_orbit_data();
                (r.get_raw_piece_or_permutation_value(info, j) == t[at].perm[i]) & (r.get_raw_orientation_value(info, j) == t[at].d[i])
            });
            match way {
                0 => unsafe { a.set_permutation_idx_unchecked(info, j, v) },
                1 => unsafe { a.set_orientation_delta_unchecked(info, j, x) },
                _ => unsafe {
                    let r = a.packed_orbit_data_mut();
                    r.set_raw_piece_or_permutation_value(info, j, v);
                    r.set_raw_orientation_value(info, j, x);
                },
            }
            if way != 1 {
                t[at].perm[i] = v;
            }
            if way != 0 {
                t[at].d[i] = x;
            }
            cover(1);
            check!(2114 "an unchecked or raw write to a transformation changes its entry only", eq_t(&get_t(&a), &t));
        } else {
            let mut q = any_qs(&os);
            let mut p = set_q(&k, &q);
            let (v, (x, m)) = (any_u8(), any_o(o.n));
            let w = unsafe { *p.get_orientation_with_mod_unchecked(info, j) };
            check!(2115 "the unchecked readers read what the checked ones do", w == *p.get_orientation_with_mod(info, j));
            check!(2116 "the raw reader reads the piece", unsafe { p.packed_orbit_data().get_raw_piece_or_permutation_value(info, j) } == q[at].pieces[i]);
            match way {
                0 => {
                    unsafe { p.set_piece_unchecked(info, j, v) };
                    q[at].pieces[i] = v;
                }
                1 => {
                    unsafe { p.set_orientation_with_mod_unchecked(info, j, &OrientationWithMod { orientation: x, orientation_mod: m }) };
                    q[at].o[i] = x;
                    q[at].m[i] = m;
                }
                _ => unsafe {
                    // as the search programs do it: from one piece of the orbit to another
                    let from = pick(o.p as usize);
                    let r = p.packed_orbit_data_mut();
                    let (a, b) = (r.get_raw_piece_or_permutation_value(info, from as u8), r.get_raw_orientation_value(info, from as u8));
                    r.set_raw_piece_or_permutation_value(info, j, a);
                    r.set_raw_orientation_value(info, j, b);
                    q[at].pieces[i] = q[at].pieces[from];
                    q[at].o[i] = q[at].o[from];
                    q[at].m[i] = q[at].m[from];
                },
            }
            cover(2);
            check!(2117 "an unchecked or raw write to a pattern changes its entry only", eq_q(&get_q(&p), &q, &os));
        }
    }
    fn h_set_wide() {
        // one write anywhere among many pieces
        let os = wide_orbits();
        let k = puzzle(&os);
        let mut q = solved(&os);
        let mut t = ids(&os);
        let (mut p, mut a) = (set_q(&k, &q), set_t(&k, &t));
        let at = pick(os.len());
        let info = k.orbit_info_iter().nth(at).unwrap();
        let o = &os[at];
        assume(o.p > 0);
        let i = pick(o.p as usize);
        let (v, x, y, d) = (any_u8(), below(o.n as usize), below(o.p as usize), below(o.n as usize));
        p.set_piece(info, i as u8, v);
        p.set_orientation_with_mod(info, i as u8, &OrientationWithMod { orientation: x, orientation_mod: 0 });
        q[at].pieces[i] = v;
        q[at].o[i] = x;
        a.set_permutation_idx(info, i as u8, y);
        a.set_orientation_delta(info, i as u8, d);
        t[at].perm[i] = y;
        t[at].d[i] = d;
        cover(1);
        check!(2105 "writing one of many entries of a pattern changes that entry only", eq_q(&get_q(&p), &q, &os));
        check!(2106 "writing one of many entries of a transformation changes that entry only", eq_t(&get_t(&a), &t));
        check!(2107 "entries of many are read as they were written", (p.get_piece(info, i as u8) == v) & (a.get_permutation_idx(info, i as u8) == y));
    }
    fn h_out_of_range() {
        let os = match pick(3) {
            0 => vec![orbit("A", 3, 4), orbit("B", 2, 3)],
            1 => vec![orbit("A", 0, 2), orbit("B", 255, 1)],
            _ => vec![orbit("A", 5, 107)],
        };
        let k = puzzle(&os);
        cover(1);
        bad_call(&k, &os, pick(9));
    }
    fn h_orbits() {
        // orbits are told in the order of the definition, and found by name exactly
        let os = match pick(2) {
            0 => vec![orbit("A", 3, 4), orbit("Ab", 2, 3), orbit("", 1, 1)],
            _ => vec![orbit("B", 1, 2), orbit("A", 2, 107)],
        };
        let k = puzzle(&os);
        let mut n = 0;
        let mut ok = true;
        for (x, o) in k.orbit_info_iter().zip(&os) {
            n += 1;
            ok &= x.name.0 == o.name && x.num_pieces == o.p && x.num_orientations == o.n;
        }
        check!(2108 "orbits are told in the order of the definition", ok && n == os.len() && k.orbit_info_iter().count() == n);
        let b = any_bytes(2);
        for x in &b {
            assume(*x < 128);
        }
        let t = String::from_utf8(b).unwrap();
        let got = k.lookup_orbit(&KPuzzleOrbitName(t.clone()));
        let want = os.iter().find(|o| o.name == t);
        match (got, want) {
            (Some(x), Some(o)) => {
                cover(1);
                check!(2109 "an orbit is found by its name", x.name.0 == o.name && x.num_pieces == o.p && x.num_orientations == o.n);
            }
            (None, None) => cover(2),
            _ => check!(2110 "an orbit is found exactly when there is one of the name", false),
        }
        let c: KPuzzle = (&k).into();
        check!(2111 "a copy of a puzzle is the same puzzle", std::ptr::eq(c.definition(), k.definition()) && c.orbit_info_iter().count() == n);
    }

    // --- memory
    fn h_bad_wide() {
        // one entry of the data of a puzzle with many pieces is any other, or missing
        let os = wide_orbits();
        let k = puzzle(&os);
        let (mut t, mut q) = (wide_t(&os, 1, 1), wide_q(&os, 1));
        let i = pick(os.len());
        let o = &os[i];
        let p = o.p as usize;
        assume(p > 0);
        let place = [0, p / 2, p - 1, 63, 64, 127, 128][pick(7)];
        assume(place < p);
        let what = pick(7);
        let v = if what == 0 { fix(any_u8() as u64) as u8 } else { any_u8() };
        let (x, y) = (&mut t[i], &mut q[i]);
        let mut valid = true;
        match what {
            0 => {
                valid = v == x.perm[place];
                x.perm[place] = v;
            }
            1 => {
                valid = v < o.n;
                x.d[place] = v;
            }
            2 => y.pieces[place] = v,
            3 => {
                valid = v < if y.m[place] == 0 { o.n } else { y.m[place] };
                y.o[place] = v;
            }
            4 => {
                valid = (v == 0) & (y.o[place] < o.n);
                for f in 1..=o.n {
                    if o.n % f == 0 {
                        valid |= (v == f) & (y.o[place] < f);
                    }
                }
                y.m[place] = v;
            }
            _ => {}
        }
        let (mut a, mut b) = (t_data(&os, &t), q_data(&os, &q));
        match what {
            5 => {
                valid = false;
                let name = KPuzzleOrbitName(o.name.to_owned());
                let (x, y) = (a.get_mut(&name).unwrap(), b.get_mut(&name).unwrap());
                match pick(5) {
                    0 => x.permutation.truncate(p - 1),
                    1 => x.orientation_delta.truncate(p - 1),
                    2 => y.pieces.truncate(p - 1),
                    3 => y.orientation.truncate(p - 1),
                    _ => y.orientation_mod.as_mut().unwrap().truncate(p - 1),
                }
            }
            6 => {
                valid = false;
                let name = KPuzzleOrbitName(o.name.to_owned());
                if pick(2) == 0 {
                    a.remove(&name);
                } else {
                    b.remove(&name);
                }
            }
            _ => {}
        }
        match (KTransformation::try_from_data(&k, &a), KPattern::try_from_data(&k, &b)) {
            (Ok(x), Ok(y)) => {
                cover(1);
                check!(1890 "data of many pieces that has a wrong entry is refused", valid);
                check!(1891 "data of many pieces is loaded as it is", eq_t(&get_t(&x), &t) & eq_q(&get_q(&y), &q, &os));
            }
            (x, y) => {
                cover(2);
                check!(1892 "good data of many pieces is accepted", !valid);
                check!(1893 "the other value is accepted", x.is_ok() | y.is_ok());
                for e in [x.err(), y.err()].into_iter().flatten() {
                    check!(1894 "an error has a text", !e.to_string().is_empty());
                }
            }
        }
    }
    fn h_memory() {
        // whatever is done, in whatever order it is given up: nothing is left, nothing is used after
        let base = live_heap();
        {
            let os = match pick(4) {
                0 => vec![orbit("A", 2, 2)],
                1 => vec![],
                2 => vec![orbit("A", 0, 3), orbit("B", 0, 1)],
                _ => vec![orbit("A", 3, 2), orbit("B", 0, 4), orbit("C", 1, 3), orbit("D", 2, 1)],
            };
            let t = os.iter().map(|o| T { perm: id(o.p).perm, d: (0..o.p).map(|_| below(o.n as usize)).collect() }).collect::<Vec<_>>();
            let m = r::to_move(&N::Move(Pre::One(2), b"R".to_vec(), 1));
            let mut k = Some(KPuzzle::try_new(def(&os, vec![(m.clone(), t.clone())], None)).unwrap());
            let kk = k.clone().unwrap();
            let mut ts = vec![kk.identity_transformation(), kk.transformation_from_move(&m).unwrap()];
            let mut ps = vec![kk.default_pattern()];
            drop(kk);
            let n = if thorough() { 5 } else { 4 };
            for _ in 0..n {
                match pick(9) {
                    0 => { let x = ts[0].apply_transformation(&ts[ts.len() - 1]); ts.push(x); }
                    1 => { let x = ts[ts.len() - 1].invert(); ts.push(x); }
                    2 => { if !ps.is_empty() { let x = ps[ps.len() - 1].apply_transformation(&ts[0]); ps.push(x); } }
                    3 => { if ts.len() > 1 { ts.remove(0); } }
                    4 => { if !ps.is_empty() { ps.pop(); } }
                    5 => { k = None; }
                    6 => {
                        if !ps.is_empty() {
                            let mut b = KPatternBuffer::from(ps[0].clone());
                            b.apply_transformation(&ts[0]);
                            b.apply_transformation(&ts[ts.len() - 1]);
                            ps.push(b.current().clone());
                        }
                    }
                    7 => {
                        if let Some(k) = &k {
                            let a: Alg = "(2R 2R')2 [2R: 2R3]".parse().unwrap();
                            ts.push(k.transformation_from_alg(&a).unwrap());
                        }
                    }
                    _ => {
                        let x = ts[0].kpuzzle().clone();
                        if !ps.is_empty() {
                            let y = ps[0].apply_move(&m).unwrap();
                            ps[0] = y;
                        }
                        k = Some(x);
                    }
                }
            }
            cover(1);
            let written = |os: &[Orbit], t: &[T]| t.iter().zip(os).all(|(t, o)| (0..o.p as usize).fold(true, |b, i| b & (t.perm[i] < o.p) & (t.d[i] < o.n)));
            check!(2206 "every entry of a transformation was written", ts.iter().fold(true, |b, t| b & written(&os, &get_t(t))));
            check!(2207 "every entry of a pattern was written", ps.iter().fold(true, |b, p| b & get_q(p).iter().zip(&os).fold(true, |b, (q, o)| (0..o.p as usize).fold(b, |b, i| b & (q.pieces[i] < o.p) & (q.o[i] < o.n)))));
            if pick(2) == 0 {
                drop(ts);
                drop(k);
            } else {
                drop(k);
                drop(ps.pop());
            }
        }
        check!(2201 "everything allocated is freed when nothing refers to it any more", live_heap() == base);
    }
    fn h_memory_bad() {
        // loads that fail half-way leave nothing
        let os = [orbit("A", 2, 3), orbit("B", 1, 2)];
        let k = puzzle(&os);
        let base = live_heap();
        {
            let mut d = KTransformationData::new();
            let mut q = KPatternData::new();
            let missing = pick(3);
            for (i, o) in os.iter().enumerate() {
                if i != missing {
                    let n = KPuzzleOrbitName(o.name.to_owned());
                    let (a, b) = (bytes_n(o.p as usize), bytes_n(pick(o.p as usize + 2)));
                    d.insert(n.clone(), KTransformationOrbitData { permutation: a.clone(), orientation_delta: b.clone() });
                    q.insert(n, KPatternOrbitData { pieces: b, orientation: a.clone(), orientation_mod: if pick(2) == 0 { None } else { Some(a) } });
                }
            }
            match (KTransformation::try_from_data(&k, &d).is_ok(), KPattern::try_from_data(&k, &q).is_ok()) {
                (false, false) => cover(1),
                _ => cover(2),
            }
            let t = [&b"{\"A\":{\"permutation\":[0,1],\"orientationDelta\":[0]}}"[..], b"{\"A\":{\"permutation\":[0,1]", b"[]", b"{\"A\":3}"][pick(4)];
            check!(2202 "bad JSON is refused", KTransformation::try_from_json(&k, t).is_err() && KPattern::try_from_json(&k, t).is_err() && KPuzzle::try_from_json(t).is_err());
            // definitions that are refused at each stage
            let mut f = def(&os, vec![], None);
            let mv = r::to_move(&N::Move(Pre::No, b"R".to_vec(), 1));
            match pick(4) {
                0 => f.orbits[1].num_orientations = [0, 108, 255][pick(3)],
                1 => { f.moves.insert(mv, KTransformationData::new()); }
                2 => f.derived_moves = Some([(mv.clone(), Alg { nodes: vec![mv.into()] })].into_iter().collect()),
                _ => { f.moves.insert(mv, d); }
            }
            let _ = KPuzzle::try_new(f);
        }
        check!(2203 "a load that fails leaves nothing allocated", live_heap() == base);
    }
    fn h_memory_wide() {
        let base = live_heap();
        {
            let os = wide_orbits();
            let k = puzzle(&os);
            let t = wide_t(&os, 2, wide_free());
            let a = set_t(&k, &t);
            let b = a.clone();
            drop(k);
            cover(1);
            let c = if pick(2) == 0 { drop(a); b.invert() } else { a.apply_transformation(&b) };
            let p = c.kpuzzle().default_pattern();
            drop(c);
            let q = p.apply_transformation(&b);
            drop(b);
            drop(p);
            check!(2204 "a pattern outlives what it was made of", get_q(&q).len() == os.len());
        }
        check!(2205 "everything allocated for many pieces is freed", live_heap() == base);
    }

    // --- many pieces, many orbits
    fn h_wide_group() {
        let os = wide_orbits();
        let k = puzzle(&os);
        let f = wide_free();
        let (ta, tb) = (wide_t(&os, 1, f), wide_t(&os, 2, f));
        let (a, b) = (set_t(&k, &ta), set_t(&k, &tb));
        let e = k.identity_transformation();
        cover(1);
        check!(1010 "the identity of many pieces leaves every piece as it is", eq_t(&get_t(&e), &ids(&os)));
        check!(1011 "the identity of many pieces is neutral", (a.apply_transformation(&e) == a) & (e.apply_transformation(&a) == a));
        let ab = a.apply_transformation(&b);
        let i = ab.invert();
        check!(1012 "many pieces are sent back by the inverse", (ab.apply_transformation(&i) == e) & (i.apply_transformation(&ab) == e));
        check!(1013 "the inverse of a composition is that of its parts in reverse", i == b.invert().apply_transformation(&a.invert()));
        check!(1014 "composing many pieces is associative", ab.apply_transformation(&a) == a.apply_transformation(&b.apply_transformation(&a)));
    }
    fn h_wide_action() {
        let os = wide_orbits();
        let k = puzzle(&os);
        let f = wide_few();
        let (q, ta, tb) = (wide_q(&os, f), wide_t(&os, 1, f), wide_t(&os, 3, f));
        let (p, a, b) = (set_q(&k, &q), set_t(&k, &ta), set_t(&k, &tb));
        cover(1);
        check!(1104 "many pieces: p a b is p (a b)", p.apply_transformation(&a).apply_transformation(&b) == p.apply_transformation(&a.apply_transformation(&b)));
        check!(1105 "many pieces: p a a' is p", p.apply_transformation(&a).apply_transformation(&a.invert()) == p);
        check!(1106 "many pieces: p 1 is p", p.apply_transformation(&k.identity_transformation()) == p);
    }
    fn h_wide_ref() {
        let os = wide_orbits();
        let k = puzzle(&os);
        let f = wide_few();
        let (q, ta, tb) = (wide_q(&os, f), wide_t(&os, 1, f), wide_t(&os, 2, f));
        let (p, a, b) = (set_q(&k, &q), set_t(&k, &ta), set_t(&k, &tb));
        cover(1);
        check!(1208 "a pattern of many pieces is moved as defined", eq_q(&get_q(&p.apply_transformation(&a)), &acts(&q, &ta, &os), &os));
        check!(1209 "a then b moves each of many pieces as defined", eq_t(&get_t(&a.apply_transformation(&b)), &muls(&ta, &tb, &os)));
        check!(1210 "the inverse sends each of many pieces back", eq_t(&get_t(&a.invert()), &invs(&ta, &os)));
        let mut x = p.clone();
        p.apply_transformation_into(&b, &mut x);
        let mut y = a.clone();
        b.apply_transformation_into(&b, &mut y);
        check!(1211 "the in-place forms do the same with many pieces", eq_q(&get_q(&x), &acts(&q, &tb, &os), &os) & eq_t(&get_t(&y), &muls(&tb, &tb, &os)));
        check!(1212 "inputs are left alone", eq_q(&get_q(&p), &q, &os) & eq_t(&get_t(&a), &ta) & eq_t(&get_t(&b), &tb));
    }
    fn h_wide_eval() {
        let os = wide_orbits();
        let f = if thorough() { 6 } else { 3 };
        let (ta, tb) = (wide_t(&os, 1, f), wide_t(&os, 2, f));
        let n = |f: &str, k| N::Move(Pre::No, f.as_bytes().to_vec(), k);
        let ms = vec![(r::to_move(&n("A", 1)), ta.clone()), (r::to_move(&n("B", 1)), tb.clone())];
        let k = KPuzzle::try_new(def(&os, ms, None)).unwrap();
        let v = match pick(4) {
            0 => vec![n("A", 1), n("B", -1), n("A", 2)],
            1 => vec![N::Comm(vec![n("A", 1)], vec![n("B", 1)])],
            2 => vec![N::Conj(vec![n("A", -1)], vec![n("B", 3)])],
            _ => vec![N::Group(vec![n("A", 1), n("B", 1)], -5)],
        };
        let a = r::to_alg(&v);
        // (no number of times is known to give the identity: repetition is spelled out)
        let m = |x: &[T], y: &[T]| muls(x, y, &os);
        let i = |x: &[T]| invs(x, &os);
        let want = match &v[0] {
            N::Comm(..) => m(&m(&ta, &tb), &m(&i(&ta), &i(&tb))),
            N::Conj(..) => m(&m(&i(&ta), &m(&tb, &m(&tb, &tb))), &ta),
            N::Group(..) => {
                let x = i(&m(&ta, &tb));
                let y = m(&x, &x);
                m(&m(&y, &y), &x)
            }
            _ => m(&m(&ta, &i(&tb)), &m(&ta, &ta)),
        };
        cover(1);
        match k.transformation_from_alg(&a) {
            Err(_) => check!(1416 "an alg on many pieces can be done", false),
            Ok(t) => check!(1417 "an alg on many pieces does what its parts do", eq_t(&get_t(&t), &want)),
        }
        match k.default_pattern().apply_alg(&a) {
            Err(_) => check!(1418 "an alg on many pieces can be applied", false),
            Ok(q) => check!(1419 "an alg applied to many pieces does what its parts do", eq_q(&get_q(&q), &acts(&solved(&os), &want, &os), &os)),
        }
    }
    fn h_wide_data() {
        let os = wide_orbits();
        let k = puzzle(&os);
        let f = wide_free();
        let (q, t) = (wide_q(&os, f), wide_t(&os, 1, f));
        let (p, a) = (set_q(&k, &q), set_t(&k, &t));
        cover(1);
        match (KTransformation::try_from_data(&k, &a.to_data()), KPattern::try_from_data(&k, &p.to_data())) {
            (Ok(b), Ok(r)) => check!(1739 "the data of many pieces gives them back", eq_t(&get_t(&b), &t) & eq_q(&get_q(&r), &q, &os) & (a == b) & (p == r)),
            _ => check!(1740 "the data of many pieces is accepted", false),
        }
        match (KTransformation::try_from_data(&k, &t_data(&os, &t)), KPattern::try_from_data(&k, &q_data(&os, &q))) {
            (Ok(b), Ok(r)) => check!(1741 "many pieces are what their data says", eq_t(&get_t(&b), &t) & eq_q(&get_q(&r), &q, &os)),
            _ => check!(1742 "data of many pieces is accepted", false),
        }
    }
}
