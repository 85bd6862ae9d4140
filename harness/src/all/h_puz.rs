//! Harnesses over transformations and patterns.
use super::h_alg::Rec;
use super::refpuz::*;
use super::rt::*;
use cubing_core::kpuzzle::*;
use std::hash::Hash;

fn any_n(quick: &[u8], more: &[u8]) -> u8 {
    let k = quick.len() + if thorough() { more.len() } else { 0 };
    let i = pick(k);
    if i < quick.len() {
        quick[i]
    } else {
        more[i - quick.len()]
    }
}
fn hash_of<X: Hash>(x: &X) -> Vec<u8> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}
fn two_orbits() -> Vec<Orbit> {
    match pick(if thorough() { 4 } else { 3 }) {
        0 => vec![orbit("A", 3, 3), orbit("B", 2, 2)],
        1 => vec![orbit("A", 0, 2), orbit("B", 3, 4)],
        2 => vec![orbit("A", 1, 6), orbit("B", 2, 1), orbit("C", 2, 3)],
        _ => vec![orbit("A", 4, 12), orbit("B", 3, 2)],
    }
}

harnesses! {
    // --- transformations form a group
    fn h_group_assoc() {
        let n = any_n(&[1, 2, 3, 107], &[4, 5, 12, 64]);
        let os = [orbit("A", if thorough() { 4 } else { 3 }, n)];
        let k = puzzle(&os);
        let (a, b, c) = (set_t(&k, &any_ts(&os)), set_t(&k, &any_ts(&os)), set_t(&k, &any_ts(&os)));
        let x = a.apply_transformation(&b).apply_transformation(&c);
        let y = a.apply_transformation(&b.apply_transformation(&c));
        cover(1);
        check!(1001 "(a b) c is a (b c)", eq_t(&get_t(&x), &get_t(&y)));
    }
    fn h_group_identity() {
        let n = any_n(&[1, 2, 3, 12, 107], &[4, 5, 64, 100]);
        let os = [orbit("A", if thorough() { 6 } else { 4 }, n)];
        let k = puzzle(&os);
        let e = k.identity_transformation();
        check!(1002 "the identity leaves every piece as it is", eq_t(&get_t(&e), &ids(&os)));
        let t = any_ts(&os);
        let a = set_t(&k, &t);
        cover(1);
        check!(1003 "a 1 is a", eq_t(&get_t(&a.apply_transformation(&e)), &t));
        check!(1004 "1 a is a", eq_t(&get_t(&e.apply_transformation(&a)), &t));
    }
    fn h_group_inverse() {
        let n = any_n(&[1, 2, 3, 12, 107], &[4, 5, 64, 100]);
        let os = [orbit("A", if thorough() { 5 } else { 4 }, n)];
        let k = puzzle(&os);
        let t = any_ts(&os);
        let a = set_t(&k, &t);
        let b = a.invert();
        cover(1);
        check!(1005 "a a' is 1", eq_t(&get_t(&a.apply_transformation(&b)), &ids(&os)));
        check!(1006 "a' a is 1", eq_t(&get_t(&b.apply_transformation(&a)), &ids(&os)));
        check!(1007 "a'' is a", eq_t(&get_t(&b.invert()), &t));
        check!(1008 "inverting leaves the original alone", eq_t(&get_t(&a), &t));
    }
    fn h_group_inverse_product() {
        let n = any_n(&[3], &[2, 12]);
        let os = [orbit("A", 3, n)];
        let k = puzzle(&os);
        let (a, b) = (set_t(&k, &any_ts(&os)), set_t(&k, &any_ts(&os)));
        cover(1);
        let x = a.apply_transformation(&b).invert();
        let y = b.invert().apply_transformation(&a.invert());
        check!(1009 "(a b)' is b' a'", eq_t(&get_t(&x), &get_t(&y)));
    }
    // --- they act on patterns
    fn h_action_compose() {
        let n = any_n(&[1, 2, 3, 4], &[6, 12]);
        let os = [orbit("A", 3, n)];
        let k = puzzle(&os);
        let p = set_q(&k, &any_qs(&os));
        let (a, b) = (set_t(&k, &any_ts(&os)), set_t(&k, &any_ts(&os)));
        cover(1);
        let x = p.apply_transformation(&a).apply_transformation(&b);
        let y = p.apply_transformation(&a.apply_transformation(&b));
        check!(1101 "p a b is p (a b)", eq_q(&get_q(&x), &get_q(&y), &os));
    }
    fn h_action_inverse() {
        let n = any_n(&[1, 2, 3, 4], &[6, 12, 16]);
        let os = [orbit("A", if thorough() { 4 } else { 3 }, n)];
        let k = puzzle(&os);
        let q = any_qs(&os);
        let p = set_q(&k, &q);
        cover(1);
        check!(1102 "p 1 is p", eq_q(&get_q(&p.apply_transformation(&k.identity_transformation())), &q, &os));
        let a = set_t(&k, &any_ts(&os));
        let x = p.apply_transformation(&a).apply_transformation(&a.invert());
        check!(1103 "p a a' is p", eq_q(&get_q(&x), &q, &os));
    }
    // --- what applying does
    fn h_ref_transformation() {
        let os = two_orbits();
        let k = puzzle(&os);
        let (ta, tb) = (any_ts(&os), any_ts(&os));
        let (a, b) = (set_t(&k, &ta), set_t(&k, &tb));
        cover(1);
        check!(1201 "a then b moves every piece as defined", eq_t(&get_t(&a.apply_transformation(&b)), &muls(&ta, &tb, &os)));
        check!(1202 "inputs are left alone", eq_t(&get_t(&a), &ta) & eq_t(&get_t(&b), &tb));
        let mut into = set_t(&k, &tb);
        a.apply_transformation_into(&b, &mut into);
        check!(1203 "the in-place form gives the same, whatever was there", eq_t(&get_t(&into), &muls(&ta, &tb, &os)));
        check!(1204 "the inverse sends every piece back", eq_t(&get_t(&a.invert()), &invs(&ta, &os)));
    }
    fn h_ref_pattern() {
        let os = two_orbits();
        let k = puzzle(&os);
        let (q, t) = (any_qs(&os), any_ts(&os));
        let (p, a) = (set_q(&k, &q), set_t(&k, &t));
        cover(1);
        check!(1205 "a pattern is moved as defined", eq_q(&get_q(&p.apply_transformation(&a)), &acts(&q, &t, &os), &os));
        let mut into = k.default_pattern();
        p.apply_transformation_into(&a, &mut into);
        check!(1206 "the in-place form gives the same", eq_q(&get_q(&into), &acts(&q, &t, &os), &os));
        check!(1207 "the pattern itself is left alone", eq_q(&get_q(&p), &q, &os));
    }
    // --- orientations with their moduli
    fn h_pack() {
        // every supported number of orientations (each on paths of its own)
        let n = pick(107) as u8 + 1;
        let os = [orbit("A", 1, n)];
        let k = puzzle(&os);
        let info = k.orbit_info_iter().next().unwrap();
        let (o, m) = any_o(n);
        let m = fix(m as u64) as u8;
        let md = if m == 0 { n } else { m };
        let mut p = k.default_pattern();
        let w = OrientationWithMod { orientation: o, orientation_mod: m };
        p.set_orientation_with_mod(info, 0, &w);
        let g = p.get_orientation_with_mod(info, 0);
        let same_m = |x: u8| (x == m) | ((x == 0) & (m == n)) | ((x == n) & (m == 0));
        check!(1301 "an orientation is read back as written", (g.orientation == o) & same_m(g.orientation_mod));
        // a turn of any size (or the smallest and the largest, for most `n` in the quick tier)
        let all = thorough() || n < 9 || [12, 24, 60, 105, 107].contains(&n);
        let d = if all || n < 3 { pick(n as usize) as u16 } else { [1, n as u16 - 1][pick(2)] };
        let a = set_t(&k, &[T { perm: vec![0], d: vec![d as u8] }]);
        let r = p.apply_transformation(&a);
        let g = r.get_orientation_with_mod(info, 0);
        cover(1);
        check!(1302 "turning adds up modulo the modulus of the piece", (g.orientation as u16 == (o as u16 + d) % md as u16) & same_m(g.orientation_mod));
    }
    fn h_pack_distinct() {
        // two writings have equal patterns exactly when they mean the same
        let n = any_n(&[1, 2, 3, 4, 6, 12], &[24, 60, 96, 105, 107]);
        let os = [orbit("A", 1, n)];
        let k = puzzle(&os);
        let info = k.orbit_info_iter().next().unwrap();
        let (o1, m1) = any_o(n);
        let (o2, m2) = any_o(n);
        let mut p = k.default_pattern();
        let mut q = k.default_pattern();
        p.set_orientation_with_mod(info, 0, &OrientationWithMod { orientation: o1, orientation_mod: m1 });
        q.set_orientation_with_mod(info, 0, &OrientationWithMod { orientation: o2, orientation_mod: m2 });
        let z = |m: u8| if m == n { 0 } else { m };
        let want = (o1 == o2) & (z(m1) == z(m2));
        cover(1);
        check!(1303 "patterns are equal exactly when orientation and modulus are", (p == q) == want);
    }
}
