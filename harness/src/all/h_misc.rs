//! Harnesses over string forms in serialized data, the alg builder, and equality.
use super::h_alg::{any_foreign_text, any_text, any_tree, far, Rec};
use super::refalg as r;
use super::refalg::{Pre, N};
use super::rt::*;
use cubing_core::alg::*;
use serde_json::Value;
use std::hash::{Hash, Hasher};

/// An error without a message, so that no text needs to be put into one.
#[derive(Debug)]
struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl serde::de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> E {
        E
    }
}
/// A string handed over in each of the ways a format can do it: as a `&str`, as a
/// borrowed `&str`, as a `String`; the readings, if it was accepted.
fn read<'a, X: serde::Deserialize<'a>>(t: &'a str) -> [Option<X>; 3] {
    use serde::de::value::{BorrowedStrDeserializer, StrDeserializer, StringDeserializer};
    use serde::de::IntoDeserializer;
    let a: StrDeserializer<E> = t.into_deserializer();
    let b: BorrowedStrDeserializer<E> = BorrowedStrDeserializer::new(t);
    let c: StringDeserializer<E> = t.to_owned().into_deserializer();
    [X::deserialize(a).ok(), X::deserialize(b).ok(), X::deserialize(c).ok()]
}
fn string_of(v: &Value) -> &str {
    match v {
        Value::String(s) => s,
        _ => "not a string",
    }
}
/// The keys of a JSON object, read as moves.
struct Keys(Vec<Move>);
impl<'de> serde::Deserialize<'de> for Keys {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Keys, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Keys;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("an object")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Keys, A::Error> {
                let mut v = vec![];
                while let Some(k) = a.next_key::<Move>()? {
                    let _: u8 = a.next_value()?;
                    v.push(k);
                }
                Ok(Keys(v))
            }
        }
        d.deserialize_map(V)
    }
}
fn hash_of<X: Hash>(x: &X) -> Vec<u8> {
    let mut h = Rec::default();
    x.hash(&mut h);
    h.0
}
fn small_amount() -> i32 {
    any_u8() as i8 as i32
}
fn small_layer() -> u32 {
    // the high bits matter as much as the low ones
    [0u32, 256, 0x8000_0000][pick(3)] | any_u8() as u32
}
fn small_prefix() -> Pre {
    match pick(3) {
        0 => Pre::No,
        1 => Pre::One(small_layer()),
        _ => Pre::Two(small_layer(), any_u8() as u32),
    }
}
fn letters(max: usize) -> Vec<u8> {
    let n = 1 + pick(max);
    (0..n)
        .map(|_| {
            let c = any_u8();
            assume(((c | 32).wrapping_sub(b'a') < 26) | (c == b'_'));
            c
        })
        .collect()
}

harnesses! {
    // --- algs, moves and quantum moves in serialized data are their text
    fn h_serde_alg() {
        let n = if thorough() { 5 } else { 4 };
        if let Some(t) = any_text(n) {
            let x = read::<Alg>(&t);
            match t.parse::<Alg>() {
                Err(_) => {
                    cover(1);
                    check!(501 "a string that is no alg is refused", x.iter().all(|x| x.is_none()));
                }
                Ok(a) => {
                    cover(2);
                    for x in x {
                      match x {
                        None => check!(502 "a string that is an alg is accepted", false),
                        Some(x) => check!(503 "a string is read as the alg it is the text of", r::eqs(&r::of_alg(&x), &r::of_alg(&a))),
                      }
                    }
                    check!(504 "an alg is written as its text", string_of(&serde_json::to_value(&a).unwrap()) == a.to_string());
                }
            }
        }
    }
    fn h_serde_move() {
        let n = if thorough() { 6 } else { 5 };
        if let Some(t) = any_text(n) {
            let x = read::<Move>(&t);
            let o = serde::de::value::MapDeserializer::<_, E>::new([(t.as_str(), 1u8)].into_iter());
            let k = <Keys as serde::Deserialize>::deserialize(o).ok();
            match t.parse::<Move>() {
                Err(_) => {
                    cover(1);
                    check!(505 "a string that is no move is refused", x.iter().all(|x| x.is_none()));
                    check!(506 "a key that is no move is refused", k.is_none());
                }
                Ok(m) => {
                    cover(2);
                    let w = r::of_move(&m);
                    for x in x {
                        match x {
                            Some(x) => check!(507 "a string is read as the move it is the text of", r::eq(&r::of_move(&x), &w)),
                            None => check!(509 "a string that is a move is accepted", false),
                        }
                    }
                    match k {
                        Some(k) => check!(508 "a key is read as the move it is the text of", k.0.len() == 1 && r::eq(&r::of_move(&k.0[0]), &w)),
                        None => check!(518 "a key that is a move is accepted", false),
                    }
                    check!(510 "a move is written as its text", string_of(&serde_json::to_value(&m).unwrap()) == m.to_string());
                }
            }
        }
    }
    fn h_serde_quantum() {
        let n = if thorough() { 6 } else { 5 };
        if let Some(t) = any_text(n) {
            let x = read::<QuantumMove>(&t);
            match t.parse::<QuantumMove>() {
                Err(_) => {
                    cover(1);
                    check!(511 "a string that is no quantum move is refused", x.iter().all(|x| x.is_none()));
                }
                Ok(m) => {
                    cover(2);
                    for x in x {
                      match x {
                        None => check!(512 "a string that is a quantum move is accepted", false),
                        Some(x) => {
                            let (a, b) = (r::of_quantum(&x), r::of_quantum(&m));
                            check!(513 "a string is read as the quantum move it is the text of", r::eq_pre(&a.0, &b.0) & same(&a.1, &b.1));
                        }
                      }
                    }
                    check!(514 "a quantum move is written as its text", string_of(&serde_json::to_value(&m).unwrap()) == m.to_string());
                }
            }
        }
    }
    fn h_serde_tree() {
        let mut b = if thorough() { 3 } else { 2 };
        let v = any_tree(&mut b, 2);
        let a = r::to_alg(&v);
        let j = serde_json::to_vec(&a).unwrap();
        match serde_json::from_slice::<Alg>(&j) {
            Err(_) => check!(515 "a written alg can be read", false),
            Ok(x) => {
                cover(1);
                check!(516 "an alg written and read is the same alg", r::eqs(&r::norm(&r::of_alg(&x)), &r::norm(&v)));
            }
        }
    }
    fn h_serde_foreign() {
        // text with many characters of more than one byte
        let t = any_foreign_text();
        let (x, m, q) = (read::<Alg>(&t), read::<Move>(&t), read::<QuantumMove>(&t));
        check!(518 "such text is no move", m.iter().all(|x| x.is_none()) && q.iter().all(|x| x.is_none()));
        match t.parse::<Alg>() {
            Err(_) => {
                cover(1);
                check!(519 "such a string that is no alg is refused", x.iter().all(|x| x.is_none()));
            }
            Ok(a) => {
                cover(2);
                check!(520 "such a string is read as the alg it is the text of", x.iter().all(|x| matches!(x, Some(x) if *x == a)));
                let j = serde_json::to_string(&a).unwrap();
                check!(521 "an alg with such comments survives JSON", matches!(serde_json::from_str::<Alg>(&j), Ok(b) if b == a));
            }
        }
        for e in [serde_json::from_str::<Alg>(&t).err(), serde_json::from_str::<Move>(&t).err()].into_iter().flatten() {
            observe(e.to_string().is_empty() as u64);
        }
    }
    fn h_serde_other() {
        // other kinds of JSON, and JSON that is none
        let n = if thorough() { 4 } else { 3 };
        let t = any_bytes(n);
        // (no fractions or exponents: floating point is outside what is explored)
        if t.iter().any(|c| c.is_ascii_digit()) {
            for c in &t {
                assume(*c != b'.' && *c | 32 != b'e');
            }
        }
        let a = serde_json::from_slice::<Alg>(&t);
        let m = serde_json::from_slice::<Move>(&t);
        let q = serde_json::from_slice::<QuantumMove>(&t);
        let string = t.iter().find(|c| !matches!(**c, b' ' | b'\n' | b'\t' | b'\r')) == Some(&b'"');
        if !string {
            cover(1);
            check!(517 "only strings are accepted", a.is_err() & m.is_err() & q.is_err());
        } else if a.is_ok() {
            cover(2);
        }
        for e in [a.err(), m.err(), q.err()].into_iter().flatten() {
            observe(e.to_string().is_empty() as u64);
        }
    }

    // --- the builder concatenates
    fn h_builder() {
        let total = if thorough() { 4 } else { 3 };
        let mut want: Vec<N> = vec![];
        let mut b = match pick(3) {
            0 => AlgBuilder::default(),
            1 => {
                let mut k = 1;
                let v = any_tree(&mut k, 1);
                want.extend_from_slice(&v);
                AlgBuilder::new(Some(&r::to_alg(&v)))
            }
            _ => {
                let v = N::Move(small_prefix(), b"R".to_vec(), small_amount());
                want.push(v.clone());
                AlgBuilder::new(Some(&r::to_node(&v)))
            }
        };
        let mut left = total;
        while left > 0 {
            match pick(4) {
                0 => break,
                1 => {
                    // an alg of up to as many nodes as are left
                    let mut k = left - 1;
                    let v = any_tree(&mut k, 1);
                    left = k;
                    let a = r::to_alg(&v);
                    b.push(&a);
                    check!(601 "a pushed alg is left alone", r::same_alg(&a, &v));
                    want.extend_from_slice(&v);
                }
                2 => {
                    left -= 1;
                    let n = N::Move(Pre::No, b"F".to_vec(), small_amount());
                    let a = r::to_node(&n);
                    b.push(&a);
                    want.push(n);
                }
                _ => {
                    left -= 1;
                    let n = N::Group(vec![N::Move(Pre::No, b"L".to_vec(), small_amount()), N::Pause], small_amount());
                    let a = r::to_node(&n);
                    b.push(&a);
                    want.push(n);
                }
            }
        }
        let a = b.to_alg();
        cover(1);
        check!(602 "the alg is what was pushed, in order", r::same_alg(&a, &want));
    }
    fn h_builder_long() {
        // many pieces, one of them with any amount
        let n = far(&[140]);
        let at = pick(n);
        let one = pick(4);
        let mut want: Vec<N> = vec![];
        let mut b = AlgBuilder::default();
        for i in 0..n {
            let k = if i == at { any_u8() as i8 as i32 } else { i as i32 };
            let m = N::Move(Pre::No, b"R".to_vec(), k);
            let v = match if one < 3 { one } else { i % 3 } {
                0 => vec![m],
                1 => vec![m.clone(), N::Pause, m],
                _ => vec![N::Comm(vec![m], vec![N::Newline])],
            };
            if v.len() == 1 && i % 2 == 0 {
                b.push(&r::to_node(&v[0]));
            } else {
                b.push(&r::to_alg(&v));
            }
            want.extend(v);
            if i % 5 == 4 {
                b.push(&Alg::default());
            }
        }
        let a = b.to_alg();
        cover(1);
        check!(615 "the alg is all that was pushed, in order", r::same_alg(&a, &want));
    }

    // --- equality, hashing and cloning of algs and moves
    fn h_alg_equality() {
        let n = if thorough() { 3 } else { 2 };
        let (mut b, mut c) = (n, n);
        let (v, w) = (any_tree(&mut b, 1), any_tree(&mut c, 1));
        let (x, y) = (r::to_alg(&v), r::to_alg(&w));
        let equal = r::eqs(&v, &w);
        if equal {
            cover(1);
        } else {
            cover(2);
        }
        check!(603 "algs are equal exactly when they consist of the same parts", (x == y) == equal);
        check!(604 "a clone is equal", x.clone() == x);
    }
    fn h_equality_long() {
        // two large values that may differ in one place
        let (x, y) = (any_u8(), any_u8());
        let kind = pick(5);
        let len = if kind < 2 { [24, 31, 17, 9, 70][pick(5)] } else { 24 };
        let at = if kind < 2 && pick(2) == 0 { len - 1 - pick(8) } else { pick(len.min(24)) };
        if kind < 2 {
            assume(x.is_ascii_alphabetic() & y.is_ascii_alphabetic());
        }
        let make = |c: u8| -> Vec<N> {
            let long = || {
                let mut t: Vec<u8> = b"LongFamilyName_with_parts".iter().cycle().take(len).copied().collect();
                t[at] = c;
                t
            };
            match kind {
                0 => vec![N::Move(Pre::One(3), long(), 2)],
                1 => vec![N::Comment(long())],
                2 => (0..24).map(|i| N::Move(Pre::No, b"R".to_vec(), if i == at { c as i32 } else { 1 })).collect(),
                3 => (0..24).map(|i| N::Group(vec![N::Move(Pre::No, b"R".to_vec(), 1)], if i == at { c as i32 - 128 } else { 1 })).collect(),
                _ => {
                    let mut v = vec![N::Move(Pre::No, b"R".to_vec(), c as i8 as i32)];
                    for i in 0..at {
                        let b = vec![N::Move(Pre::No, b"B".to_vec(), 1)];
                        v = vec![[N::Group(v.clone(), 2), N::Comm(v.clone(), b.clone()), N::Conj(b, v)][i % 3].clone()];
                    }
                    v
                }
            }
        };
        let (a, b) = (r::to_alg(&make(x)), r::to_alg(&make(y)));
        let equal = a == b;
        check!(616 "large algs are equal exactly when they agree everywhere", equal == (x == y));
        if let ([AlgNode::MoveNode(m), ..], [AlgNode::MoveNode(n), ..]) = (a.nodes.as_slice(), b.nodes.as_slice()) {
            if m == n {
                check!(617 "equal moves with long names hash equally", same(&hash_of(m), &hash_of(n)));
            }
        }
        if equal {
            cover(1);
        } else {
            cover(2);
        }
        check!(618 "a copy of a large alg is equal to it", a.clone() == a);
    }
    fn h_move_equality() {
        let (pa, fa, na) = (small_prefix(), letters(2), small_amount());
        let (pb, fb, nb) = (small_prefix(), letters(2), small_amount());
        let (v, w) = (N::Move(pa.clone(), fa.clone(), na), N::Move(pb.clone(), fb.clone(), nb));
        let (x, y) = (r::to_move(&v), r::to_move(&w));
        let equal = r::eq(&v, &w);
        let (eq, eqq) = (x == y, x.quantum == y.quantum);
        check!(605 "moves are equal exactly when prefix, family and amount are", eq == equal);
        check!(606 "quantum moves are equal exactly when prefix and family are", eqq == (r::eq_pre(&pa, &pb) & same(&fa, &fb)));
        if eq {
            cover(1);
            check!(607 "equal moves hash equally", same(&hash_of(&x), &hash_of(&y)));
        }
        if eqq {
            cover(2);
            check!(608 "equal quantum moves hash equally", same(&hash_of(&*x.quantum), &hash_of(&*y.quantum)));
        }
        let z = x.clone();
        check!(609 "a clone is the same move", (z == x) & r::same_move(&z, &v));
        let _ = Rec::default().finish();
    }
    fn h_alg_constructors() {
        // the ways to make a move, its prefix and the other nodes
        let (a, b) = (small_layer(), small_layer());
        let l: Option<MovePrefix> = MoveLayer::new(a).into();
        let q = QuantumMove::new("R", l);
        check!(610 "a layer", r::same_quantum(&q, &Pre::One(a), b"R"));
        let l: Option<MovePrefix> = MoveRange::new(a, b).into();
        let q = QuantumMove::new("R".to_owned(), l);
        check!(611 "a range: the outer layer comes first", r::same_quantum(&q, &Pre::Two(a, b), b"R"));
        let q = QuantumMove::new("R", Some(MovePrefix::from((a, b))));
        check!(612 "a range from a pair", r::same_quantum(&q, &Pre::Two(a, b), b"R"));
        let q = QuantumMove::new("R", Some(MovePrefix::from(a)));
        check!(613 "a layer from a number", r::same_quantum(&q, &Pre::One(a), b"R"));
        let m: Move = Move { quantum: std::sync::Arc::new(q), amount: small_amount() };
        let n: AlgNode = m.clone().into();
        cover(1);
        check!(614 "a node made of a move is that move", match &n { AlgNode::MoveNode(x) => *x == m, _ => false });
    }
}
