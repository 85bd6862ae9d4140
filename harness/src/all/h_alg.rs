//! Harnesses over the alg half of the crate.
use super::refalg as r;
use super::refalg::{Pre, N};
use super::rt::*;
use cubing_core::alg::*;

/// An arbitrary piece of text (valid UTF-8) of at most `max` bytes.
pub fn any_text(max: usize) -> Option<String> {
    String::from_utf8(any_bytes(max)).ok()
}
/// A number written out: nothing, or digits that straddle what 31, 32 and 8
/// bits hold, the last ones arbitrary bytes.
fn any_numeral(t: &mut Vec<u8>) {
    const BASES: [&[u8]; 7] = [
        b"", b"00", b"1", b"21474836", b"42949672", b"2147483647", b"4294967295",
    ];
    t.extend_from_slice(BASES[pick(7)]);
    let k = pick(3);
    for _ in 0..k {
        t.push(any_u8());
    }
}
/// Text around numerals: `PRE N FAM N SUFFIX` and the other places they occur.
pub fn any_numeric_text() -> Option<String> {
    let mut t = Vec::new();
    match pick(6) {
        0 => {
            any_numeral(&mut t);
            t.push(b'R');
        }
        1 => {
            t.extend_from_slice(b"2-");
            any_numeral(&mut t);
            t.push(b'R');
        }
        2 => {
            t.push(b'R');
            any_numeral(&mut t);
            t.extend_from_slice([&b""[..], b"'", b"+", b"-"][pick(4)]);
        }
        3 => {
            t.extend_from_slice(b"(R)");
            any_numeral(&mut t);
            t.extend_from_slice([&b""[..], b"'"][pick(2)]);
        }
        4 => {
            t.extend_from_slice(b"(");
            t.extend_from_slice([&b""[..], b"-"][pick(2)]);
            any_numeral(&mut t);
            t.extend_from_slice(b", -4)");
        }
        _ => {
            t.extend_from_slice(b"[R,U]");
            any_numeral(&mut t);
            t.extend_from_slice([&b""[..], b"'"][pick(2)]);
        }
    }
    String::from_utf8(t).ok()
}
/// Nested text with arbitrary bytes in places a flat short text cannot reach.
fn any_nested_text() -> Option<String> {
    let mut t = Vec::new();
    let n = 8;
    let h = if thorough() { 3 } else { 2 };
    let hole = |t: &mut Vec<u8>, k: usize| {
        for _ in 0..k {
            t.push(any_u8());
        }
    };
    let k = pick(h + 1);
    match pick(n) {
        0 => {
            t.extend_from_slice(b"[R");
            hole(&mut t, k);
            t.extend_from_slice(b"U]");
            hole(&mut t, 1);
        }
        1 => {
            t.extend_from_slice(b"([A: B]");
            hole(&mut t, k);
            t.extend_from_slice(b")2");
        }
        2 => {
            t.extend_from_slice(b"(3, -4");
            hole(&mut t, k);
            t.extend_from_slice(b" /");
        }
        3 => {
            t.extend_from_slice(b"(2");
            hole(&mut t, k);
            t.extend_from_slice(b"4)");
        }
        4 => {
            t.extend_from_slice(b"R // c");
            hole(&mut t, k);
            t.extend_from_slice(b" U\nF");
        }
        5 => {
            t.extend_from_slice(b"[[R: ");
            hole(&mut t, k);
            t.extend_from_slice(b"], ");
            hole(&mut t, 1);
            t.extend_from_slice(b"]");
        }
        6 => {
            t.extend_from_slice(b"(A // ");
            hole(&mut t, k);
            t.extend_from_slice(b")");
        }
        _ => {
            t.extend_from_slice(b"UL3");
            hole(&mut t, k);
            t.extend_from_slice(b"R");
        }
    }
    String::from_utf8(t).ok()
}
/// Any of the texts above.
fn any_long_text() -> Option<String> {
    if pick(2) == 0 {
        any_numeric_text()
    } else {
        any_nested_text()
    }
}

fn check_alg_text(t: &str) {
    let want = r::parse_alg(t.as_bytes());
    let got = t.parse::<Alg>();
    match (&want, &got) {
        (Some(w), Ok(a)) => {
            cover(2);
            check!(201 "the parsed alg is the tree that the notation defines", r::same_alg(a, w));
        }
        (None, Err(_)) => cover(3),
        (Some(_), Err(_)) => check!(202 "text of the notation is accepted", false),
        (None, Ok(_)) => check!(203 "text outside the notation is rejected", false),
    }
}
fn check_move_text(t: &str) {
    let want = r::parse_move(t.as_bytes());
    let got = t.parse::<Move>();
    match (&want, &got) {
        (Some(w), Ok(a)) => {
            cover(2);
            check!(204 "the parsed move has the family, layers and amount written", r::same_move(a, w));
        }
        (None, Err(_)) => cover(3),
        (Some(_), Err(_)) => check!(205 "text of a move is accepted", false),
        (None, Ok(_)) => check!(206 "text that is no move is rejected", false),
    }
}
fn check_quantum_text(t: &str) {
    let want = r::parse_quantum(t.as_bytes());
    let got = t.parse::<QuantumMove>();
    match (&want, &got) {
        (Some((p, f)), Ok(a)) => {
            cover(2);
            check!(207 "the parsed quantum move has the family and layers written", r::same_quantum(a, p, f));
        }
        (None, Err(_)) => cover(3),
        (Some(_), Err(_)) => check!(208 "text of a quantum move is accepted", false),
        (None, Ok(_)) => check!(209 "text that is no quantum move is rejected", false),
    }
}

// ---- trees ----

/// An amount: -128..=127, or a window of 256 values at a boundary.
pub fn any_amount(windows: usize) -> i32 {
    const W: [i32; 9] = [
        0,
        32_640,
        99_900,
        999_900,
        9_999_900,
        99_999_900,
        999_999_900,
        2_147_483_392,
        65_408,
    ];
    let w = pick(windows);
    let b = any_u8();
    if w == 0 {
        return b as i8 as i32;
    }
    let v = W[(w + 1) / 2] + b as i32;
    if w % 2 == 1 {
        v
    } else {
        -v
    }
}
fn any_layer(windows: usize) -> u32 {
    const W: [u32; 5] = [0, 65_408, 999_900, 2_147_483_520, 4_294_967_040];
    W[pick(windows)] + any_u8() as u32
}
pub fn any_prefix(windows: usize) -> Pre {
    match pick(3) {
        0 => Pre::No,
        1 => Pre::One(any_layer(windows)),
        _ => Pre::Two(any_layer(windows), any_layer(1)),
    }
}
const FAMILIES: [&[u8]; 10] = [
    b"R",
    b"Rw",
    b"U_SQ_",
    b"D_SQ_",
    b"_SLASH_",
    b"R_PLUS_",
    b"R_PLUSPLUS_",
    b"_PLUS_",
    b"_PLUSPLUS_",
    b"x_PLUS__PLUSPLUS_",
];
/// A family name: one with a notation of its own, or 1 to 3 arbitrary letters
/// and underscores.
pub fn any_family() -> Vec<u8> {
    let k = pick(11);
    if k < 10 {
        return FAMILIES[k].to_vec();
    }
    let n = 1 + pick(3);
    let mut f = Vec::new();
    for _ in 0..n {
        let c = any_u8();
        assume(((c | 32).wrapping_sub(b'a') < 26) | (c == b'_'));
        f.push(c);
    }
    f
}
/// A letter or an underscore.
fn any_letter() -> u8 {
    let c = any_u8();
    assume(((c | 32).wrapping_sub(b'a') < 26) | (c == b'_'));
    c
}
/// A family that differs in one place from one with a notation of its own.
fn any_near_family() -> Vec<u8> {
    const SP: [&[u8]; 6] = [b"U_SQ_", b"D_SQ_", b"_SLASH_", b"R_PLUS_", b"R_PLUSPLUS_", b"_PLUSPLUS_"];
    let mut f = SP[pick(6)].to_vec();
    match pick(4) {
        0 => f.push(any_letter()),
        1 => f.insert(0, any_letter()),
        2 => {
            let p = pick(f.len());
            f[p] = any_letter();
        }
        _ => {
            let p = pick(f.len());
            f.remove(p);
        }
    }
    f
}
/// Nodes next to the special forms: one differing move, alone, or two in a grouping.
fn any_near() -> Vec<N> {
    let k = any_u8() as i8 as i32;
    let fam = any_near_family();
    let pre = if pick(2) == 0 { Pre::No } else { Pre::One(2) };
    let m = N::Move(pre, fam, k);
    let u = N::Move(Pre::No, b"U_SQ_".to_vec(), 3);
    let d = N::Move(Pre::No, b"D_SQ_".to_vec(), -4);
    match pick(if thorough() { 6 } else { 4 }) {
        0 => vec![m],
        1 => vec![N::Group(vec![m, d], 1)],
        2 => vec![N::Group(vec![u, m], 1)],
        3 => vec![N::Group(vec![u, d, m], 1)],
        4 => vec![N::Group(vec![m.clone(), m], 1)],
        _ => vec![N::Group(vec![N::Group(vec![u, d], 1), m], -1)],
    }
}
/// Tuples and almost tuples: order, prefixes, amounts.
fn any_tuple_like() -> Vec<N> {
    let part = |f: &[u8]| N::Move(if pick(3) == 0 { Pre::One(1) } else { Pre::No }, f.to_vec(), any_u8() as i8 as i32);
    let fams: [&[u8]; 3] = [b"U_SQ_", b"D_SQ_", b"R"];
    let (a, b) = (part(fams[pick(3)]), part(fams[pick(3)]));
    let mut v = vec![a, b];
    match pick(4) {
        0 => v.push(N::Pause),
        1 => v.insert(1, N::Newline),
        _ => {}
    }
    vec![N::Group(v, any_u8() as i8 as i32)]
}
/// Chains of nested nodes around a leaf, each level of any kind.
fn any_deep(depth: usize) -> Vec<N> {
    let mut v = match pick(4) {
        0 => vec![N::Comment(b"c".to_vec())],
        1 => vec![sq(b"R")],
        2 => vec![N::Move(Pre::No, b"U_SQ_".to_vec(), -3), sq(b"D_SQ_")],
        _ => vec![],
    };
    let b = || vec![N::Move(Pre::No, b"U".to_vec(), 1)];
    for _ in 0..depth {
        v = match pick(6) {
            0 => vec![N::Group(v, 2)],
            1 => vec![N::Group(v, -1)],
            2 => vec![N::Comm(v, b())],
            3 => vec![N::Comm(b(), v)],
            4 => vec![N::Conj(v, b())],
            _ => vec![N::Conj(b(), v)],
        };
    }
    v
}
/// Many nodes, of which one (anywhere) is of any kind; long families and comments.
fn any_large() -> Vec<N> {
    let n = [9, 17, 40, 70, 140][pick(if thorough() { 5 } else { 4 })];
    let mut v = vec![];
    for i in 0..n {
        let f: &[u8] = [&b"R"[..], b"Uw", b"x", b"FR", b"ALL"][i % 5];
        let pre = [Pre::No, Pre::One(i as u32), Pre::Two(i as u32, 12)][i % 3].clone();
        v.push(N::Move(pre, f.to_vec(), [1, -1, 2, -3, 10][(i / 2) % 5]));
    }
    let i = pick(n);
    v[i] = match pick(9) {
        0 => N::Pause,
        1 => N::Newline,
        2 => {
            // a long comment with any character at any place
            let k = 1 + pick(12);
            let mut t = b"a comment. ".repeat(3);
            let c = any_u8();
            assume((c < 128) & (c != b'\n'));
            t[k] = c;
            N::Comment(t)
        }
        3 => {
            // a long family
            let k = pick(24);
            let mut f = b"LongFamilyName_with_parts".to_vec();
            f[k] = any_letter();
            N::Move(Pre::No, f, any_u8() as i8 as i32)
        }
        4 => N::Group(v[..n / 2].to_vec(), any_u8() as i8 as i32),
        5 => N::Comm(v[..i].to_vec(), v[i + 1..].to_vec()),
        6 => N::Conj(v[..i].to_vec(), v[i + 1..].to_vec()),
        7 => N::Group(vec![N::Move(Pre::No, b"U_SQ_".to_vec(), any_u8() as i8 as i32), N::Move(Pre::No, b"D_SQ_".to_vec(), 6)], 1),
        _ => N::Move(Pre::No, b"_SLASH_".to_vec(), 1),
    };
    v
}
/// A long text in which one byte (anywhere) is replaced, inserted or missing.
fn any_mutated_text() -> Option<String> {
    const TEXTS: [&str; 8] = [
        "R U R' U' // sexy\n[R, U' F2]3 (R2 L)2'",
        "[[R: U], F]' (3, -4) / (-12, 10) /\n",
        "2-3Rw2' 4F UL3+ ALL10- R++ 2D-- y2'",
        ". . R .\n\n(F\nB)2 //a\n//b é…\n",
        "(((R)2 U)3' [A: B])0 [[C, D]2: E0]4'",
        "  x   y'  ( R  U )  [ R ,  U ]  // end",
        "U_SQ_ D_SQ_' (U_SQ_3 D_SQ_4')2 _SLASH_2",
        "R_PLUS_3 DD_PLUSPLUS_' a_PLUS_PLUS__ 0R",
    ];
    let mut t = TEXTS[pick(8)].as_bytes().to_vec();
    let p = pick(t.len() + 1);
    match pick(3) {
        0 => t.insert(p, any_u8()),
        1 => {
            assume(p < t.len());
            t.remove(p);
        }
        _ => {
            assume(p < t.len());
            t[p] = any_u8();
        }
    }
    String::from_utf8(t).ok()
}
fn sq(f: &[u8]) -> N {
    N::Move(Pre::No, f.to_vec(), any_u8() as i8 as i32)
}
/// Sequences of at most `budget` nodes altogether, of every kind and nesting.
pub fn any_tree(budget: &mut usize, depth: usize) -> Vec<N> {
    let mut v = Vec::new();
    while *budget > 0 {
        let k = pick(if depth > 0 { 11 } else { 8 });
        if k == 0 {
            break;
        }
        *budget -= 1;
        let n = match k {
            1 => sq(b"R"),
            2 => N::Pause,
            3 => N::Newline,
            4 => N::Comment(b"c".to_vec()),
            5 => N::Move(Pre::No, b"_SLASH_".to_vec(), 1),
            6 => sq(b"U_SQ_"),
            7 => sq(b"D_SQ_"),
            8 => {
                let w = any_tree(budget, depth - 1);
                N::Group(w, any_u8() as i8 as i32)
            }
            9 => {
                let a = any_tree(budget, depth - 1);
                N::Comm(a, any_tree(budget, depth - 1))
            }
            _ => {
                let a = any_tree(budget, depth - 1);
                N::Conj(a, any_tree(budget, depth - 1))
            }
        };
        v.push(n);
    }
    v
}
/// A number of levels of nesting (or of parts).
pub fn far(more: &[usize]) -> usize {
    let all: Vec<usize> = [7, 16, 34, 70].iter().chain(if thorough() { more } else { &[] }).copied().collect();
    all[pick(all.len())]
}
/// Brackets in brackets around a text: of one kind, or of all kinds in turn.
fn any_deep_text() -> Option<String> {
    let mut t = [&b"R"[..], b"(3, -4", b"// c\n"][pick(3)].to_vec();
    if pick(2) == 0 {
        t.push(any_u8());
    }
    let same = pick(7);
    for i in 0..far(&[140]) {
        let (a, b): (&[u8], &[u8]) = [
            (&b"("[..], &b")"[..]),
            (b"( ", b")2'"),
            (b"[", b", U]"),
            (b"[U,", b"]'"),
            (b"[", b": U ]"),
            (b"[U: ", b"]3"),
        ][if same < 6 { same } else { i % 6 }];
        t = [a, &t, b].concat();
    }
    String::from_utf8(t).ok()
}
/// Many nodes in a row, with any byte at the beginning, in the middle or at the end.
fn any_wide_text() -> Option<String> {
    let part = [&b"R U2' "[..], b"2-3Fw ", b"(3, -4) / ", b".\n", b"[A: B]2 ", b"Longer_Names_Of_Moves12' ", b"// words\n"][pick(7)];
    let mut t = part.repeat(far(&[140]));
    let p = [0, 1, t.len() / 2, t.len() - 1, t.len()][pick(5)];
    match pick(2) {
        0 => t.insert(p, any_u8()),
        _ => {
            assume(p < t.len());
            t[p] = any_u8();
        }
    }
    String::from_utf8(t).ok()
}
/// One long name, comment, number or run of blanks among others, with any byte at its beginning, in it, or at its end.
fn any_name_text() -> Option<String> {
    let (head, part, tail) = [
        (&b"R "[..], &b"Long_Names"[..], &b"2' U"[..]),
        (b"R 2-3", b"ABCdef_xyz", b" U"),
        (b"R //", b"some words", b"\nU"),
        (b"R U", b"0000000000", b"12'"),
        (b"00000", b"0000000000", b"3-4R"),
        (b"R", b"          ", b"U"),
        (b"R", b"\n\n\n\n\n\n\n\n\n\n", b"U"),
    ][pick(7)];
    let mut t = part.repeat([3, 13, 26, 65][pick(if thorough() { 4 } else { 3 })]);
    let p = [0, 1, t.len() / 2, t.len() - 1, t.len()][pick(5)];
    if p < t.len() {
        t[p] = any_u8();
    } else {
        t.push(any_u8());
    }
    String::from_utf8([head, &t, tail].concat()).ok()
}
/// Many characters of more than one byte, at every distance from the beginning.
pub fn any_foreign_text() -> String {
    let c = ["\u{e9}", "\u{2192}", "\u{1f9e9}", "e\u{301}", "\u{130}", "\u{2028}\u{a0}\u{85}"][pick(6)];
    let (head, tail) = [("", ""), ("//", ""), ("R //", "\nU'"), ("R2 ", ""), ("[R: //", "\nF]"), ("(U", ")")][pick(6)];
    let shift = pick(4);
    let n = [1, 4, 9, 35, 130][pick(if thorough() { 5 } else { 4 })];
    let last = ["", "\r", "'", "\u{0}"][pick(4)];
    [head, &"xyz"[..shift], &c.repeat(n), last, tail].concat()
}
/// A node with a long name or comment, of which any one byte is arbitrary, alone or among others.
fn any_long_name() -> Vec<N> {
    let len = [30, 130, 260, 650][pick(if thorough() { 4 } else { 3 })];
    let mut t: Vec<u8> = b"Words_and_others".iter().cycle().take(len).copied().collect();
    let at = [0, 1, len / 2, len - 2, len - 1][pick(5)];
    let leaf = if pick(2) == 0 {
        t[at] = any_letter();
        let pre = [Pre::No, Pre::One(2), Pre::Two(2, 3)][pick(3)].clone();
        N::Move(pre, t, [1, -2, 10][pick(3)])
    } else {
        let c = any_u8();
        assume((c < 128) & (c != b'\n'));
        t[at] = c;
        N::Comment(t)
    };
    match pick(5) {
        0 => vec![leaf],
        1 => vec![sq(b"R"), leaf, sq(b"U")],
        2 => vec![N::Group(vec![leaf], 2)],
        3 => vec![N::Comm(vec![leaf.clone()], vec![leaf])],
        _ => vec![N::Conj(vec![sq(b"R")], vec![leaf, sq(b"U")])],
    }
}
/// Nodes in nodes: of one kind, or of all kinds in turn.
pub fn any_deeper(leaf: Vec<N>) -> Vec<N> {
    let mut v = leaf;
    let b = || vec![N::Move(Pre::No, b"B".to_vec(), 1)];
    let same = pick(7);
    for i in 0..far(&[140]) {
        v = match if same < 6 { same } else { i % 6 } {
            0 => vec![N::Group(v, [2, 0, 1, -3][i % 4])],
            1 => vec![N::Group(v, -1)],
            2 => vec![N::Comm(v, b())],
            3 => vec![N::Comm(b(), v)],
            4 => vec![N::Conj(v, b())],
            _ => vec![N::Conj(b(), v)],
        };
    }
    v
}
fn any_leaf() -> Vec<N> {
    match pick(3) {
        0 => vec![sq(b"R")],
        1 => vec![N::Comment(b"c".to_vec())],
        _ => vec![N::Move(Pre::No, b"U_SQ_".to_vec(), -3), sq(b"D_SQ_")],
    }
}
fn check_print(v: &[N]) {
    let a = r::to_alg(v);
    let t = a.to_string();
    match t.parse::<Alg>() {
        Err(_) => check!(301 "what was printed is valid text", false),
        Ok(b) => {
            cover(4);
            check!(302 "parsing what was printed gives the same alg back", r::eqs(&r::norm(&r::of_alg(&b)), &r::norm(v)));
        }
    }
}
fn check_invert(v: &[N], print: bool) {
    let a = r::to_alg(v);
    let b = a.invert();
    let w = r::inv(v);
    check!(401 "the inverse is reversed, part by part", r::same_alg(&b, &w));
    check!(402 "inverting leaves the original alone", r::same_alg(&a, v));
    if !r::has_negated_tuple(v) {
        cover(5);
        check!(403 "inverting twice gives the alg itself", b.invert() == a);
    }
    if print {
        match b.to_string().parse::<Alg>() {
            Err(_) => check!(404 "a printed inverse is valid text", false),
            Ok(c) => {
                cover(6);
                check!(405 "a printed inverse parses as the inverse", r::eqs(&r::norm(&r::of_alg(&c)), &r::norm(&w)))
            }
        }
    }
}

/// Collects what a value feeds into a hasher.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}

harnesses! {
    // --- any text is parsed or refused
    fn h_total_alg() {
        let n = if thorough() { 6 } else { 5 };
        if let Some(t) = any_text(n) {
            observe(t.parse::<Alg>().is_ok() as u64);
            cover(1);
        }
    }
    fn h_total_long() {
        if let Some(t) = any_long_text() {
            observe(t.parse::<Alg>().is_ok() as u64);
            cover(1);
        }
    }
    fn h_total_move() {
        let n = if thorough() { 6 } else { 5 };
        if let Some(t) = any_text(n) {
            observe(t.parse::<Move>().is_ok() as u64);
            observe(t.parse::<QuantumMove>().is_ok() as u64);
            cover(1);
        }
    }
    fn h_total_move_long() {
        if let Some(t) = any_numeric_text() {
            observe(t.parse::<Move>().is_ok() as u64);
            observe(t.parse::<QuantumMove>().is_ok() as u64);
            cover(1);
        }
    }
    fn h_total_mutated() {
        if let Some(t) = any_mutated_text() {
            observe(t.parse::<Alg>().is_ok() as u64);
            cover(1);
        }
    }
    fn h_total_deep() {
        if let Some(t) = match pick(3) {
            0 => any_deep_text(),
            1 => any_wide_text(),
            _ => any_name_text(),
        } {
            observe(t.parse::<Alg>().is_ok() as u64);
            cover(1);
        }
    }
    fn h_total_foreign() {
        let t = any_foreign_text();
        cover(1);
        observe(t.parse::<Alg>().is_ok() as u64);
        observe(t.parse::<Move>().is_ok() as u64);
        observe(t.parse::<QuantumMove>().is_ok() as u64);
        let c = LineComment::try_new(&t);
        check!(105 "a comment of any text without a line break is possible", c.is_ok() == !t.contains('\n'));
        if let Ok(c) = c {
            check!(106 "a comment has its text", c.text() == t);
        }
    }
    fn h_total_comment() {
        if let Some(t) = any_text(4) {
            let c = LineComment::try_new(&t);
            let nl = t.as_bytes().contains(&b'\n');
            check!(101 "a comment is refused exactly when it has a line break", c.is_err() == nl);
            if let Ok(c) = c {
                cover(1);
                check!(102 "a comment keeps its text", same(c.text().as_bytes(), t.as_bytes()));
            }
        }
    }
    // --- what is accepted, and what it means
    fn h_parse_alg() {
        let n = if thorough() { 6 } else { 5 };
        if let Some(t) = any_text(n) {
            check_alg_text(&t);
        }
    }
    fn h_parse_long() {
        if let Some(t) = any_long_text() {
            check_alg_text(&t);
        }
    }
    fn h_parse_move() {
        let n = if thorough() { 6 } else { 5 };
        if let Some(t) = any_text(n) {
            check_move_text(&t);
            check_quantum_text(&t);
        }
    }
    fn h_parse_move_long() {
        if let Some(t) = any_numeric_text() {
            check_move_text(&t);
            check_quantum_text(&t);
        }
    }
    fn h_parse_mutated() {
        if let Some(t) = any_mutated_text() {
            check_alg_text(&t);
        }
    }
    fn h_parse_deep() {
        if let Some(t) = any_deep_text() {
            check_alg_text(&t);
        }
    }
    fn h_parse_wide() {
        if let Some(t) = any_wide_text() {
            check_alg_text(&t);
        }
    }
    fn h_parse_foreign() {
        check_alg_text(&any_foreign_text());
    }
    fn h_parse_names() {
        if let Some(t) = any_name_text() {
            check_alg_text(&t);
        }
    }
    fn h_parse_try_from() {
        if let Some(t) = any_text(3) {
            let a = Alg::try_from(t.as_str());
            let b = t.parse::<Alg>();
            check!(210 "both ways to parse an alg agree", match (a, b) { (Ok(a), Ok(b)) => { cover(2); a == b } (Err(_), Err(_)) => { cover(3); true } _ => false });
            let a = Move::try_from(t.as_str());
            let b = t.parse::<Move>();
            check!(211 "both ways to parse a move agree", match (a, b) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false });
            let a = QuantumMove::try_from(t.as_str());
            let b = t.parse::<QuantumMove>();
            check!(212 "both ways to parse a quantum move agree", match (a, b) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false });
        }
    }
    // --- printing
    fn h_print_move() {
        let n = N::Move(any_prefix(if thorough() { 5 } else { 2 }), any_family(), any_amount(if thorough() { 17 } else { 5 }));
        let m = r::to_move(&n);
        match m.to_string().parse::<Move>() {
            Err(_) => check!(303 "a printed move is valid text", false),
            Ok(b) => { cover(4); check!(304 "parsing a printed move gives it back", r::same_move(&b, &n)); }
        }
    }
    fn h_print_quantum() {
        let pre = any_prefix(5);
        let fam = any_family();
        let q = r::to_quantum(&pre, &fam);
        match q.to_string().parse::<QuantumMove>() {
            Err(_) => check!(305 "a printed quantum move is valid text", false),
            Ok(b) => { cover(4); check!(306 "parsing a printed quantum move gives it back", r::same_quantum(&b, &pre, &fam)); }
        }
    }
    fn h_print_amounts() {
        let w = if thorough() { 17 } else { 9 };
        let m = N::Move(Pre::No, b"R".to_vec(), 2);
        let u = |a| N::Move(Pre::No, b"U_SQ_".to_vec(), a);
        let d = |a| N::Move(Pre::No, b"D_SQ_".to_vec(), a);
        let v = match pick(5) {
            0 => vec![N::Group(vec![m.clone(), m], any_amount(w))],
            1 => vec![N::Group(vec![N::Comm(vec![m.clone()], vec![m])], any_amount(w))],
            2 => vec![N::Group(vec![N::Conj(vec![m.clone()], vec![m])], any_amount(w))],
            3 => vec![N::Group(vec![u(any_amount(w)), d(3)], 1)],
            _ => vec![N::Group(vec![u(-3), d(any_amount(w))], any_u8() as i8 as i32)],
        };
        check_print(&v);
    }
    fn h_print_tree() {
        let mut b = if thorough() { 4 } else { 3 };
        let v = any_tree(&mut b, 2);
        check_print(&v);
    }
    fn h_print_text() {
        let n = if thorough() { 6 } else { 5 };
        if let Some(t) = any_text(n) {
            if let Ok(a) = t.parse::<Alg>() {
                check_print(&r::of_alg(&a));
            }
        }
    }
    fn h_print_text_long() {
        if let Some(t) = any_long_text() {
            if let Ok(a) = t.parse::<Alg>() {
                check_print(&r::of_alg(&a));
            }
        }
    }
    fn h_print_mutated() {
        if let Some(t) = any_mutated_text() {
            if let Ok(a) = t.parse::<Alg>() {
                check_print(&r::of_alg(&a));
            }
        }
    }
    fn h_print_near() {
        check_print(&any_near());
    }
    fn h_print_tuple() {
        check_print(&any_tuple_like());
    }
    fn h_print_deep() {
        check_print(&any_deep(if thorough() { 5 } else { 3 }));
    }
    fn h_print_deeper() {
        check_print(&any_deeper(any_leaf()));
    }
    fn h_print_names() {
        check_print(&any_long_name());
    }
    fn h_print_large() {
        check_print(&any_large());
    }
    // --- inversion
    fn h_invert_near() {
        check_invert(&any_near(), true);
    }
    fn h_invert_tuple() {
        check_invert(&any_tuple_like(), true);
    }
    fn h_invert_deep() {
        check_invert(&any_deep(if thorough() { 5 } else { 3 }), true);
    }
    fn h_invert_deeper() {
        check_invert(&any_deeper(any_leaf()), true);
    }
    fn h_invert_names() {
        check_invert(&any_long_name(), true);
    }
    fn h_invert_large() {
        check_invert(&any_large(), true);
    }
    fn h_invert_mutated() {
        if let Some(t) = any_mutated_text() {
            if let Ok(a) = t.parse::<Alg>() {
                check_invert(&r::of_alg(&a), true);
            }
        }
    }
    fn h_invert_tree() {
        let mut b = if thorough() { 4 } else { 3 };
        let v = any_tree(&mut b, 2);
        check_invert(&v, true);
    }
    fn h_invert_text() {
        let n = if thorough() { 6 } else { 5 };
        if let Some(t) = any_text(n) {
            if let Ok(a) = t.parse::<Alg>() {
                check_invert(&r::of_alg(&a), true);
            }
        }
    }
    fn h_invert_move() {
        let amount = any_u32() as i32;
        assume(amount != i32::MIN);
        let pre = match pick(3) { 0 => Pre::No, 1 => Pre::One(any_u32()), _ => Pre::Two(any_u32(), any_u32()) };
        let n = N::Move(pre, any_family(), amount);
        check_invert(&[n], false);
        cover(6);
    }
    fn h_invert_amount() {
        let amount = any_u32() as i32;
        assume(amount != i32::MIN);
        let x = any_u32() as i32;
        let y = any_u32() as i32;
        assume((x != i32::MIN) & (y != i32::MIN));
        let m = N::Move(Pre::No, b"R".to_vec(), x);
        let n = match pick(10) {
            4 => N::Group(vec![], amount),
            5 => N::Group(vec![[N::Pause, N::Newline, N::Comment(b"c".to_vec())][pick(3)].clone()], amount),
            6 => N::Group(vec![N::Group(vec![m.clone()], y)], amount),
            7 => N::Group(vec![m], amount),
            8 => N::Group(vec![N::Comm(vec![], vec![m])], amount),
            9 => N::Group(vec![N::Conj(vec![m], vec![])], amount),
            0 => N::Group(vec![m.clone(), m], amount),
            1 => N::Group(vec![N::Move(Pre::No, b"U_SQ_".to_vec(), x), N::Move(Pre::No, b"D_SQ_".to_vec(), y)], amount),
            2 => N::Comm(vec![m.clone()], vec![N::Move(Pre::No, b"U".to_vec(), y)]),
            _ => N::Conj(vec![m.clone()], vec![N::Move(Pre::No, b"U".to_vec(), y)]),
        };
        check_invert(&[n], false);
        cover(6);
    }
}
