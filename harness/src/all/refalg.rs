//! An independent model of the alg notation: its own tree, its own parser
//! (hand-written recursive descent), a comparison with the crate's trees, and
//! the normal form that printing and parsing again is allowed to produce.
use cubing_core::alg::*;

#[derive(Clone, PartialEq, Debug)]
pub enum Pre {
    No,
    One(u32),
    Two(u32, u32),
}
#[derive(Clone, PartialEq, Debug)]
pub enum N {
    Move(Pre, Vec<u8>, i32),
    Pause,
    Newline,
    Comment(Vec<u8>),
    Group(Vec<N>, i32),
    Comm(Vec<N>, Vec<N>),
    Conj(Vec<N>, Vec<N>),
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
}

fn digit(c: u8) -> bool {
    c.wrapping_sub(b'0') < 10
}
fn letter(c: u8) -> bool {
    (c | 32).wrapping_sub(b'a') < 26
}

impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> P<'a> {
        P { s, i: 0 }
    }
    pub fn done(&self) -> bool {
        self.i == self.s.len()
    }
    fn at(&self, k: usize) -> Option<u8> {
        self.s.get(self.i + k).copied()
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.at(0) == Some(c) {
            self.i += 1;
            return true;
        }
        false
    }
    fn eat2(&mut self, c: u8, d: u8) -> bool {
        if self.at(0) == Some(c) && self.at(1) == Some(d) {
            self.i += 2;
            return true;
        }
        false
    }
    /// Decimal digits whose value is at most `max`; consumes nothing otherwise.
    fn number(&mut self, max: u64) -> Option<u64> {
        let mut j = self.i;
        let mut v: u64 = 0;
        while j < self.s.len() && digit(self.s[j]) {
            v = v * 10 + (self.s[j] - b'0') as u64;
            if v > max {
                return None;
            }
            j += 1;
        }
        if j == self.i {
            return None;
        }
        self.i = j;
        Some(v)
    }
    pub fn quantum(&mut self) -> Option<(Pre, Vec<u8>)> {
        let i0 = self.i;
        let mut pre = Pre::No;
        if let Some(a) = self.number(u32::MAX as u64) {
            pre = Pre::One(a as u32);
            if self.eat(b'-') {
                match self.number(u32::MAX as u64) {
                    Some(b) => pre = Pre::Two(a as u32, b as u32),
                    None => {
                        self.i = i0;
                        return None;
                    }
                }
            }
        }
        let f0 = self.i;
        while let Some(c) = self.at(0) {
            if !(letter(c) || c == b'_') {
                break;
            }
            self.i += 1;
        }
        if self.i == f0 {
            self.i = i0;
            return None;
        }
        Some((pre, self.s[f0..self.i].to_vec()))
    }
    fn prime(&mut self) -> i32 {
        if self.eat(b'\'') {
            -1
        } else {
            1
        }
    }
    pub fn mv(&mut self) -> Option<N> {
        if self.eat(b'/') {
            return Some(N::Move(Pre::No, b"_SLASH_".to_vec(), 1));
        }
        let (pre, mut fam) = self.quantum()?;
        if self.eat2(b'+', b'+') {
            fam.extend_from_slice(b"_PLUSPLUS_");
            return Some(N::Move(pre, fam, 1));
        }
        if self.eat2(b'-', b'-') {
            fam.extend_from_slice(b"_PLUSPLUS_");
            return Some(N::Move(pre, fam, -1));
        }
        let n = self.number(i32::MAX as u64).map(|x| x as i32);
        if let Some(n) = n {
            if self.eat(b'+') {
                fam.extend_from_slice(b"_PLUS_");
                return Some(N::Move(pre, fam, n));
            }
            if self.eat(b'-') {
                fam.extend_from_slice(b"_PLUS_");
                return Some(N::Move(pre, fam, -n));
            }
        }
        let s = self.prime();
        Some(N::Move(pre, fam, n.unwrap_or(1) * s))
    }
    fn suffix(&mut self) -> i32 {
        let n = self.number(i32::MAX as u64).map(|x| x as i32).unwrap_or(1);
        n * self.prime()
    }
    fn signed(&mut self) -> Option<i32> {
        if digit(self.at(0)?) {
            return self.number(i32::MAX as u64).map(|x| x as i32);
        }
        let i0 = self.i;
        if self.eat(b'-') {
            if let Some(v) = self.number(i32::MAX as u64) {
                return Some(-(v as i32));
            }
        }
        self.i = i0;
        None
    }
    fn node(&mut self) -> Option<N> {
        let i0 = self.i;
        let c = self.at(0)?;
        if self.eat2(b'/', b'/') {
            let t0 = self.i;
            while let Some(c) = self.at(0) {
                if c == b'\n' {
                    break;
                }
                self.i += 1;
            }
            return Some(N::Comment(self.s[t0..self.i].to_vec()));
        }
        if c == b'.' {
            self.i += 1;
            return Some(N::Pause);
        }
        if c == b'\n' {
            self.i += 1;
            return Some(N::Newline);
        }
        if c == b'(' {
            self.i += 1;
            if let Some(v) = self.alg() {
                if self.eat(b')') {
                    let n = self.suffix();
                    return Some(N::Group(v, n));
                }
            }
            self.i = i0 + 1;
            if let Some(a) = self.signed() {
                if self.eat2(b',', b' ') {
                    if let Some(b) = self.signed() {
                        if self.eat(b')') {
                            return Some(N::Group(
                                vec![
                                    N::Move(Pre::No, b"U_SQ_".to_vec(), a),
                                    N::Move(Pre::No, b"D_SQ_".to_vec(), b),
                                ],
                                1,
                            ));
                        }
                    }
                }
            }
            self.i = i0;
            return None;
        }
        if c == b'[' {
            self.i += 1;
            if let Some(a) = self.alg() {
                let comma = self.eat(b',');
                if comma || self.eat(b':') {
                    if let Some(b) = self.alg() {
                        if self.eat(b']') {
                            let n = self.suffix();
                            let r = if comma { N::Comm(a, b) } else { N::Conj(a, b) };
                            return Some(if n == 1 { r } else { N::Group(vec![r], n) });
                        }
                    }
                }
            }
            self.i = i0;
            return None;
        }
        let r = self.mv();
        if r.is_none() {
            self.i = i0;
        }
        r
    }
    /// A sequence of nodes; `None` when two of them are crowded together.
    pub fn alg(&mut self) -> Option<Vec<N>> {
        let mut v: Vec<N> = Vec::new();
        let mut ok = true;
        loop {
            let i0 = self.i;
            let mut spaces = false;
            while self.eat(b' ') {
                spaces = true;
            }
            match self.node() {
                None => {
                    self.i = i0;
                    break;
                }
                Some(n) => {
                    if !spaces && n != N::Newline {
                        match v.last() {
                            None | Some(N::Newline) | Some(N::Comment(_)) => {}
                            Some(_) => ok = false,
                        }
                    }
                    v.push(n);
                }
            }
        }
        while self.eat(b' ') {}
        if ok {
            Some(v)
        } else {
            None
        }
    }
}

pub fn parse_alg(s: &[u8]) -> Option<Vec<N>> {
    let mut p = P::new(s);
    let v = p.alg()?;
    if p.done() {
        Some(v)
    } else {
        None
    }
}
pub fn parse_move(s: &[u8]) -> Option<N> {
    let mut p = P::new(s);
    let v = p.mv()?;
    if p.done() {
        Some(v)
    } else {
        None
    }
}
pub fn parse_quantum(s: &[u8]) -> Option<(Pre, Vec<u8>)> {
    let mut p = P::new(s);
    let v = p.quantum()?;
    if p.done() {
        Some(v)
    } else {
        None
    }
}

// ---- comparison with the crate's trees ----

pub fn same_quantum(q: &QuantumMove, pre: &Pre, fam: &[u8]) -> bool {
    let p = match (&q.prefix, pre) {
        (None, Pre::No) => true,
        (Some(MovePrefix::Layer(l)), Pre::One(a)) => l.layer == *a,
        (Some(MovePrefix::Range(r)), Pre::Two(a, b)) => {
            (r.outer_layer == *a) & (r.inner_layer == *b)
        }
        _ => false,
    };
    p && crate::all::rt::same(q.family.as_bytes(), fam)
}
pub fn same_move(m: &Move, n: &N) -> bool {
    match n {
        N::Move(pre, fam, amount) => same_quantum(&m.quantum, pre, fam) & (m.amount == *amount),
        _ => false,
    }
}
pub fn same_node(a: &AlgNode, n: &N) -> bool {
    match (a, n) {
        (AlgNode::MoveNode(m), N::Move(..)) => same_move(m, n),
        (AlgNode::PauseNode(_), N::Pause) => true,
        (AlgNode::NewlineNode(_), N::Newline) => true,
        (AlgNode::LineCommentNode(c), N::Comment(t)) => {
            crate::all::rt::same(c.text().as_bytes(), t)
        }
        (AlgNode::GroupingNode(g), N::Group(v, n)) => same_alg(&g.alg, v) & (g.amount == *n),
        (AlgNode::CommutatorNode(c), N::Comm(x, y)) => same_alg(&c.a, x) & same_alg(&c.b, y),
        (AlgNode::ConjugateNode(c), N::Conj(x, y)) => same_alg(&c.a, x) & same_alg(&c.b, y),
        _ => false,
    }
}
pub fn same_alg(a: &Alg, v: &[N]) -> bool {
    if a.nodes.len() != v.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..v.len() {
        ok &= same_node(&a.nodes[i], &v[i]);
    }
    ok
}

// ---- building the crate's trees, inversion and normal form ----

pub fn to_quantum(pre: &Pre, fam: &[u8]) -> QuantumMove {
    let family = String::from_utf8(fam.to_vec()).unwrap();
    let prefix = match pre {
        Pre::No => None,
        Pre::One(a) => Some(MovePrefix::Layer(MoveLayer { layer: *a })),
        Pre::Two(a, b) => Some(MovePrefix::Range(MoveRange {
            outer_layer: *a,
            inner_layer: *b,
        })),
    };
    QuantumMove { family, prefix }
}
pub fn to_move(n: &N) -> Move {
    match n {
        N::Move(pre, fam, amount) => Move {
            quantum: to_quantum(pre, fam).into(),
            amount: *amount,
        },
        _ => panic!("harness: not a move"),
    }
}
pub fn to_node(n: &N) -> AlgNode {
    match n {
        N::Move(..) => AlgNode::MoveNode(to_move(n)),
        N::Pause => AlgNode::PauseNode(Pause {}),
        N::Newline => AlgNode::NewlineNode(Newline {}),
        N::Comment(t) => {
            let t = String::from_utf8(t.clone()).unwrap();
            AlgNode::LineCommentNode(LineComment::try_new(&t).unwrap())
        }
        N::Group(v, amount) => AlgNode::GroupingNode(Grouping {
            alg: to_alg(v).into(),
            amount: *amount,
        }),
        N::Comm(a, b) => AlgNode::CommutatorNode(Commutator {
            a: to_alg(a).into(),
            b: to_alg(b).into(),
        }),
        N::Conj(a, b) => AlgNode::ConjugateNode(Conjugate {
            a: to_alg(a).into(),
            b: to_alg(b).into(),
        }),
    }
}
pub fn to_alg(v: &[N]) -> Alg {
    let mut nodes = Vec::new();
    for n in v {
        nodes.push(to_node(n));
    }
    Alg { nodes }
}

fn plain(n: &N, fam: &[u8]) -> Option<i32> {
    match n {
        N::Move(Pre::No, f, a) if f.as_slice() == fam => Some(*a),
        _ => None,
    }
}
/// `(a, b)`: the pair of turns of Square-1 notation.
pub fn tuple(v: &[N]) -> Option<(i32, i32)> {
    if v.len() != 2 {
        return None;
    }
    Some((plain(&v[0], b"U_SQ_")?, plain(&v[1], b"D_SQ_")?))
}
pub fn inv_node(n: &N) -> N {
    match n {
        N::Move(pre, fam, a) => {
            if plain(n, b"_SLASH_").is_some() {
                return n.clone();
            }
            N::Move(pre.clone(), fam.clone(), -*a)
        }
        N::Group(v, amount) => {
            if *amount == 1 {
                if let Some((a, b)) = tuple(v) {
                    return N::Group(
                        vec![
                            N::Move(Pre::No, b"U_SQ_".to_vec(), -a),
                            N::Move(Pre::No, b"D_SQ_".to_vec(), -b),
                        ],
                        1,
                    );
                }
            }
            N::Group(v.clone(), -*amount)
        }
        N::Comm(a, b) => N::Comm(b.clone(), a.clone()),
        N::Conj(a, b) => N::Conj(a.clone(), inv(b)),
        _ => n.clone(),
    }
}
pub fn inv(v: &[N]) -> Vec<N> {
    let mut r = Vec::new();
    for n in v.iter().rev() {
        r.push(inv_node(n));
    }
    r
}
/// Whether `(U_SQ_a D_SQ_b)'` occurs: its inverse prints as the pair `(a, b)`,
/// whose own inverse is `(-a, -b)`.
pub fn has_negated_tuple(v: &[N]) -> bool {
    v.iter().any(|n| match n {
        N::Group(w, a) => (tuple(w).is_some() && *a == -1) || has_negated_tuple(w),
        N::Comm(a, b) | N::Conj(a, b) => has_negated_tuple(a) || has_negated_tuple(b),
        _ => false,
    })
}
/// Printing may put a line break after a comment, and leaves out the parentheses
/// of a single commutator or conjugate done once. Both are undone here.
pub fn norm(v: &[N]) -> Vec<N> {
    let mut r: Vec<N> = Vec::new();
    let mut comment = false;
    for n in v {
        let m = match n {
            N::Newline if comment => {
                comment = false;
                continue;
            }
            N::Group(w, a) => {
                let mut w = norm(w);
                if *a == 1 && w.len() == 1 && matches!(w[0], N::Comm(..) | N::Conj(..)) {
                    w.pop().unwrap()
                } else {
                    N::Group(w, *a)
                }
            }
            N::Comm(a, b) => N::Comm(norm(a), norm(b)),
            N::Conj(a, b) => N::Conj(norm(a), norm(b)),
            _ => n.clone(),
        };
        comment = matches!(m, N::Comment(_));
        r.push(m);
    }
    r
}
/// The model's tree of an alg of the crate.
pub fn of_node(a: &AlgNode) -> N {
    match a {
        AlgNode::MoveNode(m) => of_move(m),
        AlgNode::PauseNode(_) => N::Pause,
        AlgNode::NewlineNode(_) => N::Newline,
        AlgNode::LineCommentNode(c) => N::Comment(c.text().as_bytes().to_vec()),
        AlgNode::GroupingNode(g) => N::Group(of_alg(&g.alg), g.amount),
        AlgNode::CommutatorNode(c) => N::Comm(of_alg(&c.a), of_alg(&c.b)),
        AlgNode::ConjugateNode(c) => N::Conj(of_alg(&c.a), of_alg(&c.b)),
    }
}
pub fn of_quantum(q: &QuantumMove) -> (Pre, Vec<u8>) {
    let pre = match &q.prefix {
        None => Pre::No,
        Some(MovePrefix::Layer(l)) => Pre::One(l.layer),
        Some(MovePrefix::Range(r)) => Pre::Two(r.outer_layer, r.inner_layer),
    };
    (pre, q.family.as_bytes().to_vec())
}
pub fn of_move(m: &Move) -> N {
    let (pre, fam) = of_quantum(&m.quantum);
    N::Move(pre, fam, m.amount)
}
pub fn of_alg(a: &Alg) -> Vec<N> {
    let mut v = Vec::new();
    for n in &a.nodes {
        v.push(of_node(n));
    }
    v
}
// Comparison without a branch per scalar, so that the solver gets one question.
pub fn eq_pre(a: &Pre, b: &Pre) -> bool {
    match (a, b) {
        (Pre::No, Pre::No) => true,
        (Pre::One(x), Pre::One(y)) => x == y,
        (Pre::Two(x, y), Pre::Two(z, w)) => (x == z) & (y == w),
        _ => false,
    }
}
pub fn eq(a: &N, b: &N) -> bool {
    match (a, b) {
        (N::Move(p, f, x), N::Move(q, g, y)) => {
            eq_pre(p, q) & crate::all::rt::same(f, g) & (x == y)
        }
        (N::Pause, N::Pause) | (N::Newline, N::Newline) => true,
        (N::Comment(x), N::Comment(y)) => crate::all::rt::same(x, y),
        (N::Group(v, x), N::Group(w, y)) => eqs(v, w) & (x == y),
        (N::Comm(a, b), N::Comm(c, d)) | (N::Conj(a, b), N::Conj(c, d)) => eqs(a, c) & eqs(b, d),
        _ => false,
    }
}
pub fn eqs(a: &[N], b: &[N]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= eq(&a[i], &b[i]);
    }
    ok
}
