//! Parser for the textual LLVM IR that `llvm-dis` prints (the subset rustc emits).
use crate::expr::{self, Op};
use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),     // identifiers / keywords, labels without ':'
    Loc(String),    // %x
    Glob(String),   // @x
    Meta(String),   // !x
    Num(String),    // number
    Str(Vec<u8>),   // "..." or c"..."
    P(char),        // punctuation
}

fn lex(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(24);
    let is_id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' {
            i += 1;
            continue;
        }
        if c == b';' {
            break;
        }
        if c == b'%' || c == b'@' || c == b'!' {
            let kind = c;
            i += 1;
            let name;
            if i < b.len() && b[i] == b'"' {
                let (s, n) = lex_str(b, i);
                i = n;
                name = String::from_utf8_lossy(&s).into_owned();
            } else {
                let s = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                name = line[s..i].to_string();
            }
            out.push(match kind {
                b'%' => Tok::Loc(name),
                b'@' => Tok::Glob(name),
                _ => Tok::Meta(name),
            });
            continue;
        }
        if c == b'"' {
            let (s, n) = lex_str(b, i);
            i = n;
            out.push(Tok::Str(s));
            continue;
        }
        if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
            let (s, n) = lex_str(b, i + 1);
            i = n;
            out.push(Tok::Str(s));
            continue;
        }
        if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) || (c == b'+' && i + 1 < b.len() && (b[i + 1].is_ascii_digit() || b[i+1] == b'i')) {
            let s = i;
            i += 1;
            while i < b.len() && (is_id(b[i]) || b[i] == b'+') {
                i += 1;
            }
            out.push(Tok::Num(line[s..i].to_string()));
            continue;
        }
        if is_id(c) || c == b'#' {
            let s = i;
            i += 1;
            while i < b.len() && is_id(b[i]) {
                i += 1;
            }
            let t = line[s..i].to_string();
            out.push(if t.starts_with("f0x") { Tok::Num(t) } else { Tok::Id(t) });
            continue;
        }
        out.push(Tok::P(c as char));
        i += 1;
    }
    out
}
fn lex_str(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    // b[i] == '"'
    i += 1;
    let mut out = vec![];
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    (out, i + 1)
}

struct Cur<'a> {
    t: &'a [Tok],
    i: usize,
}
impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn at(&self, k: usize) -> Option<&'a Tok> {
        self.t.get(self.i + k)
    }
    fn next(&mut self) -> Result<&'a Tok, String> {
        let t = self.t.get(self.i).ok_or("end of line")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need_p(&mut self, c: char) -> Result<(), String> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at {:?}", c, self.peek()))
        }
    }
    fn skip_parens(&mut self) -> Result<(), String> {
        self.need_p('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
}

fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::Id(s) => {
            s == "void"
                || s == "ptr"
                || s == "double"
                || s == "float"
                || s == "metadata"
                || s == "half"
                || s == "label"
                || s == "token"
                || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
        }
        Tok::P('[') | Tok::P('<') | Tok::P('{') => true,
        _ => false,
    }
}

fn ty(c: &mut Cur) -> Result<Ty, String> {
    match c.next()? {
        Tok::Id(s) => match s.as_str() {
            "void" => Ok(Ty::Void),
            "ptr" => {
                if c.is_id("addrspace") {
                    c.i += 1;
                    c.skip_parens()?;
                }
                Ok(Ty::Ptr)
            }
            "double" => Ok(Ty::F64),
            "float" => Ok(Ty::F32),
            "metadata" | "label" | "token" => Ok(Ty::Meta),
            _ => {
                if let Some(n) = s.strip_prefix('i') {
                    if let Ok(n) = n.parse::<u16>() {
                        return Ok(Ty::Int(n));
                    }
                }
                Err(format!("type {:?}", s))
            }
        },
        Tok::P('[') => {
            let n = num(c)?;
            c.eat_id("x");
            let t = ty(c)?;
            c.need_p(']')?;
            Ok(Ty::Arr(n, Box::new(t)))
        }
        Tok::P('<') => {
            if c.eat_p('{') {
                let f = fields(c)?;
                c.need_p('}')?;
                c.need_p('>')?;
                return Ok(Ty::Struct(f, true));
            }
            let n = num(c)?;
            c.eat_id("x");
            let t = ty(c)?;
            c.need_p('>')?;
            Ok(Ty::Vec(n as u32, Box::new(t)))
        }
        Tok::P('{') => {
            let f = fields(c)?;
            c.need_p('}')?;
            Ok(Ty::Struct(f, false))
        }
        t => Err(format!("type at {:?}", t)),
    }
}
fn fields(c: &mut Cur) -> Result<Vec<Ty>, String> {
    let mut v = vec![];
    if c.is_p('}') {
        return Ok(v);
    }
    loop {
        v.push(ty(c)?);
        if !c.eat_p(',') {
            return Ok(v);
        }
    }
}
fn num(c: &mut Cur) -> Result<u64, String> {
    match c.next()? {
        Tok::Num(s) => s.parse::<u64>().map_err(|e| format!("{} {}", s, e)),
        t => Err(format!("number at {:?}", t)),
    }
}

pub struct Names {
    pub glob: HashMap<String, u32>, // name -> object id
    pub func: HashMap<String, u32>, // defined functions
    pub ext: HashMap<String, u32>,
    pub ext_names: Vec<String>,
}
impl Names {
    fn addr(&self, n: &str, ng: u32, nf: u32) -> Result<u64, String> {
        if let Some(i) = self.glob.get(n) {
            return Ok(base_of(*i));
        }
        if let Some(i) = self.func.get(n) {
            return Ok(base_of(ng + *i));
        }
        if let Some(i) = self.ext.get(n) {
            return Ok(base_of(ng + nf + *i));
        }
        Err(format!("unknown global {}", n))
    }
}

struct Ctx<'a> {
    n: &'a Names,
    ng: u32,
    nf: u32,
    undef: std::cell::Cell<u64>,
}

impl<'a> Ctx<'a> {
    fn fresh(&self) -> u64 {
        let v = self.undef.get();
        self.undef.set(v + 1);
        v | 1 << 60
    }
    fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => Val::A(Arc::new(
                (0..t.nfields()).map(|i| self.zero(t.field(i))).collect(),
            )),
            Ty::Int(n) if *n > 64 => Val::E(expr::konst(0, *n as u8)),
            _ => Val::C(0),
        }
    }
    fn undef_val(&self, t: &Ty) -> Val {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => Val::A(Arc::new(
                (0..t.nfields())
                    .map(|i| self.undef_val(t.field(i)))
                    .collect(),
            )),
            Ty::Void | Ty::Meta => Val::C(0),
            _ => Val::E(expr::uninit(self.fresh(), t.bits() as u8)),
        }
    }
    /// constant of type t at the cursor
    fn konst(&self, c: &mut Cur, t: &Ty) -> Result<Val, String> {
        match c.next()? {
            Tok::Num(s) => match t {
                Ty::F32 => {
                    let x = match s.strip_prefix("0x").or(s.strip_prefix("f0x")) {
                        Some(h) => f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?),
                        None => s.parse::<f64>().map_err(|e| e.to_string())?,
                    };
                    if s.starts_with("f0x") {
                        return Err("float constant".into());
                    }
                    Ok(Val::C((x as f32).to_bits() as u64))
                }
                Ty::F64 => {
                    if let Some(h) = s.strip_prefix("0x").or(s.strip_prefix("f0x")) {
                        return Ok(Val::C(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                    }
                    if s == "+inf" {
                        return Ok(Val::C(f64::INFINITY.to_bits()));
                    }
                    Ok(Val::C(s.parse::<f64>().map_err(|e| e.to_string())?.to_bits()))
                }
                Ty::Int(n) => {
                    let v: i128 = if let Ok(v) = s.parse::<i128>() {
                        v
                    } else {
                        s.parse::<u128>().map_err(|e| e.to_string())? as i128
                    };
                    if *n > 64 {
                        Ok(Val::E(expr::konst(v as u128, *n as u8)))
                    } else {
                        Ok(Val::C(v as u128 as u64 & expr::mask64(*n as u8)))
                    }
                }
                _ => Err(format!("number for {:?}", t)),
            },
            Tok::Glob(g) => Ok(Val::C(self.n.addr(g, self.ng, self.nf)?)),
            Tok::Str(s) => Ok(Val::A(Arc::new(
                s.iter().map(|b| Val::C(*b as u64)).collect(),
            ))),
            Tok::P('[') => {
                let mut v = vec![];
                if !c.is_p(']') {
                    loop {
                        let t = ty(c)?;
                        v.push(self.konst(c, &t)?);
                        if !c.eat_p(',') {
                            break;
                        }
                    }
                }
                c.need_p(']')?;
                Ok(Val::A(Arc::new(v)))
            }
            Tok::P('{') => {
                let v = self.list(c)?;
                c.need_p('}')?;
                Ok(Val::A(Arc::new(v)))
            }
            Tok::P('<') => {
                let packed = c.eat_p('{');
                let v = self.list(c)?;
                if packed {
                    c.need_p('}')?;
                }
                c.need_p('>')?;
                Ok(Val::A(Arc::new(v)))
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(Val::C(1)),
                "false" => Ok(Val::C(0)),
                "null" | "zeroinitializer" | "none" => Ok(self.zero(t)),
                "undef" | "poison" => Ok(self.undef_val(t)),
                "splat" => {
                    c.need_p('(')?;
                    let et = ty(c)?;
                    let v = self.konst(c, &et)?;
                    c.need_p(')')?;
                    Ok(Val::A(Arc::new(vec![v; t.nfields()])))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    c.need_p('(')?;
                    let st = ty(c)?;
                    let v = self.konst(c, &st)?;
                    if !c.eat_id("to") {
                        return Err("cast".into());
                    }
                    let dt = ty(c)?;
                    c.need_p(')')?;
                    match v {
                        Val::C(x) => Ok(Val::C(x & expr::mask64(dt.bits().min(64) as u8))),
                        v => Ok(v),
                    }
                }
                "getelementptr" => {
                    while !c.is_p('(') {
                        c.i += 1;
                    }
                    c.need_p('(')?;
                    let et = ty(c)?;
                    c.need_p(',')?;
                    ty(c)?;
                    let base = self.konst(c, &Ty::Ptr)?;
                    let mut idx = vec![];
                    while c.eat_p(',') {
                        let it = ty(c)?;
                        match self.konst(c, &it)? {
                            Val::C(x) => idx.push(expr::sext128(x as u128, it.bits() as u8) as i64),
                            _ => return Err("gep const index".into()),
                        }
                    }
                    c.need_p(')')?;
                    let mut off = idx[0].wrapping_mul(et.alloc_size() as i64);
                    let mut t = &et;
                    for i in &idx[1..] {
                        off += t.field_offset(*i as usize) as i64;
                        t = t.field(*i as usize);
                    }
                    match base {
                        Val::C(b) => Ok(Val::C(b.wrapping_add(off as u64))),
                        _ => Err("gep base".into()),
                    }
                }
                "add" | "sub" | "xor" | "and" | "or" => {
                    let op = s.clone();
                    while !c.is_p('(') {
                        c.i += 1;
                    }
                    c.need_p('(')?;
                    let t1 = ty(c)?;
                    let a = self.konst(c, &t1)?;
                    c.need_p(',')?;
                    let t2 = ty(c)?;
                    let b = self.konst(c, &t2)?;
                    c.need_p(')')?;
                    if let (Val::C(a), Val::C(b)) = (a, b) {
                        let m = expr::mask64(t1.bits() as u8);
                        let r = match op.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            _ => a | b,
                        };
                        Ok(Val::C(r & m))
                    } else {
                        Err("const op".into())
                    }
                }
                "nan" | "inf" => Ok(Val::C(f64::INFINITY.to_bits())),
                _ => Err(format!("constant {:?}", s)),
            },
            t => Err(format!("constant at {:?}", t)),
        }
    }
    fn list(&self, c: &mut Cur) -> Result<Vec<Val>, String> {
        let mut v = vec![];
        if c.is_p('}') || c.is_p('>') {
            return Ok(v);
        }
        loop {
            let t = ty(c)?;
            v.push(self.konst(c, &t)?);
            if !c.eat_p(',') {
                return Ok(v);
            }
        }
    }
}

fn flatten(t: &Ty, v: &Val, off: usize, bytes: &mut [u8], init: &mut [bool]) -> Result<(), String> {
    match v {
        Val::A(a) => {
            for (i, x) in a.iter().enumerate() {
                flatten(
                    t.field(i),
                    x,
                    off + t.field_offset(i) as usize,
                    bytes,
                    init,
                )?;
            }
            Ok(())
        }
        Val::C(x) => {
            let n = t.store_size() as usize;
            for k in 0..n {
                bytes[off + k] = if k < 8 { (x >> (8 * k)) as u8 } else { 0 };
                init[off + k] = true;
            }
            Ok(())
        }
        Val::E(e) => {
            if let Some(c) = e.as_const() {
                for k in 0..t.store_size() as usize {
                    bytes[off + k] = (c >> (8 * k)) as u8;
                    init[off + k] = true;
                }
            }
            Ok(()) // undef stays uninitialised
        }
    }
}

struct FnCtx<'a, 'b> {
    c: &'b Ctx<'a>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl<'a, 'b> FnCtx<'a, 'b> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, c: &mut Cur, t: &Ty) -> Result<Opd, String> {
        if let Some(Tok::Loc(n)) = c.peek() {
            c.i += 1;
            return Ok(Opd::R(self.reg(n)));
        }
        Ok(Opd::K(self.c.konst(c, t)?))
    }
    fn label(&self, c: &mut Cur) -> Result<u32, String> {
        if !c.eat_id("label") {
            return Err("label".into());
        }
        match c.next()? {
            Tok::Loc(n) => self
                .labels
                .get(n)
                .copied()
                .ok_or(format!("unknown label {}", n)),
            _ => Err("label".into()),
        }
    }
    fn skip_flags(&self, c: &mut Cur) {
        while let Some(Tok::Id(s)) = c.peek() {
            if matches!(
                s.as_str(),
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw"
                    | "fast" | "nnan" | "ninf" | "nsz" | "volatile" | "weak" | "contract" | "reassoc" | "arcp" | "afn"
            ) {
                c.i += 1;
                continue;
            }
            if s == "inrange" {
                c.i += 1;
                let _ = c.skip_parens();
                continue;
            }
            break;
        }
    }
}

/// The ordering of an atomic access: 1 acquires, 2 releases.
fn order(c: &mut Cur) -> Result<u8, String> {
    if c.eat_id("syncscope") {
        let _ = c.skip_parens();
    }
    for (n, o) in [("unordered", 0), ("monotonic", 0), ("acquire", 1), ("release", 2), ("acq_rel", 3), ("seq_cst", 3)] {
        if c.eat_id(n) {
            return Ok(o);
        }
    }
    Err("ordering".into())
}
fn wof(t: &Ty) -> Result<u8, String> {
    let t = match t {
        Ty::Vec(_, e) => e,
        t => t,
    };
    match t {
        Ty::Int(n) if *n <= 128 => Ok(*n as u8),
        Ty::Ptr | Ty::F64 => Ok(64),
        Ty::F32 => Ok(32),
        Ty::Void | Ty::Meta | Ty::Struct(..) | Ty::Arr(..) => Ok(0),
        t => Err(format!("width of {:?}", t)),
    }
}

fn intrinsic(name: &str) -> Option<Intr> {
    let n = name.strip_prefix("llvm.")?;
    let tbl: &[(&str, Intr)] = &[
        ("lifetime.end", Intr::LifeEnd),
        ("lifetime.", Intr::Nop),
        ("experimental.noalias", Intr::Nop),
        ("dbg.", Intr::Nop),
        ("donothing", Intr::Nop),
        ("prefetch", Intr::Nop),
        ("sideeffect", Intr::Nop),
        ("x86.sse2.pause", Intr::Nop),
        ("memcpy.", Intr::Memcpy),
        ("memmove.", Intr::Memmove),
        ("memset.", Intr::Memset),
        ("assume", Intr::Assume),
        ("umax.", Intr::UMax),
        ("umin.", Intr::UMin),
        ("smax.", Intr::SMax),
        ("smin.", Intr::SMin),
        ("uadd.sat.", Intr::UAddSat),
        ("usub.sat.", Intr::USubSat),
        ("sadd.sat.", Intr::SAddSat),
        ("ssub.sat.", Intr::SSubSat),
        ("bitreverse.", Intr::BitReverse),
        ("bswap.", Intr::BSwap),
        ("ctlz.", Intr::Ctlz),
        ("cttz.", Intr::Cttz),
        ("ctpop.", Intr::Ctpop),
        ("is.constant.", Intr::IsConstant),
        ("expect.", Intr::Expect),
        ("fshl.", Intr::FshL),
        ("fshr.", Intr::FshR),
        ("uadd.with.overflow.", Intr::UAddO),
        ("usub.with.overflow.", Intr::USubO),
        ("umul.with.overflow.", Intr::UMulO),
        ("sadd.with.overflow.", Intr::SAddO),
        ("ssub.with.overflow.", Intr::SSubO),
        ("smul.with.overflow.", Intr::SMulO),
        ("ucmp.", Intr::UCmp),
        ("scmp.", Intr::SCmp),
        ("abs.", Intr::Abs),
        ("fabs.", Intr::FAbs),
        ("threadlocal.address", Intr::ThreadLocalAddress),
        ("trap", Intr::Trap),
        ("debugtrap", Intr::Trap),
        ("vector.reduce.or", Intr::ReduceOr),
        ("vector.reduce.and", Intr::ReduceAnd),
        ("vector.reduce.add", Intr::ReduceAdd),
    ];
    for (p, i) in tbl {
        if n.starts_with(p) {
            return Some(*i);
        }
    }
    None
}

impl<'a, 'b> FnCtx<'a, 'b> {
    fn call(&mut self, c: &mut Cur, dst: Option<u32>) -> Result<Inst, String> {
        // [cc] [ret attrs] type [fn type] callee(args)
        loop {
            let t = c.peek().ok_or("call")?;
            if is_type_start(t) {
                break;
            }
            match t {
                Tok::Id(_) | Tok::Num(_) => {
                    c.i += 1;
                    if c.is_p('(') {
                        c.skip_parens()?;
                    }
                }
                _ => return Err(format!("call at {:?}", t)),
            }
        }
        let rt = ty(c)?;
        if c.is_p('(') {
            c.skip_parens()?;
        }
        enum T<'x> {
            G(&'x str),
            O(Opd),
            Asm,
        }
        let target = match c.peek() {
            Some(Tok::Glob(g)) => {
                c.i += 1;
                T::G(g)
            }
            Some(Tok::Id(s)) if s == "asm" => {
                while !matches!(c.peek(), Some(Tok::P('('))) {
                    c.i += 1;
                }
                T::Asm
            }
            _ => T::O(self.opd(c, &Ty::Ptr)?),
        };
        c.need_p('(')?;
        let mut args: Vec<(Opd, u8)> = vec![];
        let mut argtys: Vec<Ty> = vec![];
        let intr = match &target {
            T::G(g) => intrinsic(g),
            _ => None,
        };
        if intr == Some(Intr::Nop) {
            return Ok(Inst::Call(
                None,
                Callee::Intr(Intr::Nop, 0),
                vec![],
                Arc::new(Ty::Void),
            ));
        }
        while !c.is_p(')') {
            let t = ty(c)?;
            if t == Ty::Meta {
                // metadata operand: skip to ',' or ')'
                while !c.is_p(',') && !c.is_p(')') {
                    if c.is_p('(') {
                        c.skip_parens()?;
                    } else {
                        c.i += 1;
                    }
                }
            } else {
                loop {
                    match c.peek() {
                        Some(Tok::Id(s)) => match s.as_str() {
                            "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false"
                            | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "none"
                            | "bitcast" | "trunc" | "add" | "sub" => break,
                            "align" => {
                                c.i += 1;
                                if c.is_p('(') {
                                    c.skip_parens()?;
                                } else {
                                    c.i += 1;
                                }
                            }
                            _ => {
                                c.i += 1;
                                if c.is_p('(') {
                                    c.skip_parens()?;
                                }
                            }
                        },
                        Some(Tok::Str(_)) if !matches!(t, Ty::Arr(..)) => c.i += 1,
                        _ => break,
                    }
                }
                let o = self.opd(c, &t)?;
                args.push((o, wof(&t)?));
                argtys.push(t);
            }
            if !c.eat_p(',') {
                break;
            }
        }
        c.need_p(')')?;
        let callee = match target {
            T::G(g) => {
                if let Some(i) = intr {
                    let w = argtys.first().map(|t| wof(t).unwrap_or(0)).unwrap_or(0);
                    if matches!(argtys.first(), Some(Ty::Vec(..)))
                        && !matches!(i, Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd)
                    {
                        return Ok(Inst::Bad(format!("vector intrinsic {}", g)));
                    }
                    if w > 64
                        && !matches!(i, Intr::UMulO | Intr::UAddO | Intr::USubO | Intr::UMax | Intr::UMin)
                    {
                        return Ok(Inst::Bad(format!("wide intrinsic {}", g)));
                    }
                    Callee::Intr(i, w)
                } else if let Some(f) = self.c.n.func.get(g) {
                    Callee::Func(*f)
                } else if let Some(f) = self.c.n.ext.get(g) {
                    Callee::Ext(*f)
                } else {
                    Callee::Bad(g.to_string())
                }
            }
            T::O(o) => Callee::Ind(o),
            T::Asm => Callee::Bad("inline asm".into()),
        };
        Ok(Inst::Call(dst, callee, args, Arc::new(rt)))
    }

    fn inst(&mut self, c: &mut Cur, out: &mut Vec<Inst>) -> Result<(), String> {
        let mut dst = None;
        if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (c.peek(), c.at(1)) {
            dst = Some(self.reg(n));
            c.i += 2;
        }
        let op = match c.next()? {
            Tok::Id(s) => s.as_str(),
            t => return Err(format!("instruction at {:?}", t)),
        };
        let d = dst.unwrap_or(u32::MAX);
        let binop = match op {
            "add" => Some(Op::Add),
            "sub" => Some(Op::Sub),
            "mul" => Some(Op::Mul),
            "udiv" => Some(Op::UDiv),
            "urem" => Some(Op::URem),
            "sdiv" => Some(Op::SDiv),
            "srem" => Some(Op::SRem),
            "and" => Some(Op::And),
            "or" => Some(Op::Or),
            "xor" => Some(Op::Xor),
            "shl" => Some(Op::Shl),
            "lshr" => Some(Op::LShr),
            "ashr" => Some(Op::AShr),
            _ => None,
        };
        if let Some(o) = binop {
            self.skip_flags(c);
            let t = ty(c)?;
            let a = self.opd(c, &t)?;
            c.need_p(',')?;
            let b = self.opd(c, &t)?;
            let w = wof(&t)?;
            out.push(if matches!(t, Ty::Vec(..)) {
                Inst::VBin(o, w, d, a, b)
            } else {
                Inst::Bin(o, w, d, a, b)
            });
            return Ok(());
        }
        match op {
            "tail" | "musttail" | "notail" => {
                c.i += 1; // call
                let i = self.call(c, dst)?;
                out.push(i);
            }
            "call" => {
                let i = self.call(c, dst)?;
                out.push(i);
            }
            "invoke" => {
                let i = self.call(c, dst)?;
                out.push(i);
                // ... to label %x unwind label %y
                while !c.is_id("to") {
                    c.next()?;
                }
                c.i += 1;
                let l = self.label(c)?;
                out.push(Inst::Br(l));
            }
            "icmp" => {
                self.skip_flags(c);
                let p = match c.next()? {
                    Tok::Id(s) => s.as_str(),
                    _ => return Err("icmp".into()),
                };
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                c.need_p(',')?;
                let b = self.opd(c, &t)?;
                let w = wof(&t)?;
                let (o, neg, swap) = match p {
                    "eq" => (Op::Eq, false, false),
                    "ne" => (Op::Eq, true, false),
                    "ult" => (Op::Ult, false, false),
                    "ule" => (Op::Ule, false, false),
                    "ugt" => (Op::Ult, false, true),
                    "uge" => (Op::Ule, false, true),
                    "slt" => (Op::Slt, false, false),
                    "sle" => (Op::Sle, false, false),
                    "sgt" => (Op::Slt, false, true),
                    "sge" => (Op::Sle, false, true),
                    _ => return Err("icmp pred".into()),
                };
                out.push(if matches!(t, Ty::Vec(..)) {
                    Inst::VCmp(o, neg, swap, w, d, a, b)
                } else {
                    Inst::Cmp(o, neg, swap, w, d, a, b)
                });
            }
            "load" => {
                let atomic = c.eat_id("atomic");
                self.skip_flags(c);
                let t = ty(c)?;
                c.need_p(',')?;
                ty(c)?;
                let p = self.opd(c, &Ty::Ptr)?;
                out.push(if atomic {
                    Inst::ALoad(d, wof(&t)?, p, order(c)?)
                } else {
                    Inst::Load(d, Arc::new(t), p)
                });
            }
            "store" => {
                let atomic = c.eat_id("atomic");
                self.skip_flags(c);
                let t = ty(c)?;
                let v = self.opd(c, &t)?;
                c.need_p(',')?;
                ty(c)?;
                let p = self.opd(c, &Ty::Ptr)?;
                out.push(if atomic {
                    Inst::AStore(wof(&t)?, v, p, order(c)?)
                } else {
                    Inst::Store(Arc::new(t), v, p)
                });
            }
            "alloca" => {
                let t = ty(c)?;
                let mut n = 1;
                let mut al = t.align();
                while c.eat_p(',') {
                    if c.eat_id("align") {
                        al = num(c)?;
                    } else {
                        let it = ty(c)?;
                        match self.opd(c, &it)? {
                            Opd::K(Val::C(x)) => n = x,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                }
                out.push(Inst::Alloca(d, t.alloc_size() * n, al));
            }
            "getelementptr" => {
                self.skip_flags(c);
                let et = ty(c)?;
                c.need_p(',')?;
                let bt = ty(c)?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let base = self.opd(c, &Ty::Ptr)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur: Option<Ty> = None;
                let mut first = true;
                while c.eat_p(',') {
                    if !matches!(c.peek(), Some(t) if is_type_start(t)) {
                        break; // metadata
                    }
                    let it = ty(c)?;
                    let o = self.opd(c, &it)?;
                    if first {
                        let sz = et.alloc_size() as i64;
                        match &o {
                            Opd::K(Val::C(x)) => {
                                off = off.wrapping_add(
                                    (expr::sext128(*x as u128, it.bits() as u8) as i64)
                                        .wrapping_mul(sz),
                                )
                            }
                            _ => idx.push((o, it.bits() as u8, sz)),
                        }
                        cur = Some(et.clone());
                        first = false;
                    } else {
                        let t = cur.take().unwrap();
                        match &o {
                            Opd::K(Val::C(x)) => {
                                off += t.field_offset(*x as usize) as i64;
                                cur = Some(t.field(*x as usize).clone());
                            }
                            _ => {
                                let e = t.field(0).clone();
                                idx.push((o, it.bits() as u8, e.alloc_size() as i64));
                                cur = Some(e);
                            }
                        }
                    }
                }
                out.push(Inst::Gep(d, base, off, idx));
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp"
            | "sitofp" | "fptoui" | "fptosi" => {
                self.skip_flags(c);
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                if !c.eat_id("to") {
                    return Err("cast".into());
                }
                let t2 = ty(c)?;
                let k = match op {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "trunc" => Cast::Trunc,
                    "bitcast" => Cast::Bit,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    _ => {
                        if t.bits() != 64 || t2.bits() != 64 {
                            return Err("ptr cast width".into());
                        }
                        Cast::Same
                    }
                };
                out.push(Inst::Cast(k, d, Arc::new(t), Arc::new(t2), a));
            }
            "select" => {
                self.skip_flags(c);
                let ct = ty(c)?;
                let k = self.opd(c, &ct)?;
                c.need_p(',')?;
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                c.need_p(',')?;
                let t2 = ty(c)?;
                let b = self.opd(c, &t2)?;
                let t = Arc::new(t);
                out.push(if matches!(ct, Ty::Vec(..)) {
                    Inst::VSelect(d, t, k, a, b)
                } else {
                    Inst::Select(d, t, k, a, b)
                });
            }
            "extractvalue" => {
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                let mut ix = vec![];
                while c.eat_p(',') {
                    if !matches!(c.peek(), Some(Tok::Num(_))) {
                        break;
                    }
                    ix.push(num(c)? as u32);
                }
                out.push(Inst::Extract(d, a, ix));
            }
            "insertvalue" => {
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                c.need_p(',')?;
                let t2 = ty(c)?;
                let b = self.opd(c, &t2)?;
                let mut ix = vec![];
                while c.eat_p(',') {
                    if !matches!(c.peek(), Some(Tok::Num(_))) {
                        break;
                    }
                    ix.push(num(c)? as u32);
                }
                out.push(Inst::Insert(d, a, b, ix));
            }
            "extractelement" => {
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                c.need_p(',')?;
                let t2 = ty(c)?;
                let b = self.opd(c, &t2)?;
                out.push(Inst::ExtractElem(d, a, b));
            }
            "insertelement" => {
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                c.need_p(',')?;
                let t2 = ty(c)?;
                let b = self.opd(c, &t2)?;
                c.need_p(',')?;
                let t3 = ty(c)?;
                let k = self.opd(c, &t3)?;
                out.push(Inst::InsertElem(d, a, b, k));
            }
            "shufflevector" => {
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                c.need_p(',')?;
                let t2 = ty(c)?;
                let b = self.opd(c, &t2)?;
                c.need_p(',')?;
                let mt = ty(c)?;
                let m = match self.opd(c, &mt)? {
                    Opd::K(Val::A(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(n) => *n as i32,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                out.push(Inst::Shuffle(d, a, b, m));
            }
            "phi" => return Err("phi".into()),
            "freeze" => {
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                out.push(Inst::Freeze(d, a));
            }
            "fence" => out.push(Inst::Fence(order(c)?)),
            "atomicrmw" => {
                self.skip_flags(c);
                let k = match c.next()? {
                    Tok::Id(s) => match s.as_str() {
                        "add" => "add",
                        "sub" => "sub",
                        "xchg" => "xchg",
                        "and" => "and",
                        "or" => "or",
                        "xor" => "xor",
                        "umax" => "umax",
                        "umin" => "umin",
                        _ => return Err("atomicrmw".into()),
                    },
                    _ => return Err("atomicrmw".into()),
                };
                ty(c)?;
                let p = self.opd(c, &Ty::Ptr)?;
                c.need_p(',')?;
                let t = ty(c)?;
                let v = self.opd(c, &t)?;
                out.push(Inst::AtomicRmw(d, k, wof(&t)?, p, v, order(c)?));
            }
            "cmpxchg" => {
                self.skip_flags(c);
                ty(c)?;
                let p = self.opd(c, &Ty::Ptr)?;
                c.need_p(',')?;
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                c.need_p(',')?;
                let t2 = ty(c)?;
                let b = self.opd(c, &t2)?;
                let o = order(c)?;
                out.push(Inst::CmpXchg(d, wof(&t)?, p, a, b, o, order(c)?));
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "fneg" => {
                self.skip_flags(c);
                let t = ty(c)?;
                if t != Ty::F64 && t != Ty::F32 {
                    return Err("float type".into());
                }
                let a = self.opd(c, &t)?;
                let b = if op == "fneg" {
                    a.clone()
                } else {
                    c.need_p(',')?;
                    self.opd(c, &t)?
                };
                let k = match op {
                    "fadd" => "fadd",
                    "fsub" => "fsub",
                    "fmul" => "fmul",
                    "fdiv" => "fdiv",
                    _ => "fneg",
                };
                out.push(Inst::FOp(k, d, a, b, t == Ty::F32));
            }
            "fcmp" => {
                self.skip_flags(c);
                let k = match c.next()? {
                    Tok::Id(s) => match s.as_str() {
                        "oeq" => "oeq",
                        "olt" => "olt",
                        "ogt" => "ogt",
                        "ole" => "ole",
                        "oge" => "oge",
                        "une" => "une",
                        "one" => "one",
                        "ord" => "ord",
                        "uno" => "uno",
                        "ueq" => "ueq",
                        "ult" => "ult",
                        "ugt" => "ugt",
                        "ule" => "ule",
                        "uge" => "uge",
                        _ => return Err("fcmp".into()),
                    },
                    _ => return Err("fcmp".into()),
                };
                let t = ty(c)?;
                let a = self.opd(c, &t)?;
                c.need_p(',')?;
                let b = self.opd(c, &t)?;
                out.push(Inst::FOp(k, d, a, b, t == Ty::F32));
            }
            "br" => {
                if c.is_id("label") {
                    let l = self.label(c)?;
                    out.push(Inst::Br(l));
                } else {
                    let t = ty(c)?;
                    let k = self.opd(c, &t)?;
                    c.need_p(',')?;
                    let a = self.label(c)?;
                    c.need_p(',')?;
                    let b = self.label(c)?;
                    out.push(Inst::CondBr(k, a, b));
                }
            }
            "switch" => {
                let t = ty(c)?;
                let v = self.opd(c, &t)?;
                c.need_p(',')?;
                let def = self.label(c)?;
                c.need_p('[')?;
                let mut cases = vec![];
                while !c.is_p(']') {
                    let t2 = ty(c)?;
                    let k = match self.c.konst(c, &t2)? {
                        Val::C(x) => x,
                        _ => return Err("switch case".into()),
                    };
                    c.need_p(',')?;
                    let l = self.label(c)?;
                    cases.push((k, l));
                }
                out.push(Inst::Switch(v, wof(&t)?, def, cases));
            }
            "ret" => {
                let t = ty(c)?;
                if t == Ty::Void {
                    out.push(Inst::Ret(None));
                } else {
                    let v = self.opd(c, &t)?;
                    out.push(Inst::Ret(Some(v)));
                }
            }
            "unreachable" => out.push(Inst::Unreachable),
            "resume" | "landingpad" => out.push(Inst::Bad(op.to_string())),
            _ => return Err(format!("instruction {}", op)),
        }
        Ok(())
    }
}

pub fn parse_module(text: &str) -> Result<Module, String> {
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: names
    let mut names = Names {
        glob: HashMap::new(),
        func: HashMap::new(),
        ext: HashMap::new(),
        ext_names: vec![],
    };
    let mut glob_lines = vec![];
    let mut fn_ranges = vec![];
    let gname = |l: &str| -> String {
        let p = l.find('@').unwrap();
        match &lex(&l[p..p + l[p..].find(['(', ' ', '=']).unwrap_or(l.len() - p)])[0] {
            Tok::Glob(s) => s.clone(),
            _ => panic!(),
        }
    };
    let mut aliases: Vec<(String, String)> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let n = gname(l);
            if l.contains(" alias ") {
                let last = l.rfind('@').unwrap();
                let t = gname(&format!("{} ", &l[last..]));
                aliases.push((n, t));
            } else {
                names.glob.insert(n, glob_lines.len() as u32);
                glob_lines.push(l);
            }
        } else if l.starts_with("define ") {
            let n = gname(l);
            let s = i;
            while lines[i] != "}" {
                i += 1;
            }
            names.func.insert(n, fn_ranges.len() as u32);
            fn_ranges.push((s, i));
        } else if l.starts_with("declare ") {
            let n = gname(l);
            names.ext.insert(n.clone(), names.ext_names.len() as u32);
            names.ext_names.push(n);
        }
        i += 1;
    }
    for (a, t) in aliases {
        if let Some(f) = names.func.get(&t).copied() {
            names.func.insert(a, f);
        } else if let Some(g) = names.glob.get(&t).copied() {
            names.glob.insert(a, g);
        }
    }
    let ctx = Ctx {
        n: &names,
        ng: glob_lines.len() as u32,
        nf: fn_ranges.len() as u32,
        undef: std::cell::Cell::new(0),
    };
    let mut globals = vec![];
    for l in &glob_lines {
        let toks = lex(l);
        let mut c = Cur { t: &toks, i: 0 };
        let name = match c.next()? {
            Tok::Glob(s) => s.clone(),
            _ => return Err("global".into()),
        };
        c.need_p('=')?;
        let mut constant = false;
        let mut external = false;
        loop {
            match c.peek() {
                Some(Tok::Id(s)) if s == "global" => {
                    c.i += 1;
                    break;
                }
                Some(Tok::Id(s)) if s == "constant" => {
                    constant = true;
                    c.i += 1;
                    break;
                }
                Some(Tok::Id(s)) if s == "external" || s == "extern_weak" => {
                    external = true;
                    c.i += 1;
                }
                Some(Tok::P('(')) => c.skip_parens()?,
                Some(_) => c.i += 1,
                None => return Err(format!("global {}", l)),
            }
        }
        let t = ty(&mut c)?;
        let n = t.alloc_size() as usize;
        let mut bytes = vec![0u8; n];
        let mut init = vec![false; n];
        if !external {
            let v = ctx
                .konst(&mut c, &t)
                .map_err(|e| format!("global {}: {}", name, e))?;
            flatten(&t, &v, 0, &mut bytes, &mut init)?;
        } else {
            init.iter_mut().for_each(|b| *b = true);
        }
        globals.push(Global {
            name,
            ty: t,
            constant,
            external,
            bytes,
            init,
        });
    }
    let mut funcs = vec![];
    for (s, e) in &fn_ranges {
        let f = parse_fn(&ctx, &lines[*s..*e])?;
        funcs.push(f);
    }
    Ok(Module {
        funcs,
        globals,
        externs: names.ext_names.clone(),
    })
}

fn parse_fn(ctx: &Ctx, lines: &[&str]) -> Result<Func, String> {
    let head = lex(lines[0]);
    let mut c = Cur { t: &head, i: 0 };
    let mut f = FnCtx {
        c: ctx,
        regs: HashMap::new(),
        labels: HashMap::new(),
    };
    let name;
    loop {
        match c.next()? {
            Tok::Glob(s) => {
                name = s.clone();
                break;
            }
            _ => {}
        }
    }
    c.need_p('(')?;
    let mut nparams = 0;
    let mut depth = 1;
    // parameters are the %names at depth 1
    let mut unnamed = 0;
    while depth > 0 {
        match c.next()? {
            Tok::P('(') => depth += 1,
            Tok::P(')') => depth -= 1,
            Tok::Loc(n) if depth == 1 => {
                f.reg(n);
                nparams += 1;
                unnamed += 1;
            }
            _ => {}
        }
    }
    let entry_label = format!("{}", unnamed);
    // join multi-line instructions, find labels
    let mut stmts: Vec<(Option<String>, String)> = vec![];
    let mut i = 1;
    let mut cur_label: Option<String> = Some(String::new());
    while i < lines.len() {
        let l = lines[i];
        if l.is_empty() {
            i += 1;
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let n = l.split(|c| c == ':').next().unwrap();
            let n = n.trim_matches('"');
            cur_label = Some(n.to_string());
            i += 1;
            continue;
        }
        let t = l.trim_start();
        if t.starts_with('#') {
            i += 1;
            continue;
        }
        let mut s = t.to_string();
        if t.starts_with("switch ") {
            while !lines[i].trim_start().starts_with(']') {
                i += 1;
                s.push(' ');
                s.push_str(lines[i].trim());
            }
        } else if t.contains(" = invoke ") || t.starts_with("invoke ") {
            i += 1;
            s.push(' ');
            s.push_str(lines[i].trim());
        } else if t.contains(" = landingpad ") {
            while i + 1 < lines.len() {
                let n = lines[i + 1].trim_start();
                if n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") {
                    i += 1;
                } else {
                    break;
                }
            }
        }
        stmts.push((cur_label.take(), s));
        i += 1;
    }
    let mut nb = 0;
    for (l, _) in &stmts {
        if let Some(l) = l {
            let n = if l.is_empty() { entry_label.clone() } else { l.clone() };
            f.labels.insert(n, nb);
            nb += 1;
        }
    }
    let mut blocks: Vec<Block> = vec![];
    let mut ninsts = 0;
    for (l, s) in &stmts {
        if let Some(l) = l {
            blocks.push(Block {
                phis: vec![],
                phi_tys: vec![],
                insts: vec![],
                name: l.clone(),
            });
        }
        let toks = lex(s);
        let mut c = Cur { t: &toks, i: 0 };
        let b = blocks.last_mut().unwrap();
        ninsts += 1;
        if let (Some(Tok::Loc(n)), Some(Tok::P('=')), Some(Tok::Id(k))) = (c.peek(), c.at(1), c.at(2)) {
            if k == "phi" {
                let d = f.reg(n);
                c.i += 3;
                let mut inc = vec![];
                let mut pt = Ty::Void;
                let r: Result<(), String> = (|| {
                    f.skip_flags(&mut c);
                    let t = ty(&mut c)?;
                    pt = t.clone();
                    loop {
                        c.need_p('[')?;
                        let o = f.opd(&mut c, &t)?;
                        c.need_p(',')?;
                        match c.next()? {
                            Tok::Loc(n) => {
                                let l = *f.labels.get(n).ok_or(format!("phi label {}", n))?;
                                inc.push((l, o));
                            }
                            t => return Err(format!("phi {:?}", t)),
                        }
                        c.need_p(']')?;
                        if c.is_p(',') && c.at(1) == Some(&Tok::P('[')) {
                            c.i += 1;
                        } else {
                            return Ok(());
                        }
                    }
                })();
                if let Err(e) = r {
                    return Err(format!("{}: {}: {}", name, s, e));
                }
                b.phis.push((d, inc));
                b.phi_tys.push(pt);
                continue;
            }
        }
        let mut out = vec![];
        if let Err(e) = f.inst(&mut c, &mut out) {
            out.clear();
            out.push(Inst::Bad(format!("{}: {}", e, s)));
        }
        b.insts.extend(out);
    }
    Ok(Func {
        name,
        nparams,
        nregs: f.regs.len() as u32,
        blocks,
        ninsts,
    })
}
