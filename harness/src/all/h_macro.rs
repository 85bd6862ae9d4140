//! The procedural macros: their code runs here as ordinary functions on token
//! streams, and what they emit is evaluated by a small interpreter.
use super::h_alg::*;
use super::refalg as r;
use super::rt::*;
use cubing_core::alg::{Alg, Move, MoveLayer, MovePrefix, MoveRange, QuantumMove};
use proc_macro2::{Literal, TokenStream, TokenTree};
use std::sync::Arc;
use syn::Expr;

/// The value of emitted code.
#[derive(Clone)]
enum V {
    Str(String),
    Int(i64),
    Tuple(Vec<V>),
    Opt(Option<Box<V>>),
    /// `Ok` or, when parsing failed, `Err`
    Res(Option<Box<V>>),
    Layer(MoveLayer),
    Range(MoveRange),
    Prefix(MovePrefix),
    Quantum(QuantumMove),
    Move(Move),
    Alg(Alg),
}
use V::*;
/// Code that this interpreter does not understand, so that nothing is claimed.
struct Unknown;
type E = Result<V, Unknown>;

fn last(p: &syn::Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}
/// The type before the last segment of a path such as `Arc::new`.
fn owner(p: &syn::Path) -> String {
    let n = p.segments.len();
    if n > 1 { p.segments[n - 2].ident.to_string() } else { String::new() }
}
fn ty(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => last(&p.path),
        _ => String::new(),
    }
}
fn int(v: V) -> Result<i64, Unknown> {
    match v {
        Int(i) => Ok(i),
        _ => Err(Unknown),
    }
}
fn text(v: V) -> Result<String, Unknown> {
    match v {
        Str(s) => Ok(s),
        _ => Err(Unknown),
    }
}
fn layer(v: V) -> Result<u32, Unknown> {
    match v {
        Int(i) => u32::try_from(i).map_err(|_| Unknown),
        Layer(l) => Ok(l.layer),
        _ => Err(Unknown),
    }
}
fn prefix(v: V) -> Result<MovePrefix, Unknown> {
    Ok(match v {
        Prefix(p) => p,
        Layer(l) => MovePrefix::Layer(l),
        Range(r) => MovePrefix::Range(r),
        Int(_) => MovePrefix::Layer(MoveLayer { layer: layer(v)? }),
        Tuple(mut t) if t.len() == 2 => {
            let inner_layer = layer(t.pop().unwrap())?;
            let outer_layer = layer(t.pop().unwrap())?;
            MovePrefix::Range(MoveRange { outer_layer, inner_layer })
        }
        _ => return Err(Unknown),
    })
}
fn opt_prefix(v: V) -> Result<Option<MovePrefix>, Unknown> {
    Ok(match v {
        Opt(None) => None,
        Opt(Some(v)) => Some(prefix(*v)?),
        v => Some(prefix(v)?),
    })
}
fn quantum(v: V) -> Result<QuantumMove, Unknown> {
    match v {
        Quantum(q) => Ok(q),
        _ => Err(Unknown),
    }
}
fn parse(ty: &str, s: &str) -> E {
    let v = match ty {
        "Alg" => s.parse().ok().map(Alg),
        "Move" => s.parse().ok().map(Move),
        "QuantumMove" => s.parse().ok().map(Quantum),
        _ => return Err(Unknown),
    };
    Ok(Res(v.map(Box::new)))
}
fn call(owner: &str, name: &str, mut a: Vec<V>) -> E {
    let n = a.len();
    Ok(match (owner, name, n) {
        (_, "Some", 1) => Opt(Some(Box::new(a.pop().unwrap()))),
        (_, "Ok", 1) => Res(Some(Box::new(a.pop().unwrap()))),
        ("Arc" | "Rc" | "Box", "new" | "from", 1) => a.pop().unwrap(),
        ("String" | "str", "from" | "to_owned" | "to_string", 1) => Str(text(a.pop().unwrap())?),
        ("i32" | "u32" | "i64", "from", 1) => Int(int(a.pop().unwrap())?),
        ("MoveLayer", "new" | "from", 1) => Layer(MoveLayer { layer: layer(a.pop().unwrap())? }),
        ("MoveRange", "new", 2) | ("MoveRange", "from", 1) => match prefix(if n == 2 { Tuple(a) } else { a.pop().unwrap() })? {
            MovePrefix::Range(r) => Range(r),
            _ => return Err(Unknown),
        },
        ("MovePrefix", "from", 1) => Prefix(prefix(a.pop().unwrap())?),
        ("MovePrefix", "Layer", 1) => Prefix(MovePrefix::Layer(MoveLayer { layer: layer(a.pop().unwrap())? })),
        ("MovePrefix", "Range", 1) => match prefix(a.pop().unwrap())? {
            p @ MovePrefix::Range(_) => Prefix(p),
            _ => return Err(Unknown),
        },
        ("QuantumMove", "new", 2) => {
            let prefix = opt_prefix(a.pop().unwrap())?;
            Quantum(QuantumMove { family: text(a.pop().unwrap())?, prefix })
        }
        ("Alg" | "Move" | "QuantumMove", "from_str" | "try_from", 1) => parse(owner, &text(a.pop().unwrap())?)?,
        _ => return Err(Unknown),
    })
}
fn eval(e: &Expr, env: &mut Vec<(String, V)>) -> E {
    Ok(match e {
        Expr::Paren(p) => eval(&p.expr, env)?,
        Expr::Group(p) => eval(&p.expr, env)?,
        Expr::Reference(p) => eval(&p.expr, env)?,
        Expr::Cast(p) => eval(&p.expr, env)?,
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Str(s.value()),
            syn::Lit::Int(i) => Int(i.base10_parse().map_err(|_| Unknown)?),
            _ => return Err(Unknown),
        },
        Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => Int(-int(eval(expr, env)?)?),
        Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr, .. }) => eval(expr, env)?,
        Expr::Tuple(t) => Tuple(t.elems.iter().map(|e| eval(e, env)).collect::<Result<_, _>>()?),
        Expr::Path(p) => {
            let n = last(&p.path);
            match env.iter().rev().find(|x| x.0 == n) {
                Some(x) => x.1.clone(),
                None if n == "None" => Opt(None),
                None => return Err(Unknown),
            }
        }
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let a = c.args.iter().map(|e| eval(e, env)).collect::<Result<_, _>>()?;
                call(&owner(&p.path), &last(&p.path), a)?
            }
            _ => return Err(Unknown),
        },
        Expr::MethodCall(c) => {
            let v = eval(&c.receiver, env)?;
            match (&*c.method.to_string(), v) {
                ("unwrap" | "expect", Res(v) | Opt(v)) => *v.ok_or(Unknown)?,
                ("parse", Str(s)) => match &c.turbofish {
                    Some(t) if t.args.len() == 1 => match &t.args[0] {
                        syn::GenericArgument::Type(t) => parse(&ty(t), &s)?,
                        _ => return Err(Unknown),
                    },
                    _ => return Err(Unknown),
                },
                ("into" | "to_owned" | "to_string" | "clone" | "as_str" | "as_ref", v) => v,
                ("invert", Alg(a)) => Alg(a.invert()),
                ("invert", Move(m)) => Move(m.invert()),
                _ => return Err(Unknown),
            }
        }
        Expr::Struct(s) => {
            let mut f = |n: &str| {
                let e = s.fields.iter().find(|f| matches!(&f.member, syn::Member::Named(i) if i == n)).ok_or(Unknown)?;
                eval(&e.expr, env)
            };
            match &*last(&s.path) {
                "Move" => Move(Move { quantum: Arc::new(quantum(f("quantum")?)?), amount: i32::try_from(int(f("amount")?)?).map_err(|_| Unknown)? }),
                "QuantumMove" => Quantum(QuantumMove { family: text(f("family")?)?, prefix: opt_prefix(f("prefix")?)? }),
                "MoveLayer" => Layer(MoveLayer { layer: layer(f("layer")?)? }),
                "MoveRange" => Range(MoveRange { outer_layer: layer(f("outer_layer")?)?, inner_layer: layer(f("inner_layer")?)? }),
                _ => return Err(Unknown),
            }
        }
        Expr::Block(b) => {
            let n = env.len();
            let mut v = Err(Unknown);
            for s in &b.block.stmts {
                match s {
                    syn::Stmt::Local(syn::Local { pat: syn::Pat::Ident(i), init: Some(x), .. }) => {
                        let w = eval(&x.expr, env)?;
                        env.push((i.ident.to_string(), w));
                    }
                    syn::Stmt::Local(syn::Local { pat: syn::Pat::Type(t), init: Some(x), .. }) => match &*t.pat {
                        syn::Pat::Ident(i) => {
                            let w = eval(&x.expr, env)?;
                            env.push((i.ident.to_string(), w));
                        }
                        _ => return Err(Unknown),
                    },
                    syn::Stmt::Item(syn::Item::Use(_)) => (),
                    syn::Stmt::Expr(e, None) => v = eval(e, env),
                    _ => return Err(Unknown),
                }
            }
            env.truncate(n);
            v?
        }
        _ => return Err(Unknown),
    })
}
/// Whether the emitted code is a compilation error.
fn refuses(t: &TokenStream) -> bool {
    t.clone().into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == "compile_error",
        TokenTree::Group(g) => refuses(&g.stream()),
        _ => false,
    })
}
fn literal(s: &str) -> TokenStream {
    TokenTree::Literal(Literal::string(s)).into()
}
fn result(t: TokenStream) -> E {
    eval(&syn::parse2::<Expr>(t).map_err(|_| Unknown)?, &mut vec![])
}
fn check_move(s: &str) {
    let want = s.parse::<Move>();
    let t = cubing_macros::parse_move(literal(s));
    match want {
        Err(_) => {
            cover(1);
            check!(2401 "text that is no move is refused while compiling", refuses(&t));
        }
        Ok(m) => {
            check!(2402 "text that is a move is accepted while compiling", !refuses(&t));
            match result(t) {
                Ok(Move(x)) => {
                    cover(2);
                    check!(2403 "`parse_move!` gives the move that parsing gives", x == m);
                }
                Ok(_) => check!(2404 "`parse_move!` gives a move", false),
                Err(_) => cover(9),
            }
        }
    }
}
fn check_alg(s: &str) {
    let want = s.parse::<Alg>();
    let t = cubing_macros::parse_alg(literal(s));
    match want {
        Err(_) => {
            cover(1);
            check!(2405 "text that is no alg is refused while compiling", refuses(&t));
        }
        Ok(a) => {
            check!(2406 "text that is an alg is accepted while compiling", !refuses(&t));
            match result(t) {
                Ok(Alg(x)) => {
                    cover(2);
                    check!(2407 "`parse_alg!` gives the alg that parsing gives", x == a);
                }
                Ok(_) => check!(2408 "`parse_alg!` gives an alg", false),
                Err(_) => cover(9),
            }
        }
    }
}

/// ASCII text of at most `max` bytes.
fn ascii_text(max: usize) -> String {
    let n = pick(max + 1);
    (0..n)
        .map(|_| {
            let b = any_u8();
            assume(b < 128);
            b as char
        })
        .collect()
}
/// A text for one of the macros.
fn check_text(s: &str) {
    if pick(2) == 0 { check_move(s) } else { check_alg(s) }
}
fn stream(s: &str) -> Option<TokenStream> {
    s.parse().ok()
}

harnesses! {
    fn h_macro_text() {
        // ASCII text, or text with one of some other characters
        let (n, m) = if thorough() { (4, 2) } else { (3, 1) };
        let s = match pick(8) {
            0 => ascii_text(n),
            k => {
                let s = ascii_text(m);
                let c = ["\u{e9}", "\u{300}", "\u{d55c}", "\u{1f600}", "\u{200b}", "\u{feff}", "\u{ff11}"][k - 1];
                let at = pick(s.len() + 1);
                format!("{}{}{}", &s[..at], c, &s[at..])
            }
        };
        check_text(&s);
    }
    fn h_macro_numbers() {
        // moves with numerals at the limits
        if let Some(s) = any_numeric_text() {
            assume(s.is_ascii());
            if thorough() { check_text(&s) } else { check_move(&s) }
        }
    }
    fn h_macro_moves() {
        // every kind of prefix and family with any small amount
        let (p, f, a) = (any_prefix(1), any_family(), any_amount(1));
        check_move(&r::to_move(&r::N::Move(p, f, a)).to_string());
    }
    fn h_macro_tokens() {
        // a string literal in any form is accepted, and anything else refused
        let b = any_u8();
        assume((b | 32).wrapping_sub(b'a') < 26);
        let c = b as char;
        let (text, is) = match pick(16) {
            0 => (format!("\"{c}\""), true),
            1 => (format!("r\"{c}\""), true),
            2 => (format!("r#\"{c}\"#"), true),
            3 => (format!("\"{c}\"_"), true),
            4 => (format!("\"\\x{:02x}\"", fix(b as u64)), true),
            5 => (format!("\"\\u{{{:x}}}\"", fix(b as u64)), true),
            6 => (format!("\"\\\n   {c}\""), true),
            7 => (format!("b\"{c}\""), false),
            8 => (format!("'{c}'"), false),
            9 => (format!("{c}"), false),
            10 => ("1".to_owned(), false),
            11 => (String::new(), false),
            12 => (format!("\"{c}\" \"{c}\""), false),
            13 => (format!("\"{c}\","), false),
            14 => (format!("(\"{c}\")"), false),
            _ => (format!("-\"{c}\""), false),
        };
        let t = match stream(&text) {
            Some(t) => t,
            None => return check!(2409 "the text is lexed", false),
        };
        let as_move = pick(2) == 0;
        let out = if as_move { cubing_macros::parse_move(t) } else { cubing_macros::parse_alg(t) };
        if !is {
            cover(1);
            return check!(2410 "anything but one string literal is refused while compiling", refuses(&out));
        }
        check!(2411 "one string literal is accepted in any form", !refuses(&out));
        let s = c.to_string();
        match result(out) {
            Ok(Move(m)) => {
                cover(2);
                check!(2412 "`parse_move!` gives the move written", as_move && m == s.parse::<Move>().unwrap_or_else(|_| unreachable!()));
            }
            Ok(Alg(a)) => {
                cover(2);
                check!(2413 "`parse_alg!` gives the alg written", !as_move && a == s.parse::<Alg>().unwrap_or_else(|_| unreachable!()));
            }
            Ok(_) => check!(2414 "the macros give moves and algs", false),
            Err(_) => cover(9),
        }
    }
}
