//! Where two ways of a branch meet again without having done anything: both are then
//! followed on one path, and what differs becomes a choice by the condition.
use crate::ir::*;

const MAX_BLOCKS: usize = 12;
const MAX_INSTS: usize = 48;

fn pure(i: &Inst) -> bool {
    use Intr::*;
    match i {
        Inst::Bin(..)
        | Inst::Cmp(..)
        | Inst::Load(..)
        | Inst::Store(..)
        | Inst::Gep(..)
        | Inst::Select(..)
        | Inst::Extract(..)
        | Inst::Insert(..)
        | Inst::Freeze(..)
        | Inst::Br(..)
        | Inst::CondBr(..)
        | Inst::Switch(..) => true,
        Inst::Cast(k, ..) => matches!(k, Cast::ZExt | Cast::SExt | Cast::Trunc | Cast::Bit | Cast::Same),
        Inst::Call(_, Callee::Intr(k, _), _, _) => matches!(
            k,
            Nop | LifeEnd
                | UMax
                | UMin
                | SMax
                | SMin
                | UAddSat
                | USubSat
                | SAddSat
                | SSubSat
                | BitReverse
                | BSwap
                | Ctpop
                | Expect
                | FshL
                | FshR
                | UAddO
                | USubO
                | UMulO
                | SAddO
                | SSubO
                | SMulO
                | UCmp
                | SCmp
                | Abs
        ),
        _ => false,
    }
}
fn succ(b: &Block) -> Option<Vec<u32>> {
    match b.insts.last()? {
        Inst::Br(l) => Some(vec![*l]),
        Inst::CondBr(_, x, y) => Some(vec![*x, *y]),
        Inst::Switch(_, _, d, c) => {
            let mut v = vec![*d];
            v.extend(c.iter().map(|c| c.1));
            v.sort_unstable();
            v.dedup();
            Some(v)
        }
        _ => None,
    }
}
/// The block never comes back (it panics).
fn dead(b: &Block) -> bool {
    matches!(b.insts.last(), Some(Inst::Unreachable))
}
fn passable(b: &Block) -> bool {
    succ(b).is_some() && b.insts.iter().all(pure)
}
/// Instructions between `at` and `j` on all ways, if all of them are pure and end there.
fn region(f: &Func, at: u32, j: u32, ways: &[u32]) -> Option<usize> {
    fn go(f: &Func, at: u32, j: u32, b: u32, open: &mut Vec<u32>, seen: &mut Vec<u32>, n: &mut usize) -> bool {
        if b == j {
            return true;
        }
        if b == at || open.contains(&b) {
            return false;
        }
        if seen.contains(&b) {
            return true;
        }
        let k = &f.blocks[b as usize];
        if dead(k) {
            return true;
        }
        if !passable(k) || seen.len() >= MAX_BLOCKS {
            return false;
        }
        seen.push(b);
        *n += k.insts.len();
        if *n > MAX_INSTS {
            return false;
        }
        open.push(b);
        for s in succ(k).unwrap() {
            if !go(f, at, j, s, open, seen, n) {
                return false;
            }
        }
        open.pop();
        true
    }
    let (mut open, mut seen, mut n) = (vec![], vec![], 0);
    for w in ways {
        if !go(f, at, j, *w, &mut open, &mut seen, &mut n) {
            return None;
        }
    }
    Some(n)
}
/// The block where the ways out of `at` meet.
pub fn join(f: &Func, at: u32) -> Option<u32> {
    let ways = succ(&f.blocks[at as usize])?;
    if ways.len() != 2 || ways.iter().any(|w| dead(&f.blocks[*w as usize])) {
        return None;
    }
    let mut near = ways.clone();
    let mut i = 0;
    while i < near.len() && near.len() < 3 * MAX_BLOCKS {
        let b = &f.blocks[near[i] as usize];
        if passable(b) {
            for s in succ(b).unwrap() {
                if !near.contains(&s) && !dead(&f.blocks[s as usize]) {
                    near.push(s);
                }
            }
        }
        i += 1;
    }
    let mut best: Option<(usize, u32)> = None;
    for j in near {
        if j == at || !f.blocks[j as usize].phi_tys.iter().all(|t| matches!(t, Ty::Int(n) if *n <= 32)) {
            continue;
        }
        if let Some(n) = region(f, at, j, &ways) {
            if best.map_or(true, |b| n < b.0) {
                best = Some((n, j));
            }
        }
    }
    best.map(|b| b.1)
}
