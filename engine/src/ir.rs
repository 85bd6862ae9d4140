//! Compact form of the LLVM IR that the executor runs.
use crate::expr::{ExprRef, Op};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(ExprRef),
    A(Arc<Vec<Val>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F64,
    F32,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n as u32,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => ((self.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => (self.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f {
                    if !packed {
                        o = up(o, t.align());
                    }
                    o += t.alloc_size();
                }
                if !packed {
                    o = up(o, self.align());
                }
                o
            }
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        up(self.store_size(), self.align())
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.alloc_size();
                }
                panic!()
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.alloc_size(),
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}
pub fn up(x: u64, a: u64) -> u64 {
    if a <= 1 {
        x
    } else {
        (x + a - 1) / a * a
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit,
    /// no-op on the value (ptrtoint/inttoptr of 64 bits)
    Same,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    LifeEnd,
    Memcpy,
    Memmove,
    Memset,
    Assume,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    BitReverse,
    BSwap,
    Ctlz,
    Cttz,
    Ctpop,
    IsConstant,
    Expect,
    FshL,
    FshR,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UCmp,
    SCmp,
    Abs,
    FAbs,
    ThreadLocalAddress,
    Trap,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(u32), // index into externs
    Intr(Intr, u8 /*element width*/),
    Ind(Opd),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Op, u8, u32, Opd, Opd),
    VBin(Op, u8, u32, Opd, Opd),
    /// icmp: op, negate, swap
    Cmp(Op, bool, bool, u8, u32, Opd, Opd),
    VCmp(Op, bool, bool, u8, u32, Opd, Opd),
    /// (single precision if the last)
    FOp(&'static str, u32, Opd, Opd, bool),
    Load(u32, Arc<Ty>, Opd),
    Store(Arc<Ty>, Opd, Opd), // value, pointer
    Alloca(u32, u64, u64),
    Gep(u32, Opd, i64, Vec<(Opd, u8, i64)>), // index, its width, scale
    Cast(Cast, u32, Arc<Ty>, Arc<Ty>, Opd),
    Select(u32, Arc<Ty>, Opd, Opd, Opd),
    VSelect(u32, Arc<Ty>, Opd, Opd, Opd),
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Opd, Opd, Vec<u32>),
    ExtractElem(u32, Opd, Opd),
    InsertElem(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i32>),
    Call(Option<u32>, Callee, Vec<(Opd, u8)>, Arc<Ty>), // args with widths; return type
    // the last number is the ordering: 1 acquires, 2 releases
    ALoad(u32, u8, Opd, u8),
    AStore(u8, Opd, Opd, u8),
    AtomicRmw(u32, &'static str, u8, Opd, Opd, u8),
    CmpXchg(u32, u8, Opd, Opd, Opd, u8, u8), // ordering on success and on failure
    Fence(u8),
    Freeze(u32, Opd),
    // terminators
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u8, u32, Vec<(u64, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Block {
    /// per predecessor block: list of (dst, operand)
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub phi_tys: Vec<Ty>,
    pub insts: Vec<Inst>,
    pub name: String,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninsts: u32,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub constant: bool,
    pub external: bool,
    pub bytes: Vec<u8>,
    pub init: Vec<bool>,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub externs: Vec<String>,
}

/// Object ids: globals first, then functions, then externs; then run-time objects.
pub const BASE_SHIFT: u32 = 32;
pub fn base_of(obj: u32) -> u64 {
    ((obj as u64) + 1) << BASE_SHIFT
}
