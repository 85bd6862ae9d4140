//! Memory: every allocation is its own object at its own 4 GiB-aligned base, so that an access
//! outside an object, or to a freed one, is always recognised.  Byte-granular initialisation and
//! symbolic contents; copy-on-write between states.
use crate::expr::{self, ExprRef};
use crate::ir::*;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OKind {
    Heap,
    Stack,
    Global,
    Const,
    Func,
}
#[derive(Clone, Debug)]
pub enum St {
    Init,
    Uninit,
    Map(Box<[u8]>), // 0 concrete, 1 uninitialised, 2 symbolic
}
type SymB = Option<(ExprRef, u8)>;
#[derive(Clone, Debug)]
pub struct Obj {
    pub size: u32,
    pub align: u32,
    pub kind: OKind,
    pub data: Box<[u8]>,
    pub st: St,
    pub sym: Option<Box<[SymB]>>,
    /// the thread that made it
    pub owner: u8,
}
impl Obj {
    pub fn new(size: u32, align: u32, kind: OKind) -> Obj {
        Obj {
            size,
            align,
            kind,
            data: vec![0; size as usize].into_boxed_slice(),
            st: if size == 0 { St::Init } else { St::Uninit },
            sym: None,
            owner: 0,
        }
    }
    fn map(&mut self) -> &mut [u8] {
        match &self.st {
            St::Init => self.st = St::Map(vec![0; self.size as usize].into_boxed_slice()),
            St::Uninit => self.st = St::Map(vec![1; self.size as usize].into_boxed_slice()),
            _ => {}
        }
        match &mut self.st {
            St::Map(m) => m,
            _ => unreachable!(),
        }
    }
    #[inline]
    pub fn state(&self, o: usize) -> u8 {
        match &self.st {
            St::Init => 0,
            St::Uninit => 1,
            St::Map(m) => m[o],
        }
    }
    fn mark_init(&mut self, o: usize, n: usize) {
        match &mut self.st {
            St::Init => {}
            St::Uninit => {
                if o == 0 && n == self.size as usize {
                    self.st = St::Init;
                } else {
                    let m = self.map();
                    m[o..o + n].fill(0);
                }
            }
            St::Map(m) => {
                if let Some(s) = &mut self.sym {
                    for k in o..o + n {
                        if m[k] == 2 {
                            s[k] = None;
                        }
                    }
                }
                m[o..o + n].fill(0);
                if n == self.size as usize {
                    self.st = St::Init;
                    self.sym = None;
                }
            }
        }
    }
    pub fn write_conc(&mut self, o: usize, v: u64, n: usize) {
        self.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        self.mark_init(o, n);
    }
    pub fn write_slice(&mut self, o: usize, b: &[u8]) {
        self.data[o..o + b.len()].copy_from_slice(b);
        self.mark_init(o, b.len());
    }
    pub fn fill(&mut self, o: usize, n: usize, v: u8) {
        self.data[o..o + n].fill(v);
        self.mark_init(o, n);
    }
    pub fn write_uninit(&mut self, o: usize, n: usize) {
        if let St::Uninit = self.st {
            return;
        }
        let m = self.map();
        m[o..o + n].fill(1);
        if let Some(s) = &mut self.sym {
            s[o..o + n].fill(None);
        }
    }
    pub fn write_sym(&mut self, o: usize, e: &ExprRef, n: usize) {
        let size = self.size as usize;
        let m = self.map();
        m[o..o + n].fill(2);
        let s = self
            .sym
            .get_or_insert_with(|| vec![None; size].into_boxed_slice());
        for k in 0..n {
            s[o + k] = Some((e.clone(), k as u8));
        }
    }
    fn write_symb(&mut self, o: usize, e: &ExprRef, idx: u8) {
        let size = self.size as usize;
        let m = self.map();
        m[o] = 2;
        let s = self
            .sym
            .get_or_insert_with(|| vec![None; size].into_boxed_slice());
        s[o] = Some((e.clone(), idx));
    }
    pub fn byte_expr(&self, o: usize, id: u32) -> ExprRef {
        match self.state(o) {
            0 => expr::konst(self.data[o] as u128, 8),
            1 => expr::uninit((id as u64) << 32 | o as u64, 8),
            _ => {
                let (e, k) = self.sym.as_ref().unwrap()[o].as_ref().unwrap();
                expr::extract(e, k * 8, 8)
            }
        }
    }
    /// n <= 16 bytes, little endian
    pub fn read(&self, o: usize, n: usize, id: u32) -> Val {
        let conc = match &self.st {
            St::Init => true,
            St::Uninit => n == 0,
            St::Map(m) => m[o..o + n].iter().all(|x| *x == 0),
        };
        if conc {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&self.data[o..o + n]);
                return Val::C(u64::from_le_bytes(b));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&self.data[o..o + n]);
            return Val::E(expr::konst(u128::from_le_bytes(b), (n * 8) as u8));
        }
        if (0..n).all(|k| self.state(o + k) == 1) {
            return Val::E(expr::uninit((id as u64) << 32 | o as u64, (n * 8) as u8));
        }
        if let Some(s) = &self.sym {
            if let Some((e, 0)) = &s[o] {
                if e.w as usize == n * 8
                    && (0..n).all(|k| {
                        self.state(o + k) == 2
                            && matches!(&s[o+k], Some((f, j)) if *j as usize == k && f.hash == e.hash)
                    })
                {
                    return Val::E(e.clone());
                }
            }
        }
        let mut e = self.byte_expr(o + n - 1, id);
        for k in (0..n - 1).rev() {
            e = expr::concat(&e, &self.byte_expr(o + k, id));
        }
        match e.as_const() {
            Some(c) if n <= 8 => Val::C(c as u64),
            _ => Val::E(e),
        }
    }
}

pub const CH: usize = 128;
#[derive(Clone)]
pub struct Chunk {
    slots: Vec<Option<Arc<Obj>>>,
}
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Arc<Chunk>>,
    pub next: u32,
    freed: std::collections::VecDeque<u32>,
    pub live_heap: u64,
    pub live_bytes: u64,
    /// the running thread
    pub owner: u8,
}

#[derive(Debug, Clone)]
pub enum MemErr {
    Null(u64),
    Dangling(u64),
    Freed(u32),
    Oob(u32, i64, u64, u32, OKind),
    ReadOnly(u32),
    Func(u32),
}

impl Mem {
    pub fn new() -> Mem {
        Mem {
            chunks: vec![],
            next: 0,
            freed: Default::default(),
            live_heap: 0,
            live_bytes: 0,
            owner: 0,
        }
    }
    pub fn add(&mut self, mut o: Obj) -> u32 {
        o.owner = self.owner;
        // a freed id is used again only after many others have been freed
        let id = if self.freed.len() > 1500 {
            self.freed.pop_front().unwrap()
        } else {
            self.next += 1;
            self.next - 1
        };
        let c = id as usize / CH;
        if c == self.chunks.len() {
            self.chunks.push(Arc::new(Chunk {
                slots: vec![None; CH],
            }));
        }
        if o.kind == OKind::Heap {
            self.live_heap += 1;
            self.live_bytes += o.size as u64;
        }
        Arc::make_mut(&mut self.chunks[c]).slots[id as usize % CH] = Some(Arc::new(o));
        id
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Arc<Obj>> {
        self.chunks
            .get(id as usize / CH)?
            .slots
            .get(id as usize % CH)?
            .as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let s = Arc::make_mut(c).slots.get_mut(id as usize % CH)?.as_mut()?;
        Some(Arc::make_mut(s))
    }
    pub fn free(&mut self, id: u32) -> Option<Arc<Obj>> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let o = Arc::make_mut(c).slots.get_mut(id as usize % CH)?.take()?;
        self.freed.push_back(id);
        if o.kind == OKind::Heap {
            self.live_heap -= 1;
            self.live_bytes -= o.size as u64;
        }
        Some(o)
    }
    /// object and offset of an access of n bytes at addr
    #[inline]
    pub fn locate(&self, addr: u64, n: u64, write: bool) -> Result<(u32, usize), MemErr> {
        let hi = addr >> BASE_SHIFT;
        if hi == 0 {
            if n == 0 {
                return Ok((u32::MAX, 0));
            }
            return Err(MemErr::Null(addr));
        }
        let mut id = (hi - 1) as u32;
        let mut off = (addr & 0xffff_ffff) as i64;
        if hi - 1 >= self.next as u64 {
            return Err(MemErr::Dangling(addr));
        }
        // an address a little below a base belongs to the following object
        if off > 0xf000_0000 && id + 1 < self.next {
            id += 1;
            off -= 1 << 32;
        }
        let o = match self.get(id) {
            Some(o) => o,
            None => {
                if n == 0 {
                    return Ok((u32::MAX, 0));
                }
                return Err(MemErr::Freed(id));
            }
        };
        if off < 0 || off as u64 + n > o.size as u64 {
            if n == 0 {
                return Ok((u32::MAX, 0));
            }
            return Err(MemErr::Oob(id, off, n, o.size, o.kind));
        }
        if o.kind == OKind::Func && n > 0 {
            return Err(MemErr::Func(id));
        }
        if write && o.kind == OKind::Const && n > 0 {
            return Err(MemErr::ReadOnly(id));
        }
        Ok((id, off as usize))
    }
    pub fn copy(
        &mut self,
        d: (u32, usize),
        s: (u32, usize),
        n: usize,
    ) {
        if n == 0 {
            return;
        }
        let src = self.get(s.0).unwrap().clone();
        let simple = match &src.st {
            St::Init => true,
            St::Uninit => false,
            St::Map(m) => m[s.1..s.1 + n].iter().all(|x| *x == 0),
        };
        let dst = self.get_mut(d.0).unwrap();
        if simple {
            dst.write_slice(d.1, &src.data[s.1..s.1 + n]);
            return;
        }
        // gather first (memmove semantics: `src` is a snapshot)
        for k in 0..n {
            match src.state(s.1 + k) {
                0 => dst.write_conc(d.1 + k, src.data[s.1 + k] as u64, 1),
                1 => dst.write_uninit(d.1 + k, 1),
                _ => {
                    let (e, j) = src.sym.as_ref().unwrap()[s.1 + k].as_ref().unwrap();
                    dst.write_symb(d.1 + k, e, *j);
                }
            }
        }
    }
}
