//! Two threads within one path: which one runs, what happened before what, and
//! which accesses to shared memory nothing orders (data races).
use crate::ir::Val;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

/// For each of the two threads, the part of its history that has been seen.
pub type Clock = [u32; 2];
pub fn join(a: &mut Clock, b: &Clock) {
    for k in 0..2 {
        a[k] = a[k].max(b[k]);
    }
}

/// When each thread last accessed a byte (0: never).
#[derive(Clone, Copy, Default)]
pub struct Seen {
    read: Clock,
    write: Clock,
    aread: Clock,
    awrite: Clock,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Access {
    Read,
    Write,
    AtomicRead,
    AtomicWrite,
}

#[derive(Clone)]
pub struct Thread<F> {
    pub frames: Vec<F>,
    pub regs: Vec<Val>,
    pub clock: Clock,
    /// what an acquire fence would make visible, and what a release fence did
    pub before_acquire: Clock,
    pub released: Clock,
    pub done: bool,
    pub waits: Option<u64>,
    pub tls: BTreeMap<u32, u32>,
}

#[derive(Clone)]
pub struct Par<F> {
    pub cur: usize,
    pub threads: [Thread<F>; 2],
    pub main: (Vec<F>, Vec<Val>),
    /// switches left that nothing forces
    pub left: u32,
    /// this scheduling point has been decided already
    pub decided: bool,
    /// what an acquiring read of an address makes visible
    sync: BTreeMap<u64, Clock>,
    shadow: HashMap<u32, Arc<Vec<Seen>>>,
    pub switches: u32,
}

impl<F> Par<F> {
    pub fn new(t0: Vec<F>, r0: Vec<Val>, t1: Vec<F>, r1: Vec<Val>, main: (Vec<F>, Vec<Val>), left: u32) -> Par<F> {
        let t = |frames, regs, k: usize| Thread {
            frames,
            regs,
            clock: [(k == 0) as u32, (k == 1) as u32],
            before_acquire: [0; 2],
            released: [0; 2],
            done: false,
            waits: None,
            tls: BTreeMap::new(),
        };
        Par {
            cur: 0,
            threads: [t(t0, r0, 0), t(t1, r1, 1)],
            main,
            left,
            decided: false,
            sync: BTreeMap::new(),
            shadow: HashMap::new(),
            switches: 0,
        }
    }
    pub fn can_run(&self, k: usize) -> bool {
        !self.threads[k].done && self.threads[k].waits.is_none()
    }
    pub fn acquire(&mut self, addr: u64, order: u8) {
        if let Some(c) = self.sync.get(&addr).copied() {
            let t = &mut self.threads[self.cur];
            join(if order & 1 == 1 { &mut t.clock } else { &mut t.before_acquire }, &c);
        }
    }
    pub fn release(&mut self, addr: u64, order: u8, rmw: bool) {
        let k = self.cur;
        let t = &mut self.threads[k];
        let mut c = if order & 2 == 2 { t.clock } else { t.released };
        if order & 2 == 2 {
            t.clock[k] += 1;
        }
        if rmw {
            if let Some(o) = self.sync.get(&addr) {
                join(&mut c, o);
            }
        }
        self.sync.insert(addr, c);
    }
    pub fn fence(&mut self, order: u8) {
        let k = self.cur;
        let t = &mut self.threads[k];
        if order & 1 == 1 {
            let c = t.before_acquire;
            join(&mut t.clock, &c);
        }
        if order & 2 == 2 {
            t.released = t.clock;
            t.clock[k] += 1;
        }
    }
    /// A new object may have the number of an old one.
    pub fn fresh(&mut self, obj: u32) {
        self.shadow.remove(&obj);
        let b = crate::ir::base_of(obj);
        let old: Vec<u64> = self.sync.range(b..b + (1 << 32)).map(|x| *x.0).collect();
        for a in old {
            self.sync.remove(&a);
        }
    }
    /// Note an access; true if nothing orders it and one of the other thread.
    pub fn access(&mut self, obj: u32, size: usize, at: usize, n: usize, kind: Access, note: bool) -> bool {
        let k = self.cur;
        let u = 1 - k;
        let (mine, seen) = (self.threads[k].clock[k], self.threads[k].clock[u]);
        let v = self.shadow.entry(obj).or_insert_with(|| Arc::new(vec![Seen::default(); size]));
        for s in &v[at..at + n] {
            let last = match kind {
                Access::Read => s.write[u].max(s.awrite[u]),
                Access::AtomicRead => s.write[u],
                Access::Write => s.write[u].max(s.awrite[u]).max(s.read[u]).max(s.aread[u]),
                Access::AtomicWrite => s.write[u].max(s.read[u]),
            };
            if last > seen {
                return true;
            }
        }
        if note {
            let same = v[at..at + n].iter().all(|s| {
                mine == match kind {
                    Access::Read => s.read[k],
                    Access::AtomicRead => s.aread[k],
                    Access::Write => s.write[k],
                    Access::AtomicWrite => s.awrite[k],
                }
            });
            if !same {
                for s in &mut Arc::make_mut(v)[at..at + n] {
                    *match kind {
                        Access::Read => &mut s.read[k],
                        Access::AtomicRead => &mut s.aread[k],
                        Access::Write => &mut s.write[k],
                        Access::AtomicWrite => &mut s.awrite[k],
                    } = mine;
                }
            }
        }
        false
    }
}
