//! Execution state.
use crate::expr::*;
use crate::ir::*;
use crate::kern::Kern;
use crate::mem::Mem;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: usize,
    pub regs: Vec<V>,
    pub sp: u64,
    pub ret: u32,
    pub va: Rc<Vec<(TyId, V)>>,
    /// (address, size) of this frame's stack objects
    pub allocas: Vec<(u64, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Wait {
    Futex(u64),
    PMutex(u64),
    Join(u32),
    FileLock(u32),
    Sleep,
    Drain(u32),
    Child,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Th {
    Run,
    Block(Wait, Option<u64>),
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub id: u32,
    pub frames: Vec<Frame>,
    pub st: Th,
    /// result of the blocking call that is being re-executed: 0 = woken, 1 = timed out
    pub wake: Option<u32>,
    pub tls: u64,
    pub stack: u64,
    pub retval: V,
    pub pid: u32,
    /// progress of the call in hand: bit 0 fault decided, bit 1 crash inside this call
    pub gate: u32,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Obs(String, V),
    Reach(String),
    Note(String),
}

/// (for debugging: the values some variables are to have)
pub static FIX: std::sync::OnceLock<HashMap<String, u64>> = std::sync::OnceLock::new();

pub struct State {
    pub mem: Mem,
    pub kern: Kern,
    pub th: Vec<Thread>,
    pub cur: usize,
    pub path: Vec<E>,
    pub known: Rc<HashMap<E, bool>>,
    /// ranges of variables implied by the path
    pub rng: Rc<BTreeMap<u32, (u64, u64)>>,
    /// ranges of sums of variables
    pub sums: Rc<crate::facts::Sums>,
    /// identifies the ranges (0: none)
    pub fid: u64,
    pub model: Rc<Model>,
    pub occ: Rc<BTreeMap<String, u32>>,
    pub evs: Vec<Ev>,
    pub heap: u64,
    pub mmap_top: u64,
    pub allocs: Rc<BTreeMap<u64, u64>>,
    pub next_tid: u32,
    pub pmutex: Rc<BTreeMap<u64, (u32, u32)>>,
    pub stderr: Vec<u8>,
    pub steps: u64,
    pub ints: BTreeMap<&'static str, u64>,
    pub saved: Vec<Rc<Saved>>,
    /// variables in order of creation: name#occurrence and expression
    pub vars: Rc<Vec<(String, E)>>,
    pub forks: u32,
}

/// Process image of a parent waiting for its child "process".
pub struct Saved {
    pub mem: Mem,
    pub th: Vec<Thread>,
    pub cur: usize,
    pub heap: u64,
    pub allocs: Rc<BTreeMap<u64, u64>>,
    pub pmutex: Rc<BTreeMap<u64, (u32, u32)>>,
    pub fds: Vec<Option<u32>>,
    pub pid: u32,
    pub mmap_top: u64,
}

impl State {
    pub fn fork(&mut self) -> State {
        State {
            mem: self.mem.fork(),
            kern: self.kern.clone(),
            th: self.th.clone(),
            cur: self.cur,
            path: self.path.clone(),
            known: self.known.clone(),
            rng: self.rng.clone(),
            sums: self.sums.clone(),
            fid: self.fid,
            model: self.model.clone(),
            occ: self.occ.clone(),
            evs: self.evs.clone(),
            heap: self.heap,
            mmap_top: self.mmap_top,
            allocs: self.allocs.clone(),
            next_tid: self.next_tid,
            pmutex: self.pmutex.clone(),
            stderr: self.stderr.clone(),
            steps: self.steps,
            ints: self.ints.clone(),
            saved: self.saved.clone(),
            vars: self.vars.clone(),
            forks: self.forks,
        }
    }
    pub fn get(&self, k: &'static str) -> u64 {
        self.ints.get(k).copied().unwrap_or(0)
    }
    /// the variable with this name that `bump` would create next
    pub fn next_var(&self, name: &str, lo: u64, hi: u64, w: u32) -> E {
        let n = self.occ.get(name).copied().unwrap_or(0);
        let full = format!("{}#{}", name, n);
        if let Some(v) = FIX.get().and_then(|f| f.get(&full)) {
            return con(*v, w);
        }
        var(&full, lo, hi, w)
    }
    pub fn bump(&mut self, name: &str, e: E) {
        let occ = Rc::make_mut(&mut self.occ);
        let n = occ.entry(name.to_string()).or_insert(0);
        let full = format!("{}#{}", name, n);
        *n += 1;
        Rc::make_mut(&mut self.vars).push((full, e));
    }
    pub fn t(&mut self) -> &mut Thread {
        &mut self.th[self.cur]
    }
}

pub enum Stop {
    /// re-execute under both directions of the condition
    Fork(E),
    /// constraint that must be added, then re-execute
    Assume(E),
    /// the current thread waits; re-execute when woken
    Block(Wait, Option<u64>),
    /// switch to another thread, re-execute nothing (the call completed)
    Violation(String),
    Unsupported(String),
    Crash,
    ExitThread,
    EndPath(String),
    /// child process ended
    ChildDone,
    /// the running thread changed
    Switch,
}

pub type R<T> = Result<T, Stop>;
