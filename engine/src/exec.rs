//! The interpreter and the exploration loop.
use crate::expr::*;
use crate::ir::*;
use crate::kern::Kern;
use crate::mem::*;
use crate::par::Par;
use crate::state::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type ExtFn = fn(&mut Ex, &mut State, &[V], &CallCtx) -> R<V>;

pub struct CallCtx<'a> {
    pub ret: TyId,
    pub tys: &'a [(TyId, Op)],
    pub name: &'static str,
    pub nfixed: u32,
}

pub struct Ex {
    pub m: Module,
    pub solver: Solver,
    pub ext: Vec<Option<ExtFn>>,
    pub names: Vec<&'static str>,
    pub hooks: HashMap<u32, ExtFn>,
    pub hooked: Vec<bool>,
    /// width of the integer that the function prints in decimal, or 0
    pub prints: Vec<u32>,
    pub work: Vec<State>,
    pub pending_model: Option<Model>,
    pub par: Par,
    pub globals_sorted: Vec<(u64, u64)>,
    pub visible: Vec<bool>,
    pub trace: bool,
    pub ran: Vec<bool>,
    pub max_steps: u64,
    pub fork_sites: HashMap<String, u64>,
    pub profile: bool,
    pub prof: HashMap<u32, u64>,
    pub ret_mask: Vec<u64>,
    pub simp_id: u64,
    pub simp_memo: HashMap<E, E>,
    pub next_fid: u64,
    pub deep: bool,
}

pub const STACK_TOP: u64 = 0x70_0000_0000;
pub const HEAP: u64 = 0x1_0000_0000;
pub const MMAP: u64 = 0x20_0000_0000;
pub const STACK_SIZE: u64 = 1 << 20;

pub fn sval(e: E) -> V {
    match as_c(e) {
        Some(v) => V::C(v),
        None => V::S(e),
    }
}

impl Ex {
    #[inline]
    pub fn e(&self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => con(*x, w),
            V::S(e) => *e,
            _ => panic!("scalar expected, got {:?}", v),
        }
    }
    pub fn decide(&mut self, s: &mut State, c: E) -> R<bool> {
        let c = self.simp(s, c);
        let (base, neg) = match nd(c).n {
            N::C(v) => return Ok(v == 1),
            N::Not(x) => (x, true),
            _ => (c, false),
        };
        if let Some(&b) = s.known.get(&base) {
            return Ok(b != neg);
        }
        if has_pat(base) {
            return Err(Stop::Unsupported(format!("branch on opaque data: {}", show(base))));
        }
        let b = eval(base, &s.model) == 1;
        let other = if b { not(base) } else { base };
        match self.query(s, other) {
            Res::Unsat => {
                self.learn(s, not(other), true);
                Ok(b != neg)
            }
            Res::Sat(m) => {
                debug_assert!(eval(other, &m) == 1);
                self.pending_model = Some(m);
                Err(Stop::Fork(base))
            }
            Res::Unknown(r) => Err(Stop::Unsupported(format!("solver gave up: {}", r))),
        }
    }
    /// a concrete value for e on this path, splitting when several are possible
    pub fn conc(&mut self, s: &mut State, e: E) -> R<u64> {
        let e = self.simp(s, e);
        if let Some(v) = as_c(e) {
            return Ok(v);
        }
        let v = eval(e, &s.model);
        let c = eq(e, con(v, width(e)));
        if self.decide(s, c)? {
            return Ok(v);
        }
        // the model says v: cannot be false
        Err(Stop::Unsupported("concretisation".into()))
    }
    pub fn cv(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => self.conc(s, *e),
            V::W(x) => Ok(**x as u64),
            _ => Err(Stop::Unsupported("aggregate as scalar".into())),
        }
    }

    /// bounds of the object holding a
    pub fn object(&mut self, s: &State, a: u64) -> Option<(u64, u64)> {
        if let Some((b, n)) = s.allocs.range(..=a).next_back() {
            if a <= b + n {
                return Some((*b, b + n));
            }
        }
        if a >= GLOBAL_BASE && a < HEAP {
            let i = self.globals_sorted.partition_point(|g| g.0 <= a);
            if i > 0 {
                let g = self.globals_sorted[i - 1];
                if a <= g.0 + g.1 {
                    return Some((g.0, g.0 + g.1));
                }
            }
        }
        for t in &s.th {
            for f in t.frames.iter().rev() {
                for &(b, n) in &f.allocas {
                    if a >= b && a < b + n {
                        return Some((b, b + n));
                    }
                }
            }
        }
        None
    }

    /// object containing [e, e+n) for every value on this path (splits otherwise)
    pub fn sym_object(&mut self, s: &mut State, e: E, n: E) -> R<(u64, u64)> {
        let a = eval(e, &s.model);
        let Some((lo, hi)) = self.object(s, a) else {
            return Err(Stop::Violation(format!("access at symbolic address {} = {:#x} outside any object", show(e), a)));
        };
        let nn = eval(n, &s.model);
        if a + nn > hi {
            return Err(Stop::Violation(format!("access at symbolic address {} = {:#x}+{} past its object [{:#x},{:#x})", show(e), a, nn, lo, hi)));
        }
        let c = band(ule(con(lo, 64), e), ule(e, con(hi, 64)));
        if !self.decide(s, c)? {
            return Err(Stop::Unsupported("object split".into()));
        }
        let c = ule(n, sub(con(hi, 64), e));
        if !self.decide(s, c)? {
            return Err(Stop::Violation("access past the end of an object".into()));
        }
        Ok((lo, hi))
    }

    fn sym_load(&mut self, s: &mut State, e: E, n: u64) -> R<V> {
        let (lo, hi) = self.sym_object(s, e, con(n, 64))?;
        let nn = nd(e);
        let (a, b) = (nn.lo.max(lo), nn.hi.min(hi - n));
        let mut bs = vec![];
        for i in 0..n {
            let ei = add(e, con(i, 64));
            let x = s.mem.sym_load_byte(ei, a + i, b + i).ok_or_else(|| Stop::Violation("unmapped symbolic load".into()))?;
            bs.push(x);
        }
        if let Some(m) = cfs().err.take() {
            return Err(Stop::Unsupported(format!("{} at {}", m, show(e))));
        }
        Ok(sval(concat_bytes(&bs)))
    }
    fn sym_store(&mut self, s: &mut State, e: E, n: u64, v: &V) -> R<()> {
        let (lo, hi) = self.sym_object(s, e, con(n, 64))?;
        let nn = nd(e);
        let (a, b) = (nn.lo.max(lo), nn.hi.min(hi - n));
        let ve = self.e(v, 8 * n as u32);
        if b - a > 64 {
            // keep the whole object as a content function
            let tmp = s.mem.snap(lo, hi - lo).unwrap();
            let runs = (0..n).map(|i| 1 + (ve << 3) + i as u32).collect();
            let top = if as_c(ve).is_some() {
                cf(CfN::Runs(vec![(0, n, Kind::Bytes(as_c(ve).unwrap().to_le_bytes()[..n as usize].to_vec()))]))
            } else {
                cf(CfN::Runs(vec![(0, n, Kind::Exprs(runs))]))
            };
            let o = cf_over(tmp, sub(e, con(lo, 64)), con(n, 64), top);
            s.mem.set_lazy(lo, hi - lo, o, lo);
            return Ok(());
        }
        for p in a..=b + n - 1 {
            let old = s.mem.byte_e(p).unwrap();
            // byte p is written when e <= p < e+n
            let mut r = old;
            for i in 0..n {
                if p < a + i || p > b + i {
                    continue;
                }
                let c = eq(e, con(p - i, 64));
                r = ite(c, extract(ve, 8 * i as u32, 8), r);
            }
            match as_c(r) {
                Some(x) => s.mem.store_c(p, 1, x),
                None => s.mem.store_e(p, r),
            };
        }
        Ok(())
    }

    pub fn load_v(&mut self, s: &mut State, p: &V, w: u32) -> R<V> {
        let n = w.div_ceil(8) as u64;
        let v = match p {
            V::C(a) => match s.mem.load(*a, n) {
                Some(v) => v,
                None => return Err(Stop::Violation(format!("invalid load at {:#x}", a))),
            },
            V::S(e) => self.sym_load(s, *e, n)?,
            _ => return Err(Stop::Unsupported("pointer".into())),
        };
        let v = self.simp_v(s, v);
        Ok(if w % 8 != 0 {
            match v {
                V::C(x) => V::C(x & mask(w)),
                V::S(e) => sval(trunc(e, w)),
                v => v,
            }
        } else {
            v
        })
    }
    pub fn store_v(&mut self, s: &mut State, p: &V, v: &V, w: u32) -> R<()> {
        let n = w.div_ceil(8) as u64;
        let v = if w % 8 != 0 {
            match v {
                V::S(e) => sval(zext(*e, 8 * n as u32)),
                v => v.clone(),
            }
        } else {
            v.clone()
        };
        match p {
            V::C(a) => {
                match &v {
                    V::C(x) => s.mem.store_c(*a, n, *x),
                    V::S(e) => s.mem.store_e(*a, *e),
                    _ => return Err(Stop::Unsupported("store".into())),
                }
                .ok_or_else(|| Stop::Violation(format!("invalid store at {:#x}", a)))
            }
            V::S(e) => self.sym_store(s, *e, n, &v),
            _ => Err(Stop::Unsupported("pointer".into())),
        }
    }
    fn off_p(&self, p: &V, o: u64) -> V {
        match p {
            V::C(a) => V::C(a.wrapping_add(o)),
            V::S(e) => sval(add(*e, con(o, 64))),
            v => v.clone(),
        }
    }
    pub fn load_t(&mut self, s: &mut State, p: &V, t: TyId) -> R<V> {
        match self.m.tys[t as usize].clone() {
            Ty::Int(w) if w > 64 => {
                let n = (w as u64).div_ceil(8);
                let mut r = 0u128;
                for i in 0..n {
                    let V::C(x) = self.load_v(s, &self.off_p(p, i), 8)? else {
                        return Err(Stop::Unsupported("symbolic wide load".into()));
                    };
                    r |= (x as u128) << (8 * i);
                }
                Ok(V::W(Rc::new(r)))
            }
            Ty::Int(w) => self.load_v(s, p, w as u32),
            Ty::Ptr | Ty::F64 => self.load_v(s, p, 64),
            Ty::F32 => self.load_v(s, p, 32),
            Ty::X87 => self.load_v(s, p, 64),
            Ty::Arr(n, e) => {
                let sz = self.m.size_align(e).0;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_t(s, &self.off_p(p, i * sz), e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                if self.m.tys[e as usize] == Ty::Int(1) {
                    let b = self.load_v(s, p, 8 * (n.div_ceil(8)))?;
                    let V::C(b) = b else { return Err(Stop::Unsupported("symbolic bit vector".into())) };
                    return Ok(V::A(Rc::new((0..n).map(|i| V::C(b >> i & 1)).collect())));
                }
                let sz = self.m.size_align(e).0;
                let mut v = vec![];
                for i in 0..n as u64 {
                    v.push(self.load_t(s, &self.off_p(p, i * sz), e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(fs, pk) => {
                let mut v = vec![];
                for i in 0..fs.len() {
                    let o = self.m.field_off(&fs, pk, i);
                    v.push(self.load_t(s, &self.off_p(p, o), fs[i])?);
                }
                Ok(V::A(Rc::new(v)))
            }
            t => Err(Stop::Unsupported(format!("load of {:?}", t))),
        }
    }
    pub fn store_t(&mut self, s: &mut State, p: &V, v: &V, t: TyId) -> R<()> {
        match self.m.tys[t as usize].clone() {
            Ty::Int(w) if w > 64 => {
                let x = match v {
                    V::W(x) => **x,
                    V::C(x) => *x as u128,
                    _ => return Err(Stop::Unsupported("symbolic wide store".into())),
                };
                for i in 0..(w as u64).div_ceil(8) {
                    self.store_v(s, &self.off_p(p, i), &V::C((x >> (8 * i)) as u64 & 255), 8)?;
                }
                Ok(())
            }
            Ty::Int(w) => self.store_v(s, p, v, w as u32),
            Ty::Ptr | Ty::F64 | Ty::X87 => self.store_v(s, p, v, 64),
            Ty::F32 => self.store_v(s, p, v, 32),
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let V::A(a) = v else { return Err(Stop::Unsupported("store of array".into())) };
                if self.m.tys[e as usize] == Ty::Int(1) {
                    let mut b = 0;
                    for (i, x) in a.iter().enumerate() {
                        let V::C(x) = x else { return Err(Stop::Unsupported("symbolic bit vector".into())) };
                        b |= x << i;
                    }
                    return self.store_v(s, p, &V::C(b), 8 * (a.len() as u32).div_ceil(8));
                }
                let sz = self.m.size_align(e).0;
                for (i, x) in a.iter().enumerate() {
                    self.store_t(s, &self.off_p(p, i as u64 * sz), x, e)?;
                }
                Ok(())
            }
            Ty::Struct(fs, pk) => {
                let V::A(a) = v else { return Err(Stop::Unsupported("store of struct".into())) };
                for i in 0..fs.len() {
                    let o = self.m.field_off(&fs, pk, i);
                    self.store_t(s, &self.off_p(p, o), &a[i], fs[i])?;
                }
                Ok(())
            }
            t => Err(Stop::Unsupported(format!("store of {:?}", t))),
        }
    }

    fn init_global(&mut self, s: &mut State, addr: u64, v: &V, t: TyId) {
        if let V::C(0) = v {
            return;
        }
        if let (V::A(a), Ty::Arr(_, e)) = (v, self.m.tys[t as usize].clone()) {
            if e == self.m.i8 {
                let b: Vec<u8> = a.iter().map(|x| if let V::C(c) = x { *c as u8 } else { 0 }).collect();
                s.mem.write_bytes(addr, &b);
                return;
            }
            let sz = self.m.size_align(e).0;
            for (i, x) in a.iter().enumerate() {
                self.init_global(s, addr + i as u64 * sz, x, e);
            }
            return;
        }
        if self.store_t(s, &V::C(addr), v, t).is_err() {
            panic!("global init");
        }
    }

    pub fn initial(&mut self) -> State {
        let mut s = State {
            mem: Mem::new(),
            kern: Kern::new(),
            th: vec![],
            cur: 0,
            path: vec![],
            known: Default::default(),
            model: Rc::new(Model { id: self.solver.fresh_model_id(), v: vec![] }),
            occ: Default::default(),
            evs: vec![],
            heap: HEAP,
            mmap_top: MMAP,
            allocs: Default::default(),
            next_tid: 1,
            pmutex: Default::default(),
            stderr: vec![],
            steps: 0,
            ints: BTreeMap::new(),
            saved: vec![],
            vars: Default::default(),
            forks: 0,
            rng: Default::default(),
            sums: Default::default(),
            fid: 0,
        };
        for g in 0..self.m.globals.len() {
            let (t, init, tls, addr, size) = {
                let g = &self.m.globals[g];
                (g.ty, g.init, g.tls, g.addr, g.size)
            };
            if tls {
                continue;
            }
            s.mem.map(addr, size.max(1));
            if let Some((a, b)) = init {
                let text = self.m.text;
                let mut p = P { t: &text[..b], p: a };
                if p.t[p.p..].starts_with(b" zeroinitializer") {
                    continue;
                }
                let v = self.m.parse_const(&mut p, t);
                self.init_global(&mut s, addr, &v, t);
            }
        }
        self.globals_sorted = self.m.globals.iter().filter(|g| !g.tls).map(|g| (g.addr, g.size)).collect();
        self.globals_sorted.sort();
        s
    }

    pub fn new_thread(&mut self, s: &mut State, f: u64, args: Vec<V>) -> R<u32> {
        let id = s.next_tid;
        s.next_tid += 1;
        let top = STACK_TOP + (id as u64 + 1) * (STACK_SIZE * 2);
        s.mem.map(top - STACK_SIZE, STACK_SIZE);
        let tls = STACK_TOP / 2 + id as u64 * 0x100_0000;
        s.mem.map(tls, self.m.tls_size + 64);
        for g in 0..self.m.globals.len() {
            let (t, init, is, addr) = {
                let g = &self.m.globals[g];
                (g.ty, g.init, g.tls, g.addr)
            };
            if !is {
                continue;
            }
            if let Some((a, b)) = init {
                let text = self.m.text;
                let mut p = P { t: &text[..b], p: a };
                let v = self.m.parse_const(&mut p, t);
                self.init_global(s, tls + addr, &v, t);
            }
        }
        let mut t = Thread { id, frames: vec![], st: Th::Run, wake: None, tls, stack: top, retval: V::C(0), pid: s.kern.pid, gate: 0 };
        let fr = self.frame(f, args, top - 64, NOREG)?;
        t.frames.push(fr);
        s.th.push(t);
        Ok(id)
    }

    fn fn_of(&self, a: u64) -> Option<u32> {
        if a < FN_BASE || a % 16 != 0 {
            return None;
        }
        let i = (a - FN_BASE) / 16;
        if (i as usize) < self.m.funcs.len() {
            Some(i as u32)
        } else {
            None
        }
    }

    pub fn frame(&mut self, f: u64, args: Vec<V>, sp: u64, ret: u32) -> R<Frame> {
        let id = self.fn_of(f).ok_or_else(|| Stop::Violation(format!("call of {:#x}", f)))?;
        self.frame_id(id, args, sp, ret)
    }
    #[inline]
    fn frame_id(&mut self, id: u32, args: Vec<V>, sp: u64, ret: u32) -> R<Frame> {
        let f = self.m.func(id);
        self.ran[id as usize] = true;
        let mut regs = Vec::with_capacity(f.nregs as usize);
        let mut va = Rc::new(vec![]);
        if f.vararg {
            let n = f.nparams as usize;
            va = Rc::new(args[n..].iter().map(|v| (0, v.clone())).collect());
            regs.extend(args.into_iter().take(n));
        } else {
            regs.extend(args);
        }
        regs.resize(f.nregs as usize, V::C(0));
        Ok(Frame { f, pc: 0, regs, sp, ret, va, allocas: vec![] })
    }

    pub fn where_am_i(&self, s: &State) -> String {
        let mut out = String::new();
        if let Some(t) = s.th.get(s.cur) {
            for f in t.frames.iter().rev().take(14) {
                out += &format!("{} < ", demangle(&f.f.name));
            }
        }
        out
    }

    /// Explores everything reachable from s.
    pub fn explore(&mut self, s: State) {
        self.work.push(s);
        loop {
            let Some(s) = self.work.pop() else { break };
            self.run(s);
            if self.par.stop() {
                break;
            }
        }
        self.flush_stats();
    }
    pub fn flush_stats(&mut self) {
        let p = &mut self.par;
        p.add(0, std::mem::take(&mut self.solver.queries));
        p.add(1, std::mem::take(&mut self.solver.sat));
        p.add(2, std::mem::take(&mut self.solver.unsat));
        p.add(3, (std::mem::take(&mut self.solver.time) * 1e6) as u64);
        p.max(4, (std::mem::take(&mut self.solver.max_time) * 1e6) as u64);
        p.mark_ran(&self.ran);
        if std::env::var("PSYM_SITES").is_ok() {
            let mut v: Vec<_> = self.fork_sites.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, n) in v.iter().take(25) {
                eprintln!("fork {:6} {}", n, k);
            }
        }
        if self.profile {
            let mut v: Vec<_> = self.prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, n) in v.iter().take(40) {
                eprintln!("prof {:9} {}", n, demangle(&self.m.funcs[**k as usize].name));
            }
        }
    }

    fn end(&mut self, s: &mut State, kind: &str, msg: &str) {
        self.par.add(6, s.steps);
        let place = if kind == "ok" { String::new() } else { self.where_am_i(s) };
        for e in &s.evs {
            if let Ev::Reach(m) = e {
                self.par.reach(m);
            }
        }
        match kind {
            "ok" => {
                self.par.add(5, 1);
                self.par.sample(s, self.ran.len());
            }
            "cut" => self.par.add(7, 1),
            _ => self.par.problem(s, kind, msg, &place),
        }
    }

    fn run(&mut self, mut s: State) {
        loop {
            let r = self.run_thread(&mut s);
            match r {
                Ok(()) => {
                    // thread finished or blocked: schedule
                    match self.schedule(&mut s) {
                        Ok(true) => {}
                        Ok(false) => return,
                        Err(st) => {
                            if !self.handle(&mut s, st) {
                                return;
                            }
                        }
                    }
                }
                Err(st) => {
                    if !self.handle(&mut s, st) {
                        return;
                    }
                }
            }
            if self.par.stop() {
                return;
            }
        }
    }

    /// false: the path ended
    fn handle(&mut self, s: &mut State, st: Stop) -> bool {
        match st {
            Stop::Fork(c) => {
                let b = eval(c, &s.model) == 1;
                if std::env::var("PSYM_SITES").is_ok() {
                    let k = format!("{} @ {}", show(c).chars().take(160).collect::<String>(), self.where_am_i(s).chars().take(400).collect::<String>());
                    *self.fork_sites.entry(k).or_insert(0) += 1;
                }
                let mut o = s.fork();
                let m = self.pending_model.take().expect("model");
                o.model = Rc::new(m);
                self.learn(&mut o, if b { not(c) } else { c }, false);
                self.learn(s, if b { c } else { not(c) }, false);
                s.forks += 1;
                o.forks += 1;
                self.work.push(o);
                self.par.add(8, 1);
                // hand the oldest pending state to another process if one is free
                if self.par.try_token() {
                    self.flush_stats();
                    let give = self.work.remove(0);
                    if self.par.fork_child() {
                        // child: explore only that state
                        self.work.clear();
                        self.fork_sites.clear();
                        self.explore(give);
                        self.par.child_exit();
                    }
                    drop(give);
                }
                true
            }
            Stop::Assume(c) => {
                // make the model satisfy c
                if eval(c, &s.model) == 1 {
                    self.learn(s, c, false);
                    return true;
                }
                match self.query(s, c) {
                    Res::Sat(m) => {
                        s.model = Rc::new(m);
                        self.learn(s, c, false);
                        true
                    }
                    Res::Unsat => {
                        self.end(s, "cut", "");
                        false
                    }
                    Res::Unknown(r) => {
                        self.end(s, "unsupported", &format!("solver gave up: {}", r));
                        false
                    }
                }
            }
            Stop::Block(w, until) => {
                s.t().st = Th::Block(w, until);
                match self.schedule(s) {
                    Ok(b) => b,
                    Err(st) => self.handle(s, st),
                }
            }
            Stop::Violation(m) => {
                self.end(s, "violation", &m);
                false
            }
            Stop::Unsupported(m) => {
                self.end(s, "unsupported", &m);
                false
            }
            Stop::EndPath(m) => {
                self.end(s, &m, "");
                false
            }
            Stop::ExitThread => {
                s.t().st = Th::Done;
                s.t().frames.clear();
                match self.schedule(s) {
                    Ok(b) => b,
                    Err(st) => self.handle(s, st),
                }
            }
            Stop::Switch => true,
            Stop::Crash | Stop::ChildDone => {
                if s.saved.is_empty() {
                    self.end(s, "unsupported", "crash outside a child");
                    return false;
                }
                self.child_done(s, matches!(st, Stop::Crash));
                true
            }
        }
    }
    /// the modelled child process is gone: its files stay, everything else is the parent's
    fn child_done(&mut self, s: &mut State, crashed: bool) {
        let sv = s.saved.pop().expect("child");
        let fds = std::mem::take(&mut s.kern.fds);
        s.kern.fds = fds;
        for fd in 0..s.kern.fds.len() {
            if s.kern.fds[fd].is_some() {
                self.close_fd(s, fd as u64);
            }
        }
        // the child's mappings are gone
        for i in 0..s.kern.inodes.len() {
            if s.kern.inodes[i].as_ref().map_or(false, |x| !x.maps.is_empty()) {
                s.kern.ino_mut(i as u32).maps.retain(|m| m.0 < sv.mmap_top);
            }
        }
        // (the descriptors the child had inherited were counted when it started)
        s.kern.fds = sv.fds.clone();
        s.kern.pid = sv.pid;
        let old = s.mem.fork();
        s.mem = Mem::join(&sv.mem, &old);
        s.th = sv.th.clone();
        s.cur = sv.cur;
        s.heap = sv.heap;
        s.allocs = sv.allocs.clone();
        s.pmutex = sv.pmutex.clone();
        s.stderr.clear();
        s.ints.insert("crash", 0);
        let t = s.t();
        t.gate = 0;
        t.wake = Some(crashed as u32);
    }

    /// picks the next thread; Ok(false): the path ended
    fn schedule(&mut self, s: &mut State) -> R<bool> {
        let n = s.th.len();
        if s.th[0].st == Th::Done && s.th[0].pid == s.kern.pid {
            self.end(s, "ok", "");
            return Ok(false);
        }
        loop {
            let run: Vec<usize> = (0..n).map(|k| (s.cur + k) % n).filter(|&i| s.th[i].st == Th::Run).collect();
            if !run.is_empty() {
                let mut pick = run[0];
                if run.len() > 1 && s.get("sched") == 1 {
                    let v = s.next_var("sched", 0, run.len() as u64 - 1, 64);
                    let k = self.conc(s, v)?;
                    s.bump("sched", v);
                    pick = run[k as usize];
                }
                s.cur = pick;
                return Ok(true);
            }
            // a draining thread continues when the others are idle
            if let Some(i) = (0..n).find(|&i| matches!(s.th[i].st, Th::Block(Wait::Drain(0), _))) {
                s.th[i].st = Th::Run;
                s.th[i].wake = Some(0);
                s.cur = i;
                return Ok(true);
            }
            // let time pass
            let next = (0..n)
                .filter_map(|i| match &s.th[i].st {
                    Th::Block(_, Some(u)) => Some((*u, i)),
                    _ => None,
                })
                .min();
            match next {
                Some((u, i)) => {
                    let mut dr = false;
                    for t in s.th.iter_mut() {
                        if let Th::Block(Wait::Drain(k), _) = &mut t.st {
                            *k -= 1;
                            dr = true;
                        }
                    }
                    let _ = dr;
                    if u > s.kern.clock + 3_000_000_000_000_000 {
                        // nobody will ever wake up
                        if (0..n).any(|i| matches!(s.th[i].st, Th::Block(Wait::Drain(_), _))) {
                            for t in s.th.iter_mut() {
                                if let Th::Block(Wait::Drain(k), _) = &mut t.st {
                                    *k = 0;
                                }
                            }
                            continue;
                        }
                        return Err(Stop::Violation(self.deadlock(s)));
                    }
                    s.kern.clock = s.kern.clock.max(u);
                    s.th[i].st = Th::Run;
                    s.th[i].wake = Some(1);
                    let rounds = s.get("idle") + 1;
                    s.ints.insert("idle", rounds);
                    if rounds > 400 {
                        return Err(Stop::Violation(format!("no progress: {}", self.deadlock(s))));
                    }
                }
                None => {
                    if (0..n).any(|i| matches!(s.th[i].st, Th::Block(Wait::Drain(_), _))) {
                        for t in s.th.iter_mut() {
                            if let Th::Block(Wait::Drain(k), _) = &mut t.st {
                                *k = 0;
                            }
                        }
                        continue;
                    }
                    return Err(Stop::Violation(self.deadlock(s)));
                }
            }
        }
    }
    fn deadlock(&self, s: &State) -> String {
        let v: Vec<String> = s.th.iter().map(|t| format!("{}:{:?}", t.id, t.st)).collect();
        format!("blocked forever: {}", v.join(" "))
    }

    /// runs the current thread until it blocks (Err) or finishes (Ok)
    fn run_thread(&mut self, s: &mut State) -> R<()> {
        let mut budget = 0u32;
        loop {
            budget += 1;
            if budget & 0xffff == 0 {
                s.steps += 0x10000;
                if s.steps > self.max_steps {
                    return Err(Stop::Unsupported("step bound".into()));
                }
                if self.par.tick() {
                    return Err(Stop::EndPath("incomplete".into()));
                }
            }
            // the frame is taken by raw pointer: nothing below moves it without returning here
            let ti = s.cur;
            let fr: *mut Frame = match s.th[ti].frames.last_mut() {
                Some(f) => f,
                None => {
                    s.th[ti].st = Th::Done;
                    let id = s.th[ti].id;
                    for t in s.th.iter_mut() {
                        if t.st == Th::Block(Wait::Join(id), None) {
                            t.st = Th::Run;
                        }
                    }
                    if ti == 0 && !s.saved.is_empty() {
                        return Err(Stop::ChildDone);
                    }
                    return Ok(());
                }
            };
            let fr = unsafe { &mut *fr };
            if self.profile {
                *self.prof.entry(fr.f.id).or_insert(0) += 1;
            }
            // straight-line execution within the frame
            let code = &fr.f.code;
            let r = self.step_frame(s, fr, code);
            match r {
                Ok(()) => {}
                Err(e) => return Err(e),
            }
        }
    }

    #[inline(always)]
    fn v(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::R(r) => match &fr.regs[*r as usize] {
                V::C(x) => V::C(*x),
                v => v.clone(),
            },
            Op::C(v) => match v {
                V::C(x) => V::C(*x),
                v => v.clone(),
            },
        }
    }

    fn take_edge(&self, fr: &mut Frame, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => {
                let v = self.v(fr, &e.moves[0].1);
                fr.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<V> = e.moves.iter().map(|(_, o)| self.v(fr, o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vs) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.pc = e.to as usize;
    }

    /// executes instructions of this frame until a call, return or event
    fn step_frame(&mut self, s: &mut State, fr: &mut Frame, code: &'static [I]) -> R<()> {
        let mut n = 0;
        loop {
            n += 1;
            if n > 4096 {
                s.steps += n;
                return Ok(());
            }
            let i = &code[fr.pc];
            match i {
                I::Bin { k, w, d, a, b } => {
                    let (x, y) = (self.v(fr, a), self.v(fr, b));
                    let r = match (&x, &y) {
                        (V::C(x), V::C(y)) => V::C(self.cbin(*k, *x, *y, *w as u32)?),
                        _ => self.sbin(s, *k, &x, &y, *w as u32)?,
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                I::Icmp { p, w, d, a, b } => {
                    let (x, y) = (self.v(fr, a), self.v(fr, b));
                    let r = match (&x, &y) {
                        (V::C(x), V::C(y)) => V::C(ccmp(*p, *x, *y, *w as u32) as u64),
                        _ => {
                            let (x, y) = (self.e(&x, *w as u32), self.e(&y, *w as u32));
                            sval(scmp(*p, x, y))
                        }
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                I::Load { w, d, p } => {
                    let p = self.v(fr, p);
                    if let (V::C(a), 8 | 16 | 32 | 64) = (&p, *w) {
                        match s.mem.load(*a, *w as u64 / 8) {
                            Some(v) => {
                                fr.regs[*d as usize] = v;
                                fr.pc += 1;
                                continue;
                            }
                            None => return Err(Stop::Violation(format!("invalid load at {:#x}", a))),
                        }
                    }
                    let r = self.load_v(s, &p, *w as u32)?;
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                I::Store { w, v, p } => {
                    let p = self.v(fr, p);
                    let v = self.v(fr, v);
                    if let (V::C(a), V::C(x)) = (&p, &v) {
                        match s.mem.store_c(*a, (*w as u64).div_ceil(8), *x) {
                            Some(()) => {
                                fr.pc += 1;
                                continue;
                            }
                            None => return Err(Stop::Violation(format!("invalid store at {:#x}", a))),
                        }
                    }
                    self.store_v(s, &p, &v, *w as u32)?;
                    fr.pc += 1;
                }
                I::Gep { d, base, off, idx } => {
                    let b = self.v(fr, base);
                    let mut c = *off;
                    let mut es: Option<E> = None;
                    for (o, iw, sc) in idx.iter() {
                        match self.v(fr, o) {
                            V::C(x) => c = c.wrapping_add((sx(x, *iw as u32) as u64).wrapping_mul(*sc)),
                            V::S(e) => {
                                let t = mulc(sext(e, 64), *sc);
                                es = Some(match es {
                                    None => t,
                                    Some(p) => add(p, t),
                                });
                            }
                            _ => return Err(Stop::Unsupported("gep index".into())),
                        }
                    }
                    let r = match (b, es) {
                        (V::C(x), None) => V::C(x.wrapping_add(c)),
                        (V::S(e), None) => sval(add(e, con(c, 64))),
                        (V::C(x), Some(t)) => sval(add(t, con(x.wrapping_add(c), 64))),
                        (V::S(e), Some(t)) => sval(add(add(e, t), con(c, 64))),
                        _ => return Err(Stop::Unsupported("gep base".into())),
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                I::CastI { k, d, fw, tw, a } => {
                    let x = self.v(fr, a);
                    let r = match x {
                        V::C(x) => V::C(match k {
                            CastK::SExt => sx(x, *fw as u32) as u64 & mask(*tw as u32),
                            _ => x & mask(*tw as u32),
                        }),
                        V::S(e) => sval(match k {
                            CastK::SExt => sext(e, *tw as u32),
                            _ if tw < fw => trunc(e, *tw as u32),
                            _ => zext(e, *tw as u32),
                        }),
                        _ => return Err(Stop::Unsupported("cast".into())),
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                I::Br(e) => self.take_edge(fr, e),
                I::CondBr { c, t, f } => {
                    let b = match self.v(fr, c) {
                        V::C(x) => x & 1 == 1,
                        V::S(e) => self.decide(s, e)?,
                        _ => return Err(Stop::Unsupported("branch".into())),
                    };
                    self.take_edge(fr, if b { t } else { f });
                }
                I::Mov { d, a } => {
                    fr.regs[*d as usize] = self.v(fr, a);
                    fr.pc += 1;
                }
                I::Select { d, ty, c, a, b, vec } => {
                    let cv = self.v(fr, c);
                    let r = match cv {
                        V::C(x) => {
                            if x & 1 == 1 {
                                self.v(fr, a)
                            } else {
                                self.v(fr, b)
                            }
                        }
                        V::A(cs) if *vec => {
                            let (V::A(x), V::A(y)) = (self.v(fr, a), self.v(fr, b)) else {
                                return Err(Stop::Unsupported("vector select".into()));
                            };
                            let mut o = vec![];
                            for i in 0..cs.len() {
                                o.push(match &cs[i] {
                                    V::C(1) => x[i].clone(),
                                    V::C(_) => y[i].clone(),
                                    _ => return Err(Stop::Unsupported("vector select".into())),
                                });
                            }
                            V::A(Rc::new(o))
                        }
                        V::S(e) => {
                            let (x, y) = (self.v(fr, a), self.v(fr, b));
                            let t = self.m.tys[*ty as usize].clone();
                            match (t, &x, &y) {
                                (Ty::Int(w), V::C(_) | V::S(_), V::C(_) | V::S(_)) => {
                                    let (x, y) = (self.e(&x, w as u32), self.e(&y, w as u32));
                                    sval(ite(e, x, y))
                                }
                                _ => {
                                    if self.decide(s, e)? {
                                        x
                                    } else {
                                        y
                                    }
                                }
                            }
                        }
                        _ => return Err(Stop::Unsupported("select".into())),
                    };
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                I::Alloca { d, size, n, align } => {
                    let n = match self.v(fr, n) {
                        V::C(x) => x,
                        V::S(e) => self.conc(s, e)?,
                        _ => 1,
                    };
                    let sz = (size * n).max(1);
                    let a = (*align).max(16);
                    fr.sp = (fr.sp - sz) & !(a - 1);
                    fr.allocas.push((fr.sp, sz));
                    if fr.sp < s.th[s.cur].stack - STACK_SIZE {
                        return Err(Stop::Violation("stack overflow".into()));
                    }
                    let at = fr.sp;
                    fr.regs[*d as usize] = V::C(at);
                    fr.pc += 1;
                    if sz >= 1500 {
                        // (a large buffer starts out uniform: what it holds is undefined)
                        let _ = s.mem.fill(at, 0, sz);
                    }
                }
                I::Switch { w, v, cases, def } => {
                    let v = self.v(fr, v);
                    match v {
                        V::C(x) => {
                            let e = match cases.binary_search_by_key(&(x as u128), |c| c.0) {
                                Ok(i) => &cases[i].1,
                                Err(_) => def,
                            };
                            self.take_edge(fr, e);
                        }
                        V::S(e) => {
                            let x = eval(e, &s.model);
                            let hit = cases.iter().find(|c| c.0 == x as u128);
                            match hit {
                                Some((k, ed)) => {
                                    let c = eq(e, con(*k as u64, *w as u32));
                                    if !self.decide(s, c)? {
                                        return Err(Stop::Unsupported("switch".into()));
                                    }
                                    self.take_edge(fr, ed);
                                }
                                None => {
                                    let mut c = tru();
                                    for (k, _) in cases.iter() {
                                        c = band(c, not(eq(e, con(*k as u64, *w as u32))));
                                    }
                                    if !self.decide(s, c)? {
                                        return Err(Stop::Unsupported("switch".into()));
                                    }
                                    self.take_edge(fr, def);
                                }
                            }
                        }
                        V::W(x) => {
                            let e = match cases.binary_search_by_key(&*x, |c| c.0) {
                                Ok(i) => &cases[i].1,
                                Err(_) => def,
                            };
                            self.take_edge(fr, e);
                        }
                        _ => return Err(Stop::Unsupported("switch".into())),
                    }
                }
                I::Extract { d, a, idx } => {
                    let mut x = self.v(fr, a);
                    for i in idx.iter() {
                        x = match x {
                            V::A(v) => v[*i as usize].clone(),
                            _ => return Err(Stop::Unsupported("extractvalue".into())),
                        };
                    }
                    fr.regs[*d as usize] = x;
                    fr.pc += 1;
                }
                I::Insert { d, a, v, idx } => {
                    let x = self.v(fr, a);
                    let nv = self.v(fr, v);
                    fn ins(x: V, nv: V, idx: &[u32]) -> V {
                        if idx.is_empty() {
                            return nv;
                        }
                        let V::A(mut r) = x else { panic!("insertvalue") };
                        let v = Rc::make_mut(&mut r);
                        let old = std::mem::replace(&mut v[idx[0] as usize], V::C(0));
                        v[idx[0] as usize] = ins(old, nv, &idx[1..]);
                        V::A(r)
                    }
                    fr.regs[*d as usize] = ins(x, nv, idx);
                    fr.pc += 1;
                }
                I::Call { .. } => {
                    s.steps += n;
                    return self.call(s, fr, i);
                }
                I::Ret(o) => {
                    s.steps += n;
                    let v = o.as_ref().map(|o| self.v(fr, o));
                    let ret = fr.ret;
                    let t = &mut s.th[s.cur];
                    t.frames.pop();
                    match t.frames.last_mut() {
                        Some(c) => {
                            if ret != NOREG {
                                if let Some(v) = v {
                                    c.regs[ret as usize] = v;
                                }
                            }
                        }
                        None => {
                            if let Some(v) = v {
                                t.retval = v;
                            }
                        }
                    }
                    return Ok(());
                }
                _ => {
                    self.rare(s, fr, i)?;
                }
            }
        }
    }

    fn cbin(&self, k: BinK, x: u64, y: u64, w: u32) -> R<u64> {
        let m = mask(w);
        Ok(match k {
            BinK::Add => x.wrapping_add(y) & m,
            BinK::Sub => x.wrapping_sub(y) & m,
            BinK::And => x & y,
            BinK::Or => x | y,
            BinK::Xor => x ^ y,
            BinK::Mul => x.wrapping_mul(y) & m,
            BinK::Shl => cbin(B::Shl, x, y, w),
            BinK::LShr => cbin(B::LShr, x, y, w),
            BinK::AShr => cbin(B::AShr, x, y, w),
            BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem => {
                if y == 0 {
                    return Err(Stop::Violation("division by zero".into()));
                }
                cbin(
                    match k {
                        BinK::UDiv => B::UDiv,
                        BinK::URem => B::URem,
                        BinK::SDiv => B::SDiv,
                        _ => B::SRem,
                    },
                    x,
                    y,
                    w,
                )
            }
            _ => return Err(Stop::Unsupported("bin".into())),
        })
    }
    fn sbin(&mut self, s: &mut State, k: BinK, x: &V, y: &V, w: u32) -> R<V> {
        let (a, b) = (self.e(x, w), self.e(y, w));
        Ok(sval(match k {
            BinK::Add => add(a, b),
            BinK::Sub => sub(a, b),
            BinK::Mul => bin(B::Mul, a, b),
            BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem => {
                if self.decide(s, eq(b, con(0, w)))? {
                    return Err(Stop::Violation("division by zero".into()));
                }
                bin(
                    match k {
                        BinK::UDiv => B::UDiv,
                        BinK::URem => B::URem,
                        BinK::SDiv => B::SDiv,
                        _ => B::SRem,
                    },
                    a,
                    b,
                )
            }
            BinK::Shl => bin(B::Shl, a, b),
            BinK::LShr => bin(B::LShr, a, b),
            BinK::AShr => bin(B::AShr, a, b),
            BinK::And => bin(B::And, a, b),
            BinK::Or => bin(B::Or, a, b),
            BinK::Xor => bin(B::Xor, a, b),
            _ => return Err(Stop::Unsupported("float op on symbolic".into())),
        }))
    }

    fn elem_w(&mut self, t: TyId) -> (u32, bool) {
        match self.m.tys[t as usize].clone() {
            Ty::Vec(_, e) => {
                let f = matches!(self.m.tys[e as usize], Ty::F32 | Ty::F64);
                (self.m.scalar_bits(e).unwrap(), f)
            }
            Ty::Int(w) => (w as u32, false),
            Ty::F64 | Ty::X87 => (64, true),
            Ty::F32 => (32, true),
            Ty::Ptr => (64, false),
            t => panic!("elem {:?}", t),
        }
    }

    fn bin_t(&mut self, s: &mut State, k: BinK, x: &V, y: &V, w: u32, fl: bool) -> R<V> {
        match (x, y) {
            (V::A(a), V::A(b)) => {
                let mut o = vec![];
                for i in 0..a.len() {
                    o.push(self.bin_t(s, k, &a[i], &b[i], w, fl)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            (V::W(_), _) | (_, V::W(_)) => {
                let a = wide(x)?;
                let b = wide(y)?;
                let m = if w >= 128 { !0u128 } else { (1u128 << w) - 1 };
                let sg = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                if matches!(k, BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem) && b == 0 {
                    return Err(Stop::Violation("division by zero".into()));
                }
                let r = match k {
                    BinK::Add => a.wrapping_add(b),
                    BinK::Sub => a.wrapping_sub(b),
                    BinK::Mul => a.wrapping_mul(b),
                    BinK::UDiv => a / b,
                    BinK::URem => a % b,
                    BinK::SDiv => sg(a).wrapping_div(sg(b)) as u128,
                    BinK::SRem => sg(a).wrapping_rem(sg(b)) as u128,
                    BinK::Shl => {
                        if b >= 128 {
                            0
                        } else {
                            a << b
                        }
                    }
                    BinK::LShr => {
                        if b >= 128 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    BinK::AShr => (sg(a) >> b.min(127)) as u128,
                    BinK::And => a & b,
                    BinK::Or => a | b,
                    BinK::Xor => a ^ b,
                    _ => return Err(Stop::Unsupported("wide op".into())),
                };
                Ok(V::W(Rc::new(r & m)))
            }
            _ if fl => {
                let (a, b) = (self.cv(s, x)?, self.cv(s, y)?);
                let f = |a: f64, b: f64| match k {
                    BinK::FAdd => a + b,
                    BinK::FSub => a - b,
                    BinK::FMul => a * b,
                    BinK::FDiv => a / b,
                    _ => a % b,
                };
                Ok(V::C(if w == 64 {
                    f(f64::from_bits(a), f64::from_bits(b)).to_bits()
                } else {
                    let (a, b) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    (match k {
                        BinK::FAdd => a + b,
                        BinK::FSub => a - b,
                        BinK::FMul => a * b,
                        BinK::FDiv => a / b,
                        _ => a % b,
                    })
                    .to_bits() as u64
                }))
            }
            (V::C(a), V::C(b)) => Ok(V::C(self.cbin(k, *a, *b, w)?)),
            _ => self.sbin(s, k, x, y, w),
        }
    }

    fn rare(&mut self, s: &mut State, fr: &mut Frame, i: &'static I) -> R<()> {
        let (d, r) = match i {
            I::BinT { k, ty, d, a, b } => {
                let (x, y) = (self.v(fr, a), self.v(fr, b));
                let (w, fl) = self.elem_w(*ty);
                (*d, self.bin_t(s, *k, &x, &y, w, fl)?)
            }
            I::IcmpT { p, ty, d, a, b } => {
                let (x, y) = (self.v(fr, a), self.v(fr, b));
                let (w, _) = self.elem_w(*ty);
                let r = match (&x, &y) {
                    (V::A(a), V::A(b)) => {
                        let mut o = vec![];
                        for i in 0..a.len() {
                            o.push(match (&a[i], &b[i]) {
                                (V::C(x), V::C(y)) => V::C(ccmp(*p, *x, *y, w) as u64),
                                (x, y) => sval(scmp(*p, self.e(x, w), self.e(y, w))),
                            });
                        }
                        V::A(Rc::new(o))
                    }
                    _ => {
                        let (a, b) = (wide(&x)?, wide(&y)?);
                        let sg = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                        V::C(match p {
                            Pred::Eq => a == b,
                            Pred::Ne => a != b,
                            Pred::Ugt => a > b,
                            Pred::Uge => a >= b,
                            Pred::Ult => a < b,
                            Pred::Ule => a <= b,
                            Pred::Sgt => sg(a) > sg(b),
                            Pred::Sge => sg(a) >= sg(b),
                            Pred::Slt => sg(a) < sg(b),
                            Pred::Sle => sg(a) <= sg(b),
                        } as u64)
                    }
                };
                (*d, r)
            }
            I::Fcmp { p, dbl, d, a, b } => {
                let (x, y) = (self.v(fr, a), self.v(fr, b));
                let (x, y) = (self.cv(s, &x)?, self.cv(s, &y)?);
                let (a, b) = if *dbl { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = a.is_nan() || b.is_nan();
                let r = match p {
                    FPred::False => false,
                    FPred::Oeq => a == b,
                    FPred::Ogt => a > b,
                    FPred::Oge => a >= b,
                    FPred::Olt => a < b,
                    FPred::Ole => a <= b,
                    FPred::One => !un && a != b,
                    FPred::Ord => !un,
                    FPred::Ueq => un || a == b,
                    FPred::Ugt => un || a > b,
                    FPred::Uge => un || a >= b,
                    FPred::Ult => un || a < b,
                    FPred::Ule => un || a <= b,
                    FPred::Une => un || a != b,
                    FPred::Uno => un,
                    FPred::True => true,
                };
                (*d, V::C(r as u64))
            }
            I::FNeg { dbl, d, a } => {
                let x = self.v(fr, a);
                let x = self.cv(s, &x)?;
                (*d, V::C(if *dbl { x ^ (1 << 63) } else { x ^ (1 << 31) }))
            }
            I::LoadT { ty, d, p } => {
                let p = self.v(fr, p);
                (*d, self.load_t(s, &p, *ty)?)
            }
            I::StoreT { ty, v, p } => {
                let p = self.v(fr, p);
                let v = self.v(fr, v);
                self.store_t(s, &p, &v, *ty)?;
                fr.pc += 1;
                return Ok(());
            }
            I::Cast { k, d, from, to, a } => {
                let x = self.v(fr, a);
                (*d, self.cast(s, *k, *from, *to, x)?)
            }
            I::ExtElt { d, a, i } => {
                let V::A(v) = self.v(fr, a) else { return Err(Stop::Unsupported("extractelement".into())) };
                let i = self.v(fr, i);
                let i = self.cv(s, &i)?;
                (*d, v[i as usize].clone())
            }
            I::InsElt { d, a, v, i } => {
                let V::A(mut x) = self.v(fr, a) else { return Err(Stop::Unsupported("insertelement".into())) };
                let nv = self.v(fr, v);
                let i = self.v(fr, i);
                let i = self.cv(s, &i)?;
                Rc::make_mut(&mut x)[i as usize] = nv;
                (*d, V::A(x))
            }
            I::Shuffle { d, a, b, n, mask } => {
                let (V::A(x), V::A(y)) = (self.v(fr, a), self.v(fr, b)) else { return Err(Stop::Unsupported("shuffle".into())) };
                let r = mask
                    .iter()
                    .map(|&m| {
                        let m = m.max(0) as u32;
                        if m < *n {
                            x[m as usize].clone()
                        } else {
                            y[(m - n) as usize].clone()
                        }
                    })
                    .collect();
                (*d, V::A(Rc::new(r)))
            }
            I::GepV { d, ty, base, idx, scale } => {
                let _ = ty;
                let b = self.v(fr, base);
                let V::A(ix) = self.v(fr, idx) else { return Err(Stop::Unsupported("vector gep".into())) };
                let mut o = vec![];
                for (i, x) in ix.iter().enumerate() {
                    let bb = match &b {
                        V::A(v) => v[i].clone(),
                        v => v.clone(),
                    };
                    let (V::C(p), V::C(x)) = (&bb, x) else { return Err(Stop::Unsupported("vector gep".into())) };
                    o.push(V::C(p.wrapping_add(x.wrapping_mul(*scale))));
                }
                (*d, V::A(Rc::new(o)))
            }
            I::Rmw { k, w, d, p, v } => {
                let p = self.v(fr, p);
                let v = self.v(fr, v);
                let w = *w as u32;
                let old = self.load_v(s, &p, w)?;
                let (a, b) = (self.e(&old, w), self.e(&v, w));
                let n = match k {
                    RmwK::Xchg => b,
                    RmwK::Add => add(a, b),
                    RmwK::Sub => sub(a, b),
                    RmwK::And => bin(B::And, a, b),
                    RmwK::Nand => bin(B::Xor, bin(B::And, a, b), con(!0, w)),
                    RmwK::Or => bin(B::Or, a, b),
                    RmwK::Xor => bin(B::Xor, a, b),
                    RmwK::Max => ite(slt(a, b), b, a),
                    RmwK::Min => ite(slt(a, b), a, b),
                    RmwK::UMax => ite(ult(a, b), b, a),
                    RmwK::UMin => ite(ult(a, b), a, b),
                };
                self.store_v(s, &p, &sval(n), w)?;
                (*d, old)
            }
            I::Cmpxchg { w, d, p, c, n } => {
                let p = self.v(fr, p);
                let w = *w as u32;
                let (c, n) = (self.v(fr, c), self.v(fr, n));
                let old = self.load_v(s, &p, w)?;
                let q = eq(self.e(&old, w), self.e(&c, w));
                let b = self.decide(s, q)?;
                if b {
                    self.store_v(s, &p, &n, w)?;
                }
                (*d, V::A(Rc::new(vec![old, V::C(b as u64)])))
            }
            I::Nop => {
                fr.pc += 1;
                return Ok(());
            }
            I::Unreachable => return Err(Stop::Violation("unreachable code reached".into())),
            _ => return Err(Stop::Unsupported(format!("instruction {:?}", i))),
        };
        fr.regs[d as usize] = r;
        fr.pc += 1;
        Ok(())
    }

    fn cast(&mut self, s: &mut State, k: CastK, from: TyId, to: TyId, x: V) -> R<V> {
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (self.m.tys[from as usize].clone(), self.m.tys[to as usize].clone()) {
            if !matches!(k, CastK::BitCast) {
                let V::A(v) = x else { return Err(Stop::Unsupported("vector cast".into())) };
                let mut o = vec![];
                for e in v.iter() {
                    o.push(self.cast(s, k, fe, te, e.clone())?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        if let CastK::BitCast = k {
            if from == to {
                return Ok(x);
            }
            // through bytes
            if let (V::C(_) | V::S(_), Some(_), Some(_)) = (&x, self.m.scalar_bits(from).filter(|b| *b <= 64), self.m.scalar_bits(to).filter(|b| *b <= 64)) {
                return Ok(x);
            }
            // vector of bits -> integer
            if let (Ty::Vec(_, e), V::A(v)) = (self.m.tys[from as usize].clone(), &x) {
                if self.m.tys[e as usize] == Ty::Int(1) {
                    let mut parts = vec![];
                    for b in v.iter() {
                        parts.push(self.e(b, 1));
                    }
                    let mut sg = vec![];
                    for p in parts {
                        match as_c(p) {
                            Some(k) => sg.push(Seg { src: NONE, lo: 0, len: 1, k }),
                            None => sg.push(Seg { src: p, lo: 0, len: 1, k: 0 }),
                        }
                    }
                    let w = sg.len() as u32;
                    return Ok(sval(segs(sg, w)));
                }
            }
            let sp = s.th[s.cur].frames.last().unwrap().sp - 256;
            let sp = sp & !63;
            self.store_t(s, &V::C(sp), &x, from)?;
            return self.load_t(s, &V::C(sp), to);
        }
        let fw = match self.m.tys[from as usize] {
            Ty::Int(w) => w as u32,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            _ => 64,
        };
        let tw = match self.m.tys[to as usize] {
            Ty::Int(w) => w as u32,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            _ => 64,
        };
        match k {
            CastK::Trunc | CastK::ZExt | CastK::SExt | CastK::PtrToInt | CastK::IntToPtr => {
                if let (V::C(_) | V::S(_), true) = (&x, tw <= 64) {
                    let e = self.e(&x, fw);
                    return Ok(sval(if tw < fw {
                        trunc(e, tw)
                    } else if k == CastK::SExt {
                        sext(e, tw)
                    } else {
                        zext(e, tw)
                    }));
                }
                if let V::S(e) = x {
                    let v = self.conc(s, e)?;
                    return self.cast(s, k, from, to, V::C(v));
                }
                let v = wide(&x)?;
                let v = if k == CastK::SExt { (((v << (128 - fw)) as i128) >> (128 - fw)) as u128 } else { v };
                if tw <= 64 {
                    Ok(V::C(v as u64 & mask(tw)))
                } else {
                    let m = if tw >= 128 { !0 } else { (1u128 << tw) - 1 };
                    Ok(V::W(Rc::new(v & m)))
                }
            }
            _ => {
                let f32s = self.m.tys[from as usize] == Ty::F32;
                let f32t = self.m.tys[to as usize] == Ty::F32;
                if let V::W(w) = &x {
                    let r = if k == CastK::SiToFp { **w as i128 as f64 } else { **w as f64 };
                    return Ok(V::C(r.to_bits()));
                }
                let b = self.cv(s, &x)?;
                let fin = |b: u64| if f32s { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
                let fout = |f: f64| if f32t { (f as f32).to_bits() as u64 } else { f.to_bits() };
                Ok(V::C(match k {
                    CastK::FpToUi => fin(b) as u64 & mask(tw),
                    CastK::FpToSi => fin(b) as i64 as u64 & mask(tw),
                    CastK::UiToFp => {
                        if f32t {
                            (b as f32).to_bits() as u64
                        } else {
                            (b as f64).to_bits()
                        }
                    }
                    CastK::SiToFp => {
                        let v = sx(b, fw);
                        if f32t {
                            (v as f32).to_bits() as u64
                        } else {
                            (v as f64).to_bits()
                        }
                    }
                    _ => fout(fin(b)),
                }))
            }
        }
    }

    fn call(&mut self, s: &mut State, fr: &mut Frame, i: &'static I) -> R<()> {
        let I::Call { d, ret, f, args, nfixed } = i else { unreachable!() };
        let id = match f {
            Callee::Fn(id) | Callee::Ext(id) => *id,
            Callee::Ind(o) => {
                let v = self.v(fr, o);
                let a = match v {
                    V::C(a) => a,
                    V::S(e) => self.conc(s, e)?,
                    _ => return Err(Stop::Unsupported("callee".into())),
                };
                self.fn_of(a).ok_or_else(|| Stop::Violation(format!("indirect call of {:#x}", a)))?
            }
            Callee::Asm(t) => {
                if t.is_empty() {
                    fr.pc += 1;
                    return Ok(());
                }
                if t.contains("cpuid") {
                    let z = V::C(0);
                    fr.regs[*d as usize] = V::A(Rc::new(vec![z.clone(), z.clone(), z.clone(), z]));
                    fr.pc += 1;
                    return Ok(());
                }
                return Err(Stop::Unsupported(format!("asm {}", t)));
            }
        };
        if self.m.funcs[id as usize].body.is_some() && !self.hooked[id as usize] {
            let av: Vec<V> = args.iter().map(|(_, o)| self.v(fr, o)).collect();
            let pw = self.prints[id as usize];
            if pw > 0 {
                // the decimal text of a symbolic number (for messages) is left out
                if let V::C(p) = av[0] {
                    if let Some(V::S(_)) = s.mem.load(p, pw as u64 / 8) {
                        if *d != NOREG {
                            fr.regs[*d as usize] = V::C(0);
                        }
                        fr.pc += 1;
                        return Ok(());
                    }
                }
            }
            if s.th[s.cur].frames.len() > 900 {
                return Err(Stop::Violation("call depth".into()));
            }
            let nf = self.frame_id(id, av, fr.sp & !15, *d)?;
            fr.pc += 1;
            s.th[s.cur].frames.push(nf);
            return Ok(());
        }
        if self.visible[id as usize] && s.get("preempt") > 0 {
            let arg = |x: &Self, k: usize| match args.get(k).map(|(_, o)| x.v(fr, o)) {
                Some(V::C(v)) => v as i64,
                _ => 0,
            };
            let skip = match self.names[id as usize] {
                "write" => arg(self, 0) as i32 <= 2,
                "mmap64" => (arg(self, 4) as i32) < 0,
                "ioctl" => arg(self, 1) as u32 != 0x40049409,
                _ => false,
            };
            if !skip && self.preempt(s)? {
                return Ok(());
            }
        }
        let av: Vec<V> = args.iter().map(|(_, o)| self.v(fr, o)).collect();
        let cc = CallCtx { ret: *ret, tys: args, name: self.names[id as usize], nfixed: *nfixed };
        let g = if self.hooked[id as usize] {
            self.hooks[&id]
        } else {
            match self.ext[id as usize] {
                Some(g) => g,
                None => return Err(Stop::Unsupported(format!("external function {}", cc.name))),
            }
        };
        while self.ret_mask.len() <= *ret as usize {
            let t = self.ret_mask.len() as u32;
            let m = match self.m.tys[t as usize] {
                Ty::Int(w) if w <= 64 => mask(w as u32),
                _ => !0,
            };
            self.ret_mask.push(m);
        }
        let depth = s.th[s.cur].frames.len();
        let ti = s.cur;
        if self.trace && !cc.name.starts_with("llvm.") && !matches!(cc.name, "malloc" | "free" | "memcmp" | "bcmp" | "strlen" | "realloc" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "__errno_location") {
            eprint!("[{}] {}(", s.th[ti].id, cc.name);
            for a in &av {
                match a {
                    V::C(x) => eprint!("{:#x} ", x),
                    V::S(e) => eprint!("{} ", show(*e)),
                    _ => eprint!("? "),
                }
            }
            eprintln!(")");
        }
        let r = g(self, s, &av, &cc)?;
        // the frame vector may have been reallocated by a hook that pushed frames
        let t = &mut s.th[ti];
        let fr = &mut t.frames[depth - 1];
        if *d != NOREG {
            fr.regs[*d as usize] = match r {
                V::C(x) => V::C(x & self.ret_mask[*ret as usize]),
                V::S(e) => {
                    let w = 64 - self.ret_mask[*ret as usize].leading_zeros();
                    if width(e) > w {
                        sval(trunc(e, w))
                    } else {
                        sval(zext(e, w))
                    }
                }
                r => r,
            };
        }
        fr.pc += 1;
        t.wake = None;
        t.gate = 0;
        s.ints.remove("pre_done");
        Ok(())
    }

    /// a point where another thread may run instead; true: switched
    fn preempt(&mut self, s: &mut State) -> R<bool> {
        if s.get("pre_done") == s.th[s.cur].id as u64 + 1 || s.t().wake.is_some() {
            return Ok(false);
        }
        let n = s.th.len();
        let run: Vec<usize> = (0..n).map(|k| (s.cur + k) % n).filter(|&i| s.th[i].st == Th::Run).collect();
        if run.len() < 2 {
            return Ok(false);
        }
        let v = s.next_var("pre", 0, run.len() as u64 - 1, 64);
        if self.trace {
            eprintln!("[{}] pre {} of {:?}", s.th[s.cur].id, show(v), run);
        }
        let k = self.conc(s, v)?;
        s.bump("pre", v);
        if k == 0 {
            let id = s.th[s.cur].id as u64 + 1;
            s.ints.insert("pre_done", id);
            return Ok(false);
        }
        let left = s.get("preempt") - 1;
        s.ints.insert("preempt", left);
        s.cur = run[k as usize];
        Ok(true)
    }
}

pub fn wide(v: &V) -> R<u128> {
    match v {
        V::W(x) => Ok(**x),
        V::C(x) => Ok(*x as u128),
        _ => Err(Stop::Unsupported("symbolic wide integer".into())),
    }
}

pub fn ccmp(p: Pred, x: u64, y: u64, w: u32) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Sgt => sx(x, w) > sx(y, w),
        Pred::Sge => sx(x, w) >= sx(y, w),
        Pred::Slt => sx(x, w) < sx(y, w),
        Pred::Sle => sx(x, w) <= sx(y, w),
    }
}
pub fn scmp(p: Pred, x: E, y: E) -> E {
    match p {
        Pred::Eq => eq(x, y),
        Pred::Ne => not(eq(x, y)),
        Pred::Ugt => ult(y, x),
        Pred::Uge => ule(y, x),
        Pred::Ult => ult(x, y),
        Pred::Ule => ule(x, y),
        Pred::Sgt => slt(y, x),
        Pred::Sge => not(slt(x, y)),
        Pred::Slt => slt(x, y),
        Pred::Sle => not(slt(y, x)),
    }
}

/// Rust symbol names, roughly demangled (legacy and v0 path parts)
pub fn demangle(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut out: Vec<&str> = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut l = 0;
            while i < b.len() && b[i].is_ascii_digit() {
                l = l * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + l > b.len() {
                break;
            }
            out.push(&r[i..i + l]);
            i += l;
        }
        if out.last().map_or(false, |x| x.len() == 17 && x.starts_with('h')) {
            out.pop();
        }
        return out.join("::").replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::");
    }
    if let Some(r) = n.strip_prefix("_R") {
        // v0: keep the identifiers
        let b = r.as_bytes();
        let mut i = 0;
        let mut out: Vec<&str> = vec![];
        while i < b.len() {
            if b[i].is_ascii_digit() && b[i] != b'0' {
                let mut l = 0;
                while i < b.len() && b[i].is_ascii_digit() {
                    l = l * 10 + (b[i] - b'0') as usize;
                    i += 1;
                }
                if i < b.len() && b[i] == b'_' {
                    i += 1;
                }
                if i + l <= b.len() && l > 0 {
                    out.push(&r[i..i + l]);
                    i += l;
                    continue;
                }
            }
            if i < b.len() && b[i] == b's' {
                // disambiguator s..._
                if let Some(k) = r[i..].find('_') {
                    if r[i + 1..i + k].bytes().all(|c| c.is_ascii_alphanumeric()) {
                        i += k + 1;
                        continue;
                    }
                }
            }
            i += 1;
        }
        return out.join("::");
    }
    n.to_string()
}
