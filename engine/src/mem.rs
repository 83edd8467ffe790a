//! Content functions and the paged, copy-on-write byte memory.
use crate::expr::*;
use crate::ir::V;
use std::collections::HashMap;
use std::rc::Rc;

/// A content function: index -> byte.
pub type Cf = u32;

pub enum Kind {
    Bytes(Vec<u8>),
    /// x-codes of symbolic bytes (see Page::x)
    Exprs(Vec<u32>),
    /// content function and the index of the run's first byte in it
    Lazy(Cf, u64),
}

pub enum CfN {
    Pat(u64),
    Const(u8),
    Runs(Vec<(u64, u64, Kind)>),
    Shift(Cf, E),
    Over { base: Cf, off: E, len: E, top: Cf },
}

#[derive(Default)]
pub struct Cfs {
    pub n: crate::expr::Arena<CfN>,
    memo: HashMap<(Cf, E), E>,
    pub lazies: Vec<(Cf, u64)>,
    pub err: Option<String>,
}
static mut CFS: Option<Cfs> = None;
pub fn cfs() -> &'static mut Cfs {
    #[allow(static_mut_refs)]
    unsafe {
        CFS.get_or_insert_with(Cfs::default)
    }
}
pub fn cf(n: CfN) -> Cf {
    let c = cfs();
    c.n.push(n);
    c.n.len() as u32 - 1
}
pub fn cf_const(b: u8) -> Cf {
    let c = cfs();
    for i in 0..c.n.len().min(4) {
        if let CfN::Const(x) = c.n[i] {
            if x == b {
                return i as u32;
            }
        }
    }
    cf(CfN::Const(b))
}
pub fn cf_shift(c: Cf, off: E) -> Cf {
    if as_c(off) == Some(0) {
        return c;
    }
    match &cfs().n[c as usize] {
        CfN::Const(_) => c,
        CfN::Shift(d, o) => {
            let s = add(*o, off);
            cf_shift(*d, s)
        }
        _ => cf(CfN::Shift(c, off)),
    }
}
pub fn cf_over(base: Cf, off: E, len: E, top: Cf) -> Cf {
    if as_c(len) == Some(0) {
        return base;
    }
    cf(CfN::Over { base, off, len, top })
}

fn xe(x: u32) -> E {
    let x = x - 1;
    extract(x >> 3, (x & 7) * 8, 8)
}

pub fn cf_eval(c: Cf, i: E) -> E {
    if let Some(&r) = cfs().memo.get(&(c, i)) {
        return r;
    }
    let node: &'static CfN = unsafe { &*(&cfs().n[c as usize] as *const CfN) };
    let r = match node {
        CfN::Pat(t) => pat(*t, i),
        CfN::Const(b) => con(*b as u64, 8),
        CfN::Shift(d, o) => cf_eval(*d, add(i, *o)),
        CfN::Over { base, off, len, top } => {
            // off <= i < off + len (no overflow: file offsets)
            let c = band(ule(*off, i), ult(i, add(*off, *len)));
            match as_c(c) {
                Some(1) => cf_eval(*top, sub(i, *off)),
                Some(_) => cf_eval(*base, i),
                None => {
                    let a = cf_eval(*top, sub(i, *off));
                    let b = cf_eval(*base, i);
                    ite(c, a, b)
                }
            }
        }
        CfN::Runs(rs) => {
            let n = nd(i);
            let (lo, hi) = (n.lo, n.hi);
            let mut parts: Vec<(u64, E)> = vec![]; // (end, value)
            for (s, l, k) in rs {
                if s + l <= lo || *s > hi {
                    continue;
                }
                match k {
                    Kind::Lazy(d, o) => {
                        let j = add(i, con(o.wrapping_sub(*s), 64));
                        parts.push((s + l, cf_eval(*d, j)));
                    }
                    Kind::Bytes(_) | Kind::Exprs(_) => {
                        let a = lo.max(*s);
                        let b = hi.min(s + l - 1);
                        if b - a > 20000 {
                            // too many candidates unless all equal
                        }
                        let mut p = a;
                        while p <= b {
                            let v = match k {
                                Kind::Bytes(d) => con(d[(p - s) as usize] as u64, 8),
                                Kind::Exprs(x) => xe(x[(p - s) as usize]),
                                _ => unreachable!(),
                            };
                            match parts.last_mut() {
                                Some(l) if l.1 == v && l.0 == p => l.0 = p + 1,
                                _ => parts.push((p + 1, v)),
                            }
                            if parts.len() > 600 {
                                cfs().err = Some("symbolic index into too many distinct bytes".into());
                                return con(0, 8);
                            }
                            p += 1;
                        }
                    }
                }
            }
            match parts.pop() {
                None => con(0, 8),
                Some((_, mut r)) => {
                    while let Some((end, v)) = parts.pop() {
                        r = ite(ult(i, con(end, 64)), v, r);
                    }
                    r
                }
            }
        }
    };
    cfs().memo.insert((c, i), r);
    r
}

pub const PS: u64 = 4096;
const LAZY: u32 = 1 << 31;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; 4096],
    /// 0: concrete; bit 31: lazy (index into Cfs::lazies); else 1 + expr*8 + byte
    pub x: Option<Box<[u32; 4096]>>,
}

type L2 = [Option<Rc<Page>>; 1024];
const TLB: usize = 1024;

pub struct Mem {
    dir: HashMap<u64, Rc<Box<L2>>>,
    tlb: Box<[(u64, *mut Page, bool)]>,
}

fn empty_l2() -> Box<L2> {
    Box::new(std::array::from_fn(|_| None))
}

impl Mem {
    pub fn new() -> Mem {
        Mem { dir: HashMap::new(), tlb: vec![(u64::MAX, std::ptr::null_mut(), false); TLB].into_boxed_slice() }
    }
    /// copy; both sides lose their write permissions
    pub fn fork(&mut self) -> Mem {
        for t in self.tlb.iter_mut() {
            *t = (u64::MAX, std::ptr::null_mut(), false);
        }
        Mem { dir: self.dir.clone(), tlb: vec![(u64::MAX, std::ptr::null_mut(), false); TLB].into_boxed_slice() }
    }
    /// the parent's private memory with the child's files
    pub fn join(parent: &Mem, child: &Mem) -> Mem {
        let flat = crate::kern::FLAT_BASE / PS >> 10;
        let mut dir: HashMap<u64, Rc<Box<L2>>> = HashMap::new();
        for (k, v) in parent.dir.iter().filter(|x| *x.0 < flat) {
            dir.insert(*k, v.clone());
        }
        for (k, v) in child.dir.iter().filter(|x| *x.0 >= flat) {
            dir.insert(*k, v.clone());
        }
        Mem { dir, tlb: vec![(u64::MAX, std::ptr::null_mut(), false); TLB].into_boxed_slice() }
    }
    pub fn map(&mut self, addr: u64, len: u64) {
        let a = addr / PS;
        let b = (addr + len).div_ceil(PS);
        for p in a..b {
            let l2 = self.dir.entry(p >> 10).or_insert_with(|| Rc::new(empty_l2()));
            if l2[(p & 1023) as usize].is_none() {
                Rc::make_mut(l2)[(p & 1023) as usize] = Some(Rc::new(Page { d: [0; 4096], x: None }));
            }
        }
    }
    pub fn unmap(&mut self, addr: u64, len: u64) {
        let a = addr / PS;
        let b = (addr + len).div_ceil(PS);
        for p in a..b {
            if let Some(l2) = self.dir.get_mut(&(p >> 10)) {
                Rc::make_mut(l2)[(p & 1023) as usize] = None;
            }
            self.tlb[p as usize & (TLB - 1)] = (u64::MAX, std::ptr::null_mut(), false);
        }
    }
    pub fn mapped(&self, addr: u64) -> bool {
        let p = addr / PS;
        self.dir.get(&(p >> 10)).map_or(false, |l| l[(p & 1023) as usize].is_some())
    }
    #[inline]
    fn rd(&mut self, pn: u64) -> Option<&Page> {
        let t = &self.tlb[pn as usize & (TLB - 1)];
        if t.0 == pn {
            return Some(unsafe { &*t.1 });
        }
        let l = self.dir.get(&(pn >> 10))?;
        let p = l[(pn & 1023) as usize].as_ref()?;
        let ptr = Rc::as_ptr(p) as *mut Page;
        self.tlb[pn as usize & (TLB - 1)] = (pn, ptr, false);
        Some(unsafe { &*ptr })
    }
    #[inline]
    fn wr(&mut self, pn: u64) -> Option<&mut Page> {
        let t = &self.tlb[pn as usize & (TLB - 1)];
        if t.0 == pn && t.2 {
            return Some(unsafe { &mut *t.1 });
        }
        let l = self.dir.get_mut(&(pn >> 10))?;
        if l[(pn & 1023) as usize].is_none() {
            return None;
        }
        let l = Rc::make_mut(l);
        let p = l[(pn & 1023) as usize].as_mut().unwrap();
        let ptr = Rc::make_mut(p) as *mut Page;
        self.tlb[pn as usize & (TLB - 1)] = (pn, ptr, true);
        Some(unsafe { &mut *ptr })
    }

    /// n in 1..=8
    #[inline]
    pub fn load(&mut self, addr: u64, n: u64) -> Option<V> {
        let off = (addr & (PS - 1)) as usize;
        if off as u64 + n <= PS {
            let p = self.rd(addr / PS)?;
            if p.x.is_none() {
                let d = &p.d[off..off + n as usize];
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(d);
                return Some(V::C(u64::from_le_bytes(b)));
            }
        }
        self.load_slow(addr, n)
    }
    #[cold]
    fn load_slow(&mut self, addr: u64, n: u64) -> Option<V> {
        let mut xs = [0u32; 8];
        let mut ds = [0u8; 8];
        let mut any = 0;
        for i in 0..n as usize {
            let (d, x) = self.raw(addr + i as u64)?;
            ds[i] = d;
            xs[i] = x;
            any |= x;
        }
        if any == 0 {
            return Some(V::C(u64::from_le_bytes(ds)));
        }
        // whole expression?
        let x0 = xs[0];
        if x0 != 0 && x0 & LAZY == 0 && (x0 - 1) & 7 == 0 {
            let e = (x0 - 1) >> 3;
            if width(e) as u64 == 8 * n && (1..n as usize).all(|i| xs[i] == x0 + i as u32) {
                return Some(V::S(e));
            }
        }
        let mut bs = vec![];
        for i in 0..n as usize {
            bs.push(Self::raw_e(addr + i as u64, ds[i], xs[i]));
        }
        let e = concat_bytes(&bs);
        Some(match as_c(e) {
            Some(v) => V::C(v),
            None => V::S(e),
        })
    }
    pub fn raw(&mut self, addr: u64) -> Option<(u8, u32)> {
        let p = self.rd(addr / PS)?;
        let o = (addr & (PS - 1)) as usize;
        Some((p.d[o], p.x.as_ref().map_or(0, |x| x[o])))
    }
    fn raw_e(addr: u64, d: u8, x: u32) -> E {
        if x == 0 {
            con(d as u64, 8)
        } else if x & LAZY != 0 {
            let (c, b) = cfs().lazies[(x & !LAZY) as usize];
            cf_eval(c, con(addr - b, 64))
        } else {
            xe(x)
        }
    }
    pub fn byte_e(&mut self, addr: u64) -> Option<E> {
        let (d, x) = self.raw(addr)?;
        Some(Self::raw_e(addr, d, x))
    }
    #[inline]
    pub fn store_c(&mut self, addr: u64, n: u64, v: u64) -> Option<()> {
        let off = (addr & (PS - 1)) as usize;
        if off as u64 + n <= PS {
            let p = self.wr(addr / PS)?;
            p.d[off..off + n as usize].copy_from_slice(&v.to_le_bytes()[..n as usize]);
            if let Some(x) = &mut p.x {
                x[off..off + n as usize].fill(0);
            }
            return Some(());
        }
        for i in 0..n {
            self.store_c(addr + i, 1, v >> (8 * i))?;
        }
        Some(())
    }
    pub fn store_e(&mut self, addr: u64, e: E) -> Option<()> {
        let n = width(e) as u64 / 8;
        for i in 0..n {
            self.set_raw(addr + i, 0, 1 + (e << 3) + i as u32)?;
        }
        Some(())
    }
    pub fn set_raw(&mut self, addr: u64, d: u8, x: u32) -> Option<()> {
        let o = (addr & (PS - 1)) as usize;
        let p = self.wr(addr / PS)?;
        p.d[o] = d;
        if x != 0 && p.x.is_none() {
            p.x = Some(Box::new([0; 4096]));
        }
        if let Some(px) = &mut p.x {
            px[o] = x;
        }
        Some(())
    }
    /// makes [addr, addr+len) show the content function (index 0 at base)
    pub fn set_lazy(&mut self, addr: u64, len: u64, c: Cf, base: u64) -> Option<()> {
        let l = cfs();
        l.lazies.push((c, base));
        let x = LAZY | (l.lazies.len() as u32 - 1);
        let mut a = addr;
        let end = addr + len;
        while a < end {
            let o = (a & (PS - 1)) as usize;
            let n = ((PS - o as u64).min(end - a)) as usize;
            let p = self.wr(a / PS)?;
            p.x.get_or_insert_with(|| Box::new([0; 4096]))[o..o + n].fill(x);
            a += n as u64;
        }
        Some(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Option<()> {
        if n == 0 || dst == src {
            return Some(());
        }
        if n <= 8 {
            // small: keep symbolic structure through raw copies
            let mut t = [(0u8, 0u32); 8];
            for i in 0..n as usize {
                t[i] = self.raw(src + i as u64)?;
            }
            for i in 0..n as usize {
                self.put_raw(dst + i as u64, src + i as u64, t[i])?;
            }
            return Some(());
        }
        let mut buf: Vec<(u64, usize, Option<Box<[u32]>>)> = vec![];
        let mut data = vec![0u8; n as usize];
        let mut a = 0u64;
        while a < n {
            let s = src + a;
            let o = (s & (PS - 1)) as usize;
            let k = ((PS - o as u64).min(n - a)) as usize;
            let p = self.rd(s / PS)?;
            data[a as usize..a as usize + k].copy_from_slice(&p.d[o..o + k]);
            if let Some(x) = &p.x {
                let sl = &x[o..o + k];
                if sl.iter().any(|x| *x != 0) {
                    buf.push((a, k, Some(sl.into())));
                }
            }
            a += k as u64;
        }
        self.write_bytes(dst, &data)?;
        for (a, k, x) in buf {
            let x = x.unwrap();
            let mut i = 0;
            while i < k {
                let c = x[i];
                if c == 0 {
                    i += 1;
                    continue;
                }
                if c & LAZY != 0 {
                    let mut j = i;
                    while j < k && x[j] == c {
                        j += 1;
                    }
                    let (f, b) = cfs().lazies[(c & !LAZY) as usize];
                    let nb = b.wrapping_add(dst).wrapping_sub(src);
                    self.set_lazy(dst + a + i as u64, (j - i) as u64, f, nb)?;
                    i = j;
                } else {
                    self.set_raw(dst + a + i as u64, 0, c)?;
                    i += 1;
                }
            }
        }
        Some(())
    }
    fn put_raw(&mut self, dst: u64, src: u64, r: (u8, u32)) -> Option<()> {
        if r.1 & LAZY != 0 {
            let (c, b) = cfs().lazies[(r.1 & !LAZY) as usize];
            let e = cf_eval(c, con(src - b, 64));
            return match as_c(e) {
                Some(v) => self.set_raw(dst, v as u8, 0),
                None => self.set_raw(dst, 0, 1 + (e << 3)),
            };
        }
        self.set_raw(dst, r.0, r.1)
    }
    pub fn write_bytes(&mut self, dst: u64, d: &[u8]) -> Option<()> {
        let mut a = 0usize;
        while a < d.len() {
            let s = dst + a as u64;
            let o = (s & (PS - 1)) as usize;
            let k = (PS as usize - o).min(d.len() - a);
            let p = self.wr(s / PS)?;
            p.d[o..o + k].copy_from_slice(&d[a..a + k]);
            if let Some(x) = &mut p.x {
                x[o..o + k].fill(0);
            }
            a += k;
        }
        Some(())
    }
    pub fn fill(&mut self, dst: u64, v: u8, n: u64) -> Option<()> {
        let mut a = 0u64;
        while a < n {
            let s = dst + a;
            let o = (s & (PS - 1)) as usize;
            let k = ((PS - o as u64).min(n - a)) as usize;
            let p = self.wr(s / PS)?;
            p.d[o..o + k].fill(v);
            if let Some(x) = &mut p.x {
                x[o..o + k].fill(0);
            }
            a += k as u64;
        }
        Some(())
    }
    /// concrete bytes only
    pub fn read_bytes(&mut self, src: u64, n: u64) -> Option<Vec<u8>> {
        let mut out = vec![];
        for i in 0..n {
            let (d, x) = self.raw(src + i)?;
            if x != 0 {
                let e = Self::raw_e(src + i, d, x);
                out.push(as_c(e)? as u8);
            } else {
                out.push(d);
            }
        }
        Some(out)
    }
    pub fn cstr(&mut self, mut a: u64) -> Option<Vec<u8>> {
        let mut out = vec![];
        loop {
            let e = self.byte_e(a)?;
            let b = as_c(e)? as u8;
            if b == 0 {
                return Some(out);
            }
            out.push(b);
            a += 1;
        }
    }
    /// the content of [addr, addr+len) as a content function
    pub fn snap(&mut self, addr: u64, len: u64) -> Option<Cf> {
        let mut runs: Vec<(u64, u64, Kind)> = vec![];
        let mut lastx = 0u32;
        for i in 0..len {
            let (d, x) = self.raw(addr + i)?;
            if x & LAZY != 0 {
                if x == lastx {
                    runs.last_mut().unwrap().1 += 1;
                } else {
                    let (c, b) = cfs().lazies[(x & !LAZY) as usize];
                    runs.push((i, 1, Kind::Lazy(c, addr + i - b)));
                }
            } else if x != 0 {
                match runs.last_mut() {
                    Some((_, l, Kind::Exprs(v))) => {
                        v.push(x);
                        *l += 1;
                    }
                    _ => runs.push((i, 1, Kind::Exprs(vec![x]))),
                }
            } else {
                match runs.last_mut() {
                    Some((_, l, Kind::Bytes(v))) => {
                        v.push(d);
                        *l += 1;
                    }
                    _ => runs.push((i, 1, Kind::Bytes(vec![d]))),
                }
            }
            lastx = x;
        }
        if runs.len() == 1 {
            if let Kind::Lazy(c, o) = runs[0].2 {
                return Some(cf_shift(c, con(o, 64)));
            }
        }
        Some(cf(CfN::Runs(runs)))
    }
    /// runs of equal treatment over [lo, hi]: used for loads at symbolic addresses
    pub fn sym_load_byte(&mut self, addr: E, lo: u64, hi: u64) -> Option<E> {
        // collect runs
        let mut parts: Vec<(u64, E)> = vec![];
        let mut a = lo;
        let mut lastx = 0;
        loop {
            let (d, x) = self.raw(a)?;
            if x & LAZY != 0 {
                if x == lastx {
                    parts.last_mut().unwrap().0 = a;
                } else {
                    let (c, b) = cfs().lazies[(x & !LAZY) as usize];
                    let e = cf_eval(c, sub(addr, con(b, 64)));
                    parts.push((a, e));
                }
            } else {
                let e = Self::raw_e(a, d, x);
                match parts.last_mut() {
                    Some(p) if p.1 == e && lastx & LAZY == 0 => p.0 = a,
                    _ => parts.push((a, e)),
                }
            }
            lastx = x;
            if parts.len() > 600 {
                cfs().err = Some("symbolic address over too many distinct bytes".into());
                return Some(con(0, 8));
            }
            if a == hi {
                break;
            }
            a += 1;
        }
        let (_, mut r) = parts.pop().unwrap();
        while let Some((end, e)) = parts.pop() {
            r = ite(ule(addr, con(end, 64)), e, r);
        }
        Some(r)
    }
}
