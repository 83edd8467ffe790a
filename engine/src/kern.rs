//! The modelled operating system: files, locks, clock.
use crate::exec::*;
use crate::expr::*;
use crate::ir::V;
use crate::mem::*;
use crate::state::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const BS: u64 = 4096;
pub const FLAT_BASE: u64 = 0x8000_0000_0000;
pub const INF: u64 = 1 << 62;

#[derive(Clone)]
pub enum IK {
    Dir(BTreeMap<Vec<u8>, u32>),
    Flat(u64),
    Log { c: Cf, size: E, alloc: Cf, cands: Vec<E> },
    Urandom,
    Null,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Owner {
    Ofd(u32),
    Proc(u32),
}

#[derive(Clone)]
pub struct Lock {
    pub owner: Owner,
    pub s: E,
    pub e: E,
    pub excl: bool,
}

#[derive(Clone)]
pub struct Inode {
    pub k: IK,
    pub nlink: u32,
    pub locks: Vec<Lock>,
    pub flocks: Vec<(u32, bool)>,
    /// live private mappings: (address, length, file offset)
    pub maps: Vec<(u64, u64, u64)>,
    pub ctime: u64,
}

#[derive(Clone)]
pub struct Ofd {
    pub ino: u32,
    pub pos: E,
    pub append: bool,
    pub acc: u32, // 0 r 1 w 2 rw
    pub refs: u32,
}

#[derive(Clone)]
pub struct Kern {
    pub inodes: Rc<Vec<Option<Rc<Inode>>>>,
    pub ofds: Vec<Option<Ofd>>,
    pub fds: Vec<Option<u32>>,
    pub clock: u64, // ns since the epoch
    pub rng: u64,
    pub pid: u32,
    pub dirs: Rc<BTreeMap<u64, (u32, Vec<(Vec<u8>, u32)>, usize)>>, // DIR* -> (fd, entries, position)
}

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOSPC: i32 = 28;
pub const ENOSYS: i32 = 38;
pub const ENOTEMPTY: i32 = 39;
pub const EOPNOTSUPP: i32 = 95;

impl Kern {
    pub fn new() -> Kern {
        let mut k = Kern {
            inodes: Rc::new(vec![None]),
            ofds: vec![],
            fds: vec![],
            clock: 1_700_000_000_000_000_000,
            rng: 0x1234_5678,
            pid: 100,
            dirs: Default::default(),
        };
        let root = k.new_inode(IK::Dir(BTreeMap::new()));
        let dev = k.new_inode(IK::Dir(BTreeMap::new()));
        let ur = k.new_inode(IK::Urandom);
        let nul = k.new_inode(IK::Null);
        k.link(root, b"dev", dev);
        k.link(dev, b"urandom", ur);
        k.link(dev, b"null", nul);
        let tmp = k.new_inode(IK::Dir(BTreeMap::new()));
        k.link(root, b"tmp", tmp);
        for _ in 0..3 {
            let o = k.new_ofd(nul, false, 2);
            k.new_fd(o);
        }
        k
    }
    pub fn new_inode(&mut self, k: IK) -> u32 {
        let v = Rc::make_mut(&mut self.inodes);
        v.push(Some(Rc::new(Inode { k, nlink: 0, locks: vec![], flocks: vec![], maps: vec![], ctime: 0 })));
        v.len() as u32 - 1
    }
    pub fn ino(&self, i: u32) -> &Inode {
        self.inodes[i as usize].as_ref().unwrap()
    }
    pub fn ino_mut(&mut self, i: u32) -> &mut Inode {
        Rc::make_mut(Rc::make_mut(&mut self.inodes)[i as usize].as_mut().unwrap())
    }
    pub fn link(&mut self, dir: u32, name: &[u8], i: u32) {
        if let IK::Dir(d) = &mut self.ino_mut(dir).k {
            d.insert(name.to_vec(), i);
        }
        self.ino_mut(i).nlink += 1;
    }
    pub fn new_ofd(&mut self, ino: u32, append: bool, acc: u32) -> u32 {
        self.ofds.push(Some(Ofd { ino, pos: con(0, 64), append, acc, refs: 0 }));
        self.ofds.len() as u32 - 1
    }
    pub fn new_fd(&mut self, ofd: u32) -> u32 {
        self.ofds[ofd as usize].as_mut().unwrap().refs += 1;
        for (i, f) in self.fds.iter_mut().enumerate() {
            if f.is_none() {
                *f = Some(ofd);
                return i as u32;
            }
        }
        self.fds.push(Some(ofd));
        self.fds.len() as u32 - 1
    }
    pub fn comps(path: &[u8]) -> Vec<&[u8]> {
        let mut v: Vec<&[u8]> = vec![];
        for c in path.split(|b| *b == b'/') {
            if c.is_empty() || c == b"." {
                continue;
            }
            if c == b".." {
                v.pop();
                continue;
            }
            v.push(c);
        }
        v
    }
    /// (parent dir, last name, inode if it exists)
    pub fn lookup(&self, base: u32, path: &[u8]) -> Result<(u32, Vec<u8>, Option<u32>), i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let mut d = if path[0] == b'/' { 1 } else { base };
        let cs = Self::comps(path);
        if cs.is_empty() {
            return Ok((d, b".".to_vec(), Some(d)));
        }
        for c in &cs[..cs.len() - 1] {
            match &self.ino(d).k {
                IK::Dir(m) => d = *m.get(*c).ok_or(ENOENT)?,
                _ => return Err(ENOTDIR),
            }
        }
        match &self.ino(d).k {
            IK::Dir(m) => Ok((d, cs[cs.len() - 1].to_vec(), m.get(cs[cs.len() - 1]).copied())),
            _ => Err(ENOTDIR),
        }
    }
    pub fn ofd(&self, fd: u64) -> Result<u32, i32> {
        match self.fds.get(fd as usize) {
            Some(Some(o)) => Ok(*o),
            _ => Err(EBADF),
        }
    }
    pub fn ofd_ino(&self, fd: u64) -> Result<(u32, u32), i32> {
        let o = self.ofd(fd)?;
        Ok((o, self.ofds[o as usize].as_ref().unwrap().ino))
    }
    pub fn close(&mut self, fd: u64) -> Result<(), i32> {
        let o = self.ofd(fd)?;
        self.fds[fd as usize] = None;
        let of = self.ofds[o as usize].as_mut().unwrap();
        let ino = of.ino;
        of.refs -= 1;
        let gone = of.refs == 0;
        let pid = self.pid;
        if !self.ino(ino).locks.is_empty() || !self.ino(ino).flocks.is_empty() {
            let i = self.ino_mut(ino);
            // POSIX: closing any descriptor drops the process's locks on the file
            i.locks.retain(|l| l.owner != Owner::Proc(pid) && !(gone && l.owner == Owner::Ofd(o)));
            if gone {
                i.flocks.retain(|l| l.0 != o);
            }
        }
        if gone {
            self.ofds[o as usize] = None;
        }
        Ok(())
    }
    pub fn rand_bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| {
                self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (self.rng >> 33) as u8
            })
            .collect()
    }
}

pub fn flat_addr(ino: u32) -> u64 {
    FLAT_BASE + ((ino as u64) << 32)
}
pub fn blk_floor(e: E) -> E {
    bin(B::LShr, e, con(12, 64))
}
pub fn blk_ceil(e: E) -> E {
    blk_floor(add(e, con(BS - 1, 64)))
}
fn c64(v: u64) -> E {
    con(v, 64)
}

impl Ex {
    /// a live mapping follows its file
    fn remap(&mut self, s: &mut State, ino: u32) {
        let i = s.kern.ino(ino);
        if i.maps.is_empty() {
            return;
        }
        if let IK::Log { c, .. } = i.k {
            let maps = i.maps.clone();
            for (a, len, off) in maps {
                let sh = cf_shift(c, c64(off));
                s.mem.set_lazy(a, len, sh, a);
            }
        }
    }

    /// content [p, p+n) as a content function; n may be symbolic, p too
    pub fn snap(&mut self, s: &mut State, p: &V, n: E) -> R<Cf> {
        let max = nd(n).hi;
        match p {
            V::C(a) => {
                if max == 0 {
                    return Ok(cf_const(0));
                }
                let mut max = max;
                if as_c(n).is_none() {
                    if let Some((_, hi)) = self.object(s, *a) {
                        max = max.min(hi - a);
                    }
                }
                s.mem.snap(*a, max).ok_or_else(|| Stop::Violation(format!("invalid memory read at {:#x}+{}", a, max)))
            }
            _ => {
                let e = self.e(p, 64);
                let (lo, hi) = self.sym_object(s, e, n)?;
                let c = s.mem.snap(lo, hi - lo).ok_or_else(|| Stop::Violation("invalid memory read".into()))?;
                Ok(cf_shift(c, sub(e, c64(lo))))
            }
        }
    }

    /// puts n bytes of content c at p
    pub fn put(&mut self, s: &mut State, p: &V, n: E, c: Cf) -> R<()> {
        if as_c(n) == Some(0) {
            return Ok(());
        }
        let bad = || Stop::Violation("invalid memory write".into());
        match (p, as_c(n)) {
            (V::C(a), Some(k)) => {
                // eager for small concrete content
                if k <= 64 {
                    let mut v = vec![];
                    for i in 0..k {
                        v.push(cf_eval(c, c64(i)));
                    }
                    for (i, e) in v.into_iter().enumerate() {
                        match as_c(e) {
                            Some(b) => s.mem.store_c(a + i as u64, 1, b).ok_or_else(bad)?,
                            None => s.mem.store_e(a + i as u64, e).ok_or_else(bad)?,
                        }
                    }
                } else {
                    s.mem.set_lazy(*a, k, c, *a).ok_or_else(bad)?;
                }
            }
            (V::C(a), None) => {
                let mut max = nd(n).hi;
                if let Some((_, hi)) = self.object(s, *a) {
                    if max > hi - a {
                        if !self.decide(s, ule(n, c64(hi - a)))? {
                            return Err(Stop::Violation("copy past the end of an object".into()));
                        }
                        max = hi - a;
                    }
                }
                let prior = s.mem.snap(*a, max).ok_or_else(bad)?;
                let o = cf_over(prior, c64(0), n, c);
                s.mem.set_lazy(*a, max, o, *a).ok_or_else(bad)?;
            }
            _ => {
                let e = self.e(p, 64);
                let (lo, hi) = self.sym_object(s, e, n)?;
                let prior = s.mem.snap(lo, hi - lo).ok_or_else(bad)?;
                let o = cf_over(prior, sub(e, c64(lo)), n, c);
                s.mem.set_lazy(lo, hi - lo, o, lo).ok_or_else(bad)?;
            }
        }
        Ok(())
    }

    pub fn isize_of(&self, s: &State, ino: u32) -> E {
        match &s.kern.ino(ino).k {
            IK::Log { size, .. } => *size,
            IK::Flat(n) => c64(*n),
            IK::Dir(_) => c64(4096),
            _ => c64(0),
        }
    }

    pub fn file_read(&mut self, s: &mut State, ino: u32, buf: &V, n: E, off: E) -> R<E> {
        match s.kern.ino(ino).k.clone() {
            IK::Urandom => {
                let k = self.conc(s, n)?;
                let b = s.kern.rand_bytes(k as usize);
                let V::C(a) = buf else { return Err(Stop::Unsupported("urandom buffer".into())) };
                s.mem.write_bytes(*a, &b);
                Ok(c64(k))
            }
            IK::Flat(size) => {
                let k = self.conc(s, n)?;
                let off = self.conc(s, off)?;
                let V::C(a) = buf else { return Err(Stop::Unsupported("flat buffer".into())) };
                let k = if off >= size { 0 } else { k.min(size - off) };
                s.mem.copy(*a, flat_addr(ino) + off, k).ok_or_else(|| Stop::Violation("bad read buffer".into()))?;
                Ok(c64(k))
            }
            IK::Log { c, size, .. } => {
                if !self.decide(s, ult(off, size))? {
                    return Ok(c64(0));
                }
                let avail = sub(size, off);
                let k = if self.decide(s, ule(n, avail))? { n } else { avail };
                let sh = cf_shift(c, off);
                self.put(s, buf, k, sh)?;
                Ok(k)
            }
            IK::Null => Ok(c64(0)),
            IK::Dir(_) => Ok(c64(-(EISDIR as i64) as u64)),
        }
    }

    pub fn file_write(&mut self, s: &mut State, ino: u32, buf: &V, n: E, off: E) -> R<E> {
        match s.kern.ino(ino).k.clone() {
            IK::Flat(size) => {
                let k = self.conc(s, n)?;
                let off = self.conc(s, off)?;
                let V::C(a) = buf else { return Err(Stop::Unsupported("flat buffer".into())) };
                self.flat_extend(s, ino, size, off + k);
                s.mem.copy(flat_addr(ino) + off, *a, k).ok_or_else(|| Stop::Violation("bad write buffer".into()))?;
                Ok(n)
            }
            IK::Log { c, size, alloc, mut cands } => {
                if self.decide(s, eq(n, c64(0)))? {
                    return Ok(n);
                }
                let end = add(off, n);
                let grow = self.decide(s, ult(size, end))?;
                let top = self.snap(s, buf, n)?;
                let nsize = if grow { end } else { size };
                let (b0, b1) = (blk_floor(off), blk_ceil(end));
                let nc = cf_over(c, off, n, top);
                let na = cf_over(alloc, b0, sub(b1, b0), cf_const(1));
                for b in [b0, b1] {
                    if !cands.contains(&b) {
                        cands.push(b);
                    }
                }
                s.kern.ino_mut(ino).k = IK::Log { c: nc, size: nsize, alloc: na, cands };
                self.remap(s, ino);
                Ok(n)
            }
            IK::Null => Ok(n),
            _ => Ok(c64(-(EBADF as i64) as u64)),
        }
    }

    pub fn flat_extend(&mut self, s: &mut State, ino: u32, size: u64, end: u64) {
        if end > size {
            s.mem.map(flat_addr(ino), end);
            s.kern.ino_mut(ino).k = IK::Flat(end);
        }
    }

    pub fn file_truncate(&mut self, s: &mut State, ino: u32, len: E) -> R<()> {
        match s.kern.ino(ino).k.clone() {
            IK::Flat(size) => {
                let n = self.conc(s, len)?;
                if n < size {
                    s.mem.fill(flat_addr(ino) + n, 0, size - n);
                } else {
                    s.mem.map(flat_addr(ino), n);
                }
                s.kern.ino_mut(ino).k = IK::Flat(n);
            }
            IK::Log { c, size, alloc, mut cands } => {
                if self.decide(s, ult(len, size))? {
                    let nc = cf_over(c, len, c64(INF), cf_const(0));
                    let b = blk_ceil(len);
                    let na = cf_over(alloc, b, c64(INF), cf_const(0));
                    if !cands.contains(&b) {
                        cands.push(b);
                    }
                    s.kern.ino_mut(ino).k = IK::Log { c: nc, size: len, alloc: na, cands };
                } else {
                    s.kern.ino_mut(ino).k = IK::Log { c, size: len, alloc, cands };
                }
                self.remap(s, ino);
            }
            _ => {}
        }
        Ok(())
    }

    pub fn file_punch(&mut self, s: &mut State, ino: u32, off: E, len: E) -> R<()> {
        if let IK::Log { c, size, alloc, mut cands } = s.kern.ino(ino).k.clone() {
            let end = add(off, len);
            let past = self.decide(s, ule(size, end))?;
            let b0 = blk_ceil(off);
            let b1 = if past { blk_ceil(size) } else { blk_floor(end) };
            let some = self.decide(s, ult(b0, b1))?;
            let nc = cf_over(c, off, len, cf_const(0));
            let mut na = alloc;
            if some {
                na = cf_over(alloc, b0, sub(b1, b0), cf_const(0));
                for b in [b0, b1] {
                    if !cands.contains(&b) {
                        cands.push(b);
                    }
                }
            }
            s.kern.ino_mut(ino).k = IK::Log { c: nc, size, alloc: na, cands };
            self.remap(s, ino);
            return Ok(());
        }
        Err(Stop::Unsupported("punch of a flat file".into()))
    }

    /// SEEK_DATA / SEEK_HOLE; None: ENXIO
    pub fn file_seek(&mut self, s: &mut State, ino: u32, off: E, data: bool) -> R<Option<E>> {
        match s.kern.ino(ino).k.clone() {
            IK::Log { size, alloc, cands, .. } => {
                if !self.decide(s, ult(off, size))? {
                    return Ok(None);
                }
                let want = if data { 1 } else { 0 };
                let a0 = cf_eval(alloc, blk_floor(off));
                if self.decide(s, eq(a0, con(want, 8)))? {
                    return Ok(Some(off));
                }
                // candidates above off, below size, with the wanted allocation
                let ob = blk_floor(off);
                let mut live = vec![];
                for &b in &cands {
                    let at = mulc(b, BS);
                    let c = band(band(ult(ob, b), ult(at, size)), eq(cf_eval(alloc, b), con(want, 8)));
                    if self.decide(s, c)? {
                        live.push(b);
                    }
                }
                let mut best: Option<E> = None;
                for b in live {
                    best = Some(match best {
                        None => b,
                        Some(x) => {
                            if self.decide(s, ult(b, x))? {
                                b
                            } else {
                                x
                            }
                        }
                    });
                }
                match (best, data) {
                    (Some(b), _) => Ok(Some(mulc(b, BS))),
                    (None, true) => Ok(None),
                    (None, false) => Ok(Some(size)),
                }
            }
            IK::Flat(size) => {
                let o = self.conc(s, off)?;
                if o >= size {
                    return Ok(None);
                }
                Ok(Some(if data { c64(o) } else { c64(size) }))
            }
            _ => Ok(None),
        }
    }

    fn conflicts(&mut self, s: &mut State, ino: u32, owner: &Owner, st: E, en: E, excl: bool) -> R<bool> {
        let locks = s.kern.ino(ino).locks.clone();
        for l in &locks {
            if l.owner == *owner || !(excl || l.excl) {
                continue;
            }
            // POSIX and OFD locks conflict with each other as well
            let c = band(ult(l.s, en), ult(st, l.e));
            if self.decide(s, c)? {
                return Ok(true);
            }
        }
        Ok(false)
    }

    /// typ: 0 read, 1 write, 2 unlock. Ok(false): would block
    pub fn range_lock(&mut self, s: &mut State, ino: u32, owner: Owner, st: E, en: E, typ: u64) -> R<bool> {
        if typ != 2 && self.conflicts(s, ino, &owner, st, en, typ == 1)? {
            return Ok(false);
        }
        let locks = s.kern.ino(ino).locks.clone();
        let mut out = vec![];
        for l in locks {
            if l.owner != owner {
                out.push(l);
                continue;
            }
            let ov = band(ult(l.s, en), ult(st, l.e));
            if !self.decide(s, ov)? {
                out.push(l);
                continue;
            }
            if self.decide(s, ult(l.s, st))? {
                out.push(Lock { e: st, ..l.clone() });
            }
            if self.decide(s, ult(en, l.e))? {
                out.push(Lock { s: en, ..l.clone() });
            }
        }
        if typ != 2 && self.decide(s, ult(st, en))? {
            out.push(Lock { owner, s: st, e: en, excl: typ == 1 });
        }
        s.kern.ino_mut(ino).locks = out;
        self.wake_lock(s, ino);
        Ok(true)
    }

    pub fn wake_lock(&mut self, s: &mut State, ino: u32) {
        for t in s.th.iter_mut() {
            if let Th::Block(Wait::FileLock(i), _) = t.st {
                if i == ino {
                    t.st = Th::Run;
                }
            }
        }
    }

    pub fn flock(&mut self, s: &mut State, fd: u64, op: u64) -> R<i64> {
        let (o, ino) = match s.kern.ofd_ino(fd) {
            Ok(x) => x,
            Err(e) => return Ok(-(e as i64)),
        };
        let nb = op & 4 != 0;
        let i = s.kern.ino(ino);
        match op & 3 {
            0 => {}
            _ if op & 8 != 0 => {
                // unlock
                s.kern.ino_mut(ino).flocks.retain(|l| l.0 != o);
                self.wake_lock(s, ino);
                return Ok(0);
            }
            k => {
                let excl = k == 2;
                let busy = i.flocks.iter().any(|l| l.0 != o && (excl || l.1));
                if busy {
                    if nb {
                        return Ok(-(EAGAIN as i64));
                    }
                    return Err(Stop::Block(Wait::FileLock(ino), None));
                }
                let im = s.kern.ino_mut(ino);
                im.flocks.retain(|l| l.0 != o);
                im.flocks.push((o, excl));
                self.wake_lock(s, ino);
                return Ok(0);
            }
        }
        if op & 8 != 0 {
            s.kern.ino_mut(ino).flocks.retain(|l| l.0 != o);
            self.wake_lock(s, ino);
        }
        Ok(0)
    }

    pub fn close_fd(&mut self, s: &mut State, fd: u64) -> i64 {
        match s.kern.ofd_ino(fd) {
            Err(e) => -(e as i64),
            Ok((_, ino)) => {
                let _ = s.kern.close(fd);
                self.wake_lock(s, ino);
                0
            }
        }
    }

    pub fn unlink(&mut self, s: &mut State, base: u32, path: &[u8], rmdir: bool) -> i64 {
        let (d, name, i) = match s.kern.lookup(base, path) {
            Ok(x) => x,
            Err(e) => return -(e as i64),
        };
        let Some(i) = i else { return -(ENOENT as i64) };
        match &s.kern.ino(i).k {
            IK::Dir(m) => {
                if !rmdir {
                    return -(EISDIR as i64);
                }
                if !m.is_empty() {
                    return -(ENOTEMPTY as i64);
                }
            }
            _ => {
                if rmdir {
                    return -(ENOTDIR as i64);
                }
            }
        }
        if let IK::Dir(m) = &mut s.kern.ino_mut(d).k {
            m.remove(&name);
        }
        s.kern.ino_mut(i).nlink -= 1;
        0
    }

    pub fn open(&mut self, s: &mut State, base: u32, path: &[u8], flags: u64) -> i64 {
        let (d, name, i) = match s.kern.lookup(base, path) {
            Ok(x) => x,
            Err(e) => return -(e as i64),
        };
        let (creat, excl, truncf, append, dirf) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0, flags & 0o200000 != 0);
        let i = match i {
            Some(i) => {
                if creat && excl {
                    return -(EEXIST as i64);
                }
                let isdir = matches!(s.kern.ino(i).k, IK::Dir(_));
                if dirf && !isdir {
                    return -(ENOTDIR as i64);
                }
                if isdir && flags & 3 != 0 {
                    return -(EISDIR as i64);
                }
                i
            }
            None => {
                if !creat {
                    return -(ENOENT as i64);
                }
                let flat = name.starts_with(b"manifest.db");
                let z = c64(0);
                let k = if flat { IK::Flat(0) } else { IK::Log { c: cf_const(0), size: z, alloc: cf_const(0), cands: vec![] } };
                let i = s.kern.new_inode(k);
                if flat {
                    s.mem.map(flat_addr(i), 1);
                }
                s.kern.link(d, &name, i);
                i
            }
        };
        if truncf {
            match s.kern.ino(i).k.clone() {
                IK::Flat(n) => {
                    s.mem.fill(flat_addr(i), 0, n);
                    s.kern.ino_mut(i).k = IK::Flat(0);
                }
                IK::Log { .. } => s.kern.ino_mut(i).k = IK::Log { c: cf_const(0), size: c64(0), alloc: cf_const(0), cands: vec![] },
                _ => {}
            }
        }
        let o = s.kern.new_ofd(i, append, (flags & 3) as u32);
        s.kern.new_fd(o) as i64
    }

    /// Writes a struct stat.
    pub fn fill_stat(&mut self, s: &mut State, ino: u32, p: u64) {
        let size = self.isize_of(s, ino);
        let i = s.kern.ino(ino);
        let mode: u64 = match i.k {
            IK::Dir(_) => 0o40755,
            IK::Urandom | IK::Null => 0o20666,
            _ => 0o100644,
        };
        let nlink = i.nlink as u64;
        s.mem.fill(p, 0, 144);
        s.mem.store_c(p, 8, 1); // dev
        s.mem.store_c(p + 8, 8, ino as u64);
        s.mem.store_c(p + 16, 8, nlink);
        s.mem.store_c(p + 24, 4, mode);
        st_v(s, p + 48, size);
        s.mem.store_c(p + 56, 8, BS);
        st_v(s, p + 64, mulc(blk_ceil(size), 8));
        for o in [72, 88, 104] {
            s.mem.store_c(p + o, 8, 1_700_000_000);
        }
    }
    pub fn fill_statx(&mut self, s: &mut State, ino: u32, p: u64) {
        let size = self.isize_of(s, ino);
        let i = s.kern.ino(ino);
        let mode: u64 = match i.k {
            IK::Dir(_) => 0o40755,
            IK::Urandom | IK::Null => 0o20666,
            _ => 0o100644,
        };
        let nlink = i.nlink as u64;
        s.mem.fill(p, 0, 256);
        s.mem.store_c(p, 4, 0xfff);
        s.mem.store_c(p + 4, 4, BS);
        s.mem.store_c(p + 16, 4, nlink);
        s.mem.store_c(p + 28, 2, mode);
        s.mem.store_c(p + 32, 8, ino as u64);
        st_v(s, p + 40, size);
        st_v(s, p + 48, mulc(blk_ceil(size), 8));
        for o in [64, 80, 96, 112] {
            s.mem.store_c(p + o, 8, 1_700_000_000);
        }
        s.mem.store_c(p + 136, 4, 0);
        s.mem.store_c(p + 140, 4, 1);
    }
}

pub fn st_v(s: &mut State, p: u64, e: E) {
    match as_c(e) {
        Some(v) => s.mem.store_c(p, width(e) as u64 / 8, v),
        None => s.mem.store_e(p, e),
    };
}
