//! External functions: libc, compiler intrinsics and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::kern::*;
use crate::mem::*;
use crate::state::*;
use std::rc::Rc;

const ETIMEDOUT: i32 = 110;
const ENXIO: i32 = 6;
const AT_FDCWD: u64 = -100i64 as u64;

fn c64(v: u64) -> E {
    con(v, 64)
}
fn int(v: i64) -> R<V> {
    Ok(V::C(v as u64))
}
fn fail(s: &mut State, e: i32) -> R<V> {
    let a = s.th[s.cur].tls;
    s.mem.store_c(a, 4, e as u64);
    Ok(V::C(u64::MAX))
}
/// kernel-style result to libc-style
fn ret(s: &mut State, r: i64) -> R<V> {
    if r < 0 && r > -4096 {
        fail(s, -r as i32)
    } else {
        int(r)
    }
}
fn ret_e(s: &mut State, r: E) -> R<V> {
    match as_c(r) {
        Some(v) => ret(s, v as i64),
        None => Ok(V::S(r)),
    }
}
fn bad(m: &str) -> Stop {
    Stop::Violation(m.to_string())
}
fn uns<T>(m: &str) -> R<T> {
    Err(Stop::Unsupported(m.to_string()))
}

pub fn alloc(s: &mut State, n: u64, al: u64) -> u64 {
    let al = al.max(16);
    let a = (s.heap + al - 1) / al * al;
    // a gap between objects
    s.heap = a + n.max(1) + 16;
    s.mem.map(a, n.max(1));
    Rc::make_mut(&mut s.allocs).insert(a, n);
    a
}

impl Ex {
    fn size(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(n) => Ok(*n),
            V::S(e) if nd(*e).hi <= 1 << 21 => Ok(nd(*e).hi),
            _ => self.cv(s, v),
        }
    }
    fn path(&mut self, s: &mut State, v: &V) -> R<Vec<u8>> {
        let a = self.cv(s, v)?;
        self.cstr(s, a)
    }
    pub fn cstr(&mut self, s: &mut State, mut a: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        loop {
            let e = s.mem.byte_e(a).ok_or_else(|| bad("unterminated string"))?;
            let b = self.conc(s, e)? as u8;
            if b == 0 {
                return Ok(out);
            }
            out.push(b);
            a += 1;
        }
    }
    fn text(&mut self, s: &mut State, p: &V, n: &V) -> R<String> {
        let p = self.cv(s, p)?;
        let n = self.cv(s, n)?;
        let mut o = vec![];
        for i in 0..n {
            let e = s.mem.byte_e(p + i).ok_or_else(|| bad("bad text"))?;
            o.push(self.conc(s, e)? as u8);
        }
        Ok(String::from_utf8_lossy(&o).into_owned())
    }
    fn base(&mut self, s: &mut State, dirfd: u64) -> Result<u32, i32> {
        let d = dirfd as u32 as i32 as i64 as u64;
        if d == AT_FDCWD {
            return Ok(1);
        }
        Ok(s.kern.ofd_ino(d)?.1)
    }

    pub fn memcpy(&mut self, s: &mut State, d: &V, p: &V, n: &V) -> R<()> {
        if let (V::C(d), V::C(p), V::C(n)) = (d, p, n) {
            return s.mem.copy(*d, *p, *n).ok_or_else(|| Stop::Violation(format!("invalid memory copy {:#x} <- {:#x} + {}", d, p, n)));
        }
        let ne = self.e(n, 64);
        if nd(ne).hi <= 16 {
            let k = self.conc(s, ne)?;
            let (V::C(d), V::C(p)) = (d, p) else {
                let c = self.snap(s, p, c64(k))?;
                return self.put(s, d, c64(k), c);
            };
            return s.mem.copy(*d, *p, k).ok_or_else(|| bad("invalid memory copy"));
        }
        if self.decide(s, eq(ne, c64(0)))? {
            return Ok(());
        }
        let c = self.snap(s, p, ne)?;
        self.put(s, d, ne, c)
    }
    fn memset(&mut self, s: &mut State, d: &V, v: &V, n: &V) -> R<()> {
        let b = self.cv(s, v)? as u8;
        if let (V::C(d), V::C(n)) = (d, n) {
            return s.mem.fill(*d, b, *n).ok_or_else(|| Stop::Violation(format!("invalid memset {:#x} + {}", d, n)));
        }
        let ne = self.e(n, 64);
        self.put(s, d, ne, cf_const(b))
    }
    /// sign of the first difference as an 8-bit-like result; None for n = 0
    fn memcmp(&mut self, s: &mut State, a: &V, b: &V, n: &V, eq_only: bool) -> R<V> {
        let (a, b) = (self.cv(s, a)?, self.cv(s, b)?);
        let ne = self.e(n, 64);
        let max = self.size(s, n)?;
        let mut r: Option<Vec<(E, E)>> = Some(vec![]);
        for i in 0..max {
            let x = s.mem.byte_e(a + i).ok_or_else(|| bad("memcmp out of bounds"))?;
            let y = s.mem.byte_e(b + i).ok_or_else(|| bad("memcmp out of bounds"))?;
            if x == y {
                continue;
            }
            let inside = ult(c64(i), ne);
            if let (Some(xc), Some(yc), Some(1)) = (as_c(x), as_c(y), as_c(inside)) {
                // definitely different here
                let v = if xc < yc { 0xffff_ffff } else { 1 };
                let mut acc = con(v, 32);
                for (c, v) in r.take().unwrap().into_iter().rev() {
                    acc = ite(c, acc, v);
                }
                return Ok(sval(acc));
            }
            let same = bor(not(inside), eq(x, y));
            let v = if eq_only { con(1, 32) } else { ite(ult(x, y), con(0xffff_ffff, 32), con(1, 32)) };
            r.as_mut().unwrap().push((same, v));
        }
        let mut acc = con(0, 32);
        for (c, v) in r.unwrap().into_iter().rev() {
            acc = ite(c, acc, v);
        }
        Ok(sval(acc))
    }

    /// fault and crash decisions before a system call. Some(errno): the call fails with it.
    fn gate(&mut self, s: &mut State, mutates: bool) -> R<Option<i32>> {
        self.gate2(s, mutates, false, false)
    }
    /// (faulterr 1000: writes are cut short; faultmut 1: only what changes files fails, 2: also opening, reading, mapping)
    fn gate2(&mut self, s: &mut State, mutates: bool, write: bool, io: bool) -> R<Option<i32>> {
        if s.t().gate & 1 == 0 {
            if s.get("fault") > 0 && (s.get("faultmut") == 0 || mutates || io && s.get("faultmut") == 2) && (s.get("faulterr") != 1000 || write) {
                let v = s.next_var("fault", 0, 1, 64);
                let k = self.conc(s, v)?;
                s.bump("fault", v);
                s.t().gate |= 1;
                if k == 1 {
                    let left = s.get("fault") - 1;
                    s.ints.insert("fault", left);
                    let e = s.get("faulterr");
                    if e == 1000 {
                        s.t().gate |= 4;
                        return Ok(None);
                    }
                    return Ok(Some(if e == 0 { EIO } else { e as i32 }));
                }
            }
            if s.get("crash") > 0 && mutates && !s.saved.is_empty() {
                let v = s.next_var("crash", 0, 1, 64);
                let k = self.conc(s, v)?;
                s.bump("crash", v);
                s.t().gate |= 1;
                if k == 1 {
                    s.t().gate |= 2;
                }
            }
        }
        if s.t().gate & 2 != 0 && !mutates {
            return Err(Stop::Crash);
        }
        Ok(None)
    }
    /// in a crashing call that cannot be torn
    fn crash_now(&mut self, s: &mut State) -> R<()> {
        if s.t().gate & 2 != 0 {
            return Err(Stop::Crash);
        }
        Ok(())
    }

    fn do_write(&mut self, s: &mut State, fd: u64, buf: &V, n: E, at: Option<E>) -> R<V> {
        let (o, ino) = match s.kern.ofd_ino(fd) {
            Ok(x) => x,
            Err(e) => return fail(s, e),
        };
        let of = s.kern.ofds[o as usize].clone().unwrap();
        if of.acc == 0 {
            return fail(s, EBADF);
        }
        let off = match at {
            Some(p) => p,
            None if of.append => self.isize_of(s, ino),
            None => of.pos,
        };
        let mut n = n;
        let mut short = None;
        let crash = s.t().gate & 2 != 0;
        if crash {
            // a prefix of the bytes may have arrived
            let k = match as_c(n) {
                Some(0) | Some(1) => c64(0),
                _ if matches!(s.kern.ino(ino).k, IK::Flat(_)) => {
                    let v = s.next_var("torn", 0, 1, 64);
                    let t = self.conc(s, v)?;
                    let whole = self.conc(s, n)?;
                    c64(t * (whole / 2))
                }
                _ => {
                    let hi = nd(n).hi;
                    let v = s.next_var("torn", 0, hi - 1, 64);
                    if !self.decide(s, ult(v, n))? {
                        return Err(Stop::EndPath("cut".into()));
                    }
                    v
                }
            };
            n = k;
        } else if s.t().gate & 4 != 0 {
            // (cut short)
            n = match as_c(n) {
                Some(0) | Some(1) => n,
                _ if matches!(s.kern.ino(ino).k, IK::Flat(_)) => {
                    let whole = self.conc(s, n)?;
                    c64(whole / 2)
                }
                _ => {
                    let hi = nd(n).hi;
                    let v = s.next_var("short", 1, hi - 1, 64);
                    short = Some(v);
                    if !self.decide(s, ult(v, n))? {
                        return Err(Stop::EndPath("cut".into()));
                    }
                    v
                }
            };
        }
        let r = self.file_write(s, ino, buf, n, off)?;
        if crash {
            return Err(Stop::Crash);
        }
        if let Some(v) = short {
            s.bump("short", v);
        }
        if at.is_none() {
            s.kern.ofds[o as usize].as_mut().unwrap().pos = add(off, r);
        }
        ret_e(s, r)
    }

    fn do_read(&mut self, s: &mut State, fd: u64, buf: &V, n: E, at: Option<E>) -> R<V> {
        let (o, ino) = match s.kern.ofd_ino(fd) {
            Ok(x) => x,
            Err(e) => return fail(s, e),
        };
        let of = s.kern.ofds[o as usize].clone().unwrap();
        let off = at.unwrap_or(of.pos);
        let r = self.file_read(s, ino, buf, n, off)?;
        if at.is_none() && as_c(r).map_or(true, |x| (x as i64) >= 0) {
            s.kern.ofds[o as usize].as_mut().unwrap().pos = add(off, r);
        }
        ret_e(s, r)
    }

    fn do_fcntl(&mut self, s: &mut State, a: &[V]) -> R<V> {
        let fd = self.cv(s, &a[0])?;
        let cmd = self.cv(s, &a[1])? as u32;
        let (o, ino) = match s.kern.ofd_ino(fd) {
            Ok(x) => x,
            Err(e) => return fail(s, e),
        };
        match cmd {
            0 | 1030 => {
                let n = s.kern.new_fd(o);
                int(n as i64)
            }
            1 => int(1),
            2 => int(0),
            3 => {
                let of = s.kern.ofds[o as usize].as_ref().unwrap();
                int(of.acc as i64 | if of.append { 0o2000 } else { 0 })
            }
            4 => int(0),
            5 | 6 | 7 | 36 | 37 | 38 => {
                if let Some(e) = self.gate(s, false)? {
                    return fail(s, e);
                }
                let p = self.cv(s, &a[2])?;
                let lv = self.load_v(s, &V::C(p), 16)?;
                let ty = self.cv(s, &lv)?;
                let wh = self.load_v(s, &V::C(p + 2), 16)?;
                if wh != V::C(0) {
                    return uns("lock whence");
                }
                let st = self.load_v(s, &V::C(p + 8), 64)?;
                let ln = self.load_v(s, &V::C(p + 16), 64)?;
                let (st, ln) = (self.e(&st, 64), self.e(&ln, 64));
                let en = if self.decide(s, eq(ln, c64(0)))? {
                    c64(INF)
                } else {
                    // (a negative length would lock backwards)
                    if self.decide(s, slt(ln, c64(0)))? || self.decide(s, slt(st, c64(0)))? {
                        return fail(s, EINVAL);
                    }
                    add(st, ln)
                };
                let owner = if cmd >= 36 { Owner::Ofd(o) } else { Owner::Proc(s.kern.pid) };
                if cmd == 5 || cmd == 36 {
                    let locks = s.kern.ino(ino).locks.clone();
                    for l in locks {
                        if l.owner == owner || !(ty == 1 || l.excl) {
                            continue;
                        }
                        if self.decide(s, band(ult(l.s, en), ult(st, l.e)))? {
                            s.mem.store_c(p, 2, l.excl as u64);
                            st_v(s, p + 8, l.s);
                            let inf = as_c(l.e) == Some(INF);
                            st_v(s, p + 16, if inf { c64(0) } else { sub(l.e, l.s) });
                            s.mem.store_c(p + 24, 4, if let Owner::Proc(q) = l.owner { q as u64 } else { u64::MAX });
                            return int(0);
                        }
                    }
                    s.mem.store_c(p, 2, 2);
                    return int(0);
                }
                let of = s.kern.ofds[o as usize].as_ref().unwrap();
                if ty == 0 && of.acc == 1 || ty == 1 && of.acc == 0 {
                    return fail(s, EBADF);
                }
                if self.range_lock(s, ino, owner, st, en, ty)? {
                    int(0)
                } else if cmd == 7 || cmd == 38 {
                    Err(Stop::Block(Wait::FileLock(ino), None))
                } else {
                    fail(s, EAGAIN)
                }
            }
            _ => fail(s, EINVAL),
        }
    }

    fn do_stat(&mut self, s: &mut State, base: u32, path: &[u8], buf: u64) -> R<V> {
        match s.kern.lookup(base, path) {
            Ok((_, _, Some(i))) => {
                self.fill_stat(s, i, buf);
                int(0)
            }
            Ok(_) => fail(s, ENOENT),
            Err(e) => fail(s, e),
        }
    }
    fn do_statx(&mut self, s: &mut State, a: &[V]) -> R<V> {
        let fd = self.cv(s, &a[0])?;
        let pp = self.cv(s, &a[1])?;
        let path = if pp == 0 { vec![] } else { self.cstr(s, pp)? };
        let flags = self.cv(s, &a[2])?;
        let buf = self.cv(s, &a[4])?;
        if pp == 0 && buf == 0 {
            return fail(s, 14);
        }
        if let Some(e) = self.gate(s, false)? {
            return fail(s, e);
        }
        if path.is_empty() && flags & 0x1000 != 0 {
            let b = match self.base(s, fd) {
                Ok(b) => b,
                Err(e) => return fail(s, e),
            };
            self.fill_statx(s, b, buf);
            return int(0);
        }
        let b = match self.base(s, fd) {
            Ok(b) => b,
            Err(e) => return fail(s, e),
        };
        match s.kern.lookup(b, &path) {
            Ok((_, _, Some(i))) => {
                self.fill_statx(s, i, buf);
                int(0)
            }
            Ok(_) => fail(s, ENOENT),
            Err(e) => fail(s, e),
        }
    }
    fn do_open(&mut self, s: &mut State, dirfd: u64, p: &V, fl: &V) -> R<V> {
        let path = self.path(s, p)?;
        let flags = self.cv(s, fl)? & 0xffff_ffff;
        let base = match self.base(s, dirfd) {
            Ok(b) => b,
            Err(e) => return fail(s, e),
        };
        let creates = flags & 0o1100 != 0;
        if let Some(e) = self.gate2(s, creates, false, true)? {
            return fail(s, e);
        }
        self.crash_now(s)?;
        let r = self.open(s, base, &path, flags);
        ret(s, r)
    }
    fn do_unlink(&mut self, s: &mut State, base: u32, path: &[u8], rmdir: bool) -> R<V> {
        if let Some(e) = self.gate(s, true)? {
            return fail(s, e);
        }
        self.crash_now(s)?;
        let r = self.unlink(s, base, path, rmdir);
        ret(s, r)
    }
    fn do_lseek(&mut self, s: &mut State, a: &[V]) -> R<V> {
        let fd = self.cv(s, &a[0])?;
        let off = self.e(&a[1], 64);
        let wh = self.cv(s, &a[2])?;
        if let Some(e) = self.gate(s, false)? {
            return fail(s, e);
        }
        let (o, ino) = match s.kern.ofd_ino(fd) {
            Ok(x) => x,
            Err(e) => return fail(s, e),
        };
        let pos = s.kern.ofds[o as usize].as_ref().unwrap().pos;
        let r = match wh {
            0 => off,
            1 => add(pos, off),
            2 => add(self.isize_of(s, ino), off),
            3 | 4 => match self.file_seek(s, ino, off, wh == 3)? {
                Some(x) => x,
                None => return fail(s, ENXIO),
            },
            _ => return fail(s, EINVAL),
        };
        if self.decide(s, slt(r, c64(0)))? {
            return fail(s, EINVAL);
        }
        s.kern.ofds[o as usize].as_mut().unwrap().pos = r;
        ret_e(s, r)
    }
    fn do_mmap(&mut self, s: &mut State, a: &[V]) -> R<V> {
        let flags = self.cv(s, &a[3])?;
        let fd = self.cv(s, &a[4])? as u32 as i32;
        if flags & 0x20 != 0 || fd < 0 {
            let n = self.cv(s, &a[1])?;
            let n = (n + 4095) / 4096 * 4096;
            let p = s.mmap_top;
            s.mmap_top += n + 8192;
            s.mem.map(p, n);
            Rc::make_mut(&mut s.allocs).insert(p, n);
            return int(p as i64);
        }
        let (_, ino) = match s.kern.ofd_ino(fd as u64) {
            Ok(x) => x,
            Err(e) => return fail(s, e),
        };
        if let Some(e) = self.gate2(s, false, false, true)? {
            return fail(s, e);
        }
        let off = self.cv(s, &a[5])?;
        match s.kern.ino(ino).k.clone() {
            IK::Flat(_) => {
                let n = self.cv(s, &a[1])?;
                let p = flat_addr(ino) + off;
                s.mem.map(p, n);
                int(p as i64)
            }
            IK::Log { c, .. } => {
                let ne = self.e(&a[1], 64);
                if self.decide(s, eq(ne, c64(0)))? {
                    return fail(s, EINVAL);
                }
                let n = nd(ne).hi;
                if n > 1 << 24 {
                    return uns("mapping too large");
                }
                let p = s.mmap_top;
                s.mmap_top += (n + 4095) / 4096 * 4096 + 8192;
                s.mem.map(p, n);
                Rc::make_mut(&mut s.allocs).insert(p, n);
                s.mem.set_lazy(p, n, cf_shift(c, c64(off)), p);
                s.kern.ino_mut(ino).maps.push((p, n, off));
                int(p as i64)
            }
            _ => fail(s, 19),
        }
    }
    fn do_munmap(&mut self, s: &mut State, a: &[V]) -> R<V> {
        let p = self.cv(s, &a[0])?;
        if p >= FLAT_BASE {
            return int(0);
        }
        for i in 1..s.kern.inodes.len() as u32 {
            if s.kern.inodes[i as usize].as_ref().map_or(false, |x| x.maps.iter().any(|m| m.0 == p)) {
                s.kern.ino_mut(i).maps.retain(|m| m.0 != p);
            }
        }
        if let Some(n) = Rc::make_mut(&mut s.allocs).remove(&p) {
            s.mem.unmap(p, n);
        }
        int(0)
    }
    fn futex(&mut self, s: &mut State, a: &[V]) -> R<V> {
        let addr = self.cv(s, &a[0])?;
        let op = self.cv(s, &a[1])? & 0x7f;
        match op {
            0 | 9 => {
                if let Some(w) = s.t().wake {
                    return if w == 0 { int(0) } else { fail(s, ETIMEDOUT) };
                }
                let want = self.cv(s, &a[2])? & 0xffff_ffff;
                let cur = self.load_v(s, &V::C(addr), 32)?;
                if self.cv(s, &cur)? != want {
                    return fail(s, EAGAIN);
                }
                let tp = self.cv(s, &a[3])?;
                let mut until = None;
                if tp != 0 {
                    let (x, y) = (self.load_v(s, &V::C(tp), 64)?, self.load_v(s, &V::C(tp + 8), 64)?);
                    let t = self.cv(s, &x)?.saturating_mul(1_000_000_000).saturating_add(self.cv(s, &y)?);
                    until = Some(if op == 9 { t } else { s.kern.clock.saturating_add(t) });
                }
                Err(Stop::Block(Wait::Futex(addr), until))
            }
            1 | 10 => {
                let n = self.cv(s, &a[2])? & 0xffff_ffff;
                let mut k = 0;
                let pid = s.kern.pid;
                for t in s.th.iter_mut() {
                    if k < n && t.pid == pid {
                        if let Th::Block(Wait::Futex(x), _) = t.st {
                            if x == addr {
                                t.st = Th::Run;
                                t.wake = Some(0);
                                k += 1;
                            }
                        }
                    }
                }
                int(k as i64)
            }
            _ => uns("futex operation"),
        }
    }
    fn sleep(&mut self, s: &mut State, until: u64) -> R<V> {
        if s.t().wake.is_some() {
            return int(0);
        }
        Err(Stop::Block(Wait::Sleep, Some(until)))
    }

    /// equality of bytes where opaque ones are equal exactly when they are the same byte of the
    /// same value
    fn eqp(&mut self, x: E, y: E) -> E {
        if x == y {
            return tru();
        }
        if let N::Ite(c, a, b) = nd(x).n {
            let (p, q) = (self.eqp(a, y), self.eqp(b, y));
            return ite(c, p, q);
        }
        if let N::Ite(c, a, b) = nd(y).n {
            let (p, q) = (self.eqp(x, a), self.eqp(x, b));
            return ite(c, p, q);
        }
        match (&nd(x).n, &nd(y).n) {
            (N::Pat(t, i), N::Pat(u, j)) => {
                if t == u {
                    eq(*i, *j)
                } else {
                    fls()
                }
            }
            (N::Pat(..), _) | (_, N::Pat(..)) => fls(),
            _ => eq(x, y),
        }
    }

    fn assert(&mut self, s: &mut State, c: E, msg: &str) -> R<()> {
        let c = self.simp(s, c);
        if has_pat(c) {
            return uns(&format!("assertion over opaque data: {} ({})", msg, show(c)));
        }
        if self.decide(s, c)? {
            Ok(())
        } else {
            Err(Stop::Violation(msg.to_string()))
        }
    }

    /// every byte of [p, p+n) equals byte idx.. of the value with this tag (tag 0: zeros)
    fn check_pat(&mut self, s: &mut State, p: &V, n: E, tag: u64, idx: E, msg: &str) -> R<()> {
        if self.decide(s, eq(n, c64(0)))? {
            return Ok(());
        }
        let n = self.simp(s, n);
        let idx = self.simp(s, idx);
        let max = nd(n).hi;
        let c = self.snap(s, p, n)?;
        let j = s.next_var("j", 0, max - 1, 64);
        let b = cf_eval(c, j);
        if let Some(m) = cfs().err.take() {
            return uns(&m);
        }
        let b = self.simp(s, b);
        let want = if tag == 0 { con(0, 8) } else { pat(tag, add(idx, j)) };
        let good = bor(not(ult(j, n)), self.eqp(b, want));
        self.assert(s, good, msg)?;
        s.bump("j", j);
        Ok(())
    }

    fn dirent(&mut self, s: &mut State, dp: u64) -> R<V> {
        let Some((fd, ents, pos)) = s.kern.dirs.get(&dp).cloned() else { return Err(bad("readdir of a closed directory")) };
        if pos >= ents.len() {
            return int(0);
        }
        let (name, ino) = ents[pos].clone();
        let ty = match s.kern.inodes.get(ino as usize).and_then(|x| x.as_ref()).map(|x| &x.k) {
            Some(IK::Dir(_)) => 4,
            Some(IK::Urandom) | Some(IK::Null) => 2,
            _ => 8,
        };
        let b = dp + 16;
        s.mem.fill(b, 0, 280);
        s.mem.store_c(b, 8, ino as u64);
        s.mem.store_c(b + 8, 8, pos as u64 + 1);
        s.mem.store_c(b + 16, 2, 280);
        s.mem.store_c(b + 18, 1, ty);
        s.mem.write_bytes(b + 19, &name);
        Rc::make_mut(&mut s.kern.dirs).insert(dp, (fd, ents, pos + 1));
        int(b as i64)
    }
    fn opendir(&mut self, s: &mut State, fd: u64) -> R<V> {
        let (_, ino) = match s.kern.ofd_ino(fd) {
            Ok(x) => x,
            Err(e) => {
                let _ = fail(s, e);
                return int(0);
            }
        };
        let IK::Dir(m) = &s.kern.ino(ino).k else {
            let _ = fail(s, ENOTDIR);
            return int(0);
        };
        let mut ents = vec![(b".".to_vec(), ino), (b"..".to_vec(), 1)];
        ents.extend(m.iter().map(|(k, v)| (k.clone(), *v)));
        let dp = alloc(s, 512, 16);
        Rc::make_mut(&mut s.kern.dirs).insert(dp, (fd as u32, ents, 0));
        int(dp as i64)
    }

    /// the part of stderr worth reporting
    pub fn stderr_tail(s: &State) -> String {
        let t = String::from_utf8_lossy(&s.stderr).into_owned();
        let mut t = t.replace("note: run with `RUST_BACKTRACE=1` environment variable to display a backtrace", "");
        while t.contains("\n\n") {
            t = t.replace("\n\n", "\n");
        }
        let k = t.rfind("panicked at").unwrap_or(0);
        t[k..].trim().replace('\n', " ").chars().take(400).collect()
    }
}

fn vmap(v: &[V], f: &mut dyn FnMut(&[V]) -> R<V>) -> R<V> {
    if let Some(V::A(a)) = v.first() {
        let n = a.len();
        let mut o = vec![];
        for i in 0..n {
            let row: Vec<V> = v
                .iter()
                .map(|x| match x {
                    V::A(x) => x[i].clone(),
                    x => x.clone(),
                })
                .collect();
            o.push(f(&row)?);
        }
        return Ok(V::A(Rc::new(o)));
    }
    f(v)
}

fn suffix_w(n: &str) -> u32 {
    let t = n.rsplit('.').next().unwrap();
    let t = t.rsplit(|c: char| c == 'i').next().unwrap();
    t.parse().unwrap_or(64)
}

/// pure integer intrinsics
fn arith(x: &mut Ex, s: &mut State, a: &[V], c: &CallCtx) -> R<V> {
    let w = suffix_w(c.name);
    let op = c.name[5..].split('.').next().unwrap().to_string();
    let full = c.name;
    vmap(a, &mut |a: &[V]| {
        if w > 64 {
            let u = wide(&a[0])?;
            return match op.as_str() {
                "abs" => {
                    let sh = 128 - w;
                    let v = ((u << sh) as i128) >> sh;
                    Ok(V::W(Rc::new(v.unsigned_abs())))
                }
                _ => uns(full),
            };
        }
        let p = x.e(&a[0], w);
        let q = |x: &Ex| x.e(&a[1], w);
        Ok(match op.as_str() {
            "umin" | "umax" | "smin" | "smax" => {
                let q = q(x);
                let lt = if op.starts_with('u') { ult(p, q) } else { slt(p, q) };
                let min = op.ends_with("min");
                if as_c(lt).is_none() && !has_pat(lt) && w >= 32 {
                    let b = x.decide(s, lt)?;
                    sval(if b == min { p } else { q })
                } else {
                    sval(if min { ite(lt, p, q) } else { ite(lt, q, p) })
                }
            }
            "abs" => {
                let n = slt(p, con(0, w));
                sval(ite(n, sub(con(0, w), p), p))
            }
            "ctlz" | "cttz" | "ctpop" | "bitreverse" => {
                let v = x.conc(s, p)?;
                V::C(match op.as_str() {
                    "ctlz" => {
                        if v == 0 {
                            w as u64
                        } else {
                            (v.leading_zeros() - (64 - w)) as u64
                        }
                    }
                    "cttz" => {
                        if v == 0 {
                            w as u64
                        } else {
                            v.trailing_zeros() as u64
                        }
                    }
                    "ctpop" => v.count_ones() as u64,
                    _ => v.reverse_bits() >> (64 - w),
                })
            }
            "bswap" => {
                let mut b: Vec<E> = (0..w / 8).map(|i| extract(p, 8 * i, 8)).collect();
                b.reverse();
                sval(concat_bytes(&b))
            }
            "fshl" | "fshr" => {
                let k = x.cv(s, &a[2])? % w as u64;
                let q = x.e(&a[1], w);
                let k = if op == "fshl" { k } else { (w as u64 - k) % w as u64 };
                if k == 0 {
                    sval(if op == "fshl" { p } else { q })
                } else {
                    sval(bin(B::Or, bin(B::Shl, p, con(k, w)), bin(B::LShr, q, con(w as u64 - k, w))))
                }
            }
            "usub" => {
                let q = q(x);
                let lt = ult(p, q);
                sval(ite(lt, con(0, w), sub(p, q)))
            }
            "uadd" => {
                let q = q(x);
                let r = add(p, q);
                sval(ite(ult(r, p), con(mask(w), w), r))
            }
            "ucmp" => {
                let q = q(x);
                sval(ite(ult(p, q), con(255, 8), ite(eq(p, q), con(0, 8), con(1, 8))))
            }
            "scmp" => {
                let q = q(x);
                sval(ite(slt(p, q), con(255, 8), ite(eq(p, q), con(0, 8), con(1, 8))))
            }
            _ => return uns(full),
        })
    })
}
fn overflow(x: &mut Ex, s: &mut State, a: &[V], c: &CallCtx) -> R<V> {
    let w = suffix_w(c.name);
    let op = &c.name[5..9];
    let (p, q) = (x.e(&a[0], w), x.e(&a[1], w));
    if let (Some(u), Some(v)) = (as_c(p), as_c(q)) {
        let (r, o) = match op {
            "uadd" => (u as u128 as i128) + v as i128,
            "usub" => u as i128 - v as i128,
            "umul" => (u as u128 * v as u128) as i128,
            "sadd" => sx(u, w) as i128 + sx(v, w) as i128,
            "ssub" => sx(u, w) as i128 - sx(v, w) as i128,
            _ => sx(u, w) as i128 * sx(v, w) as i128,
        }
        .pipe(|r| {
            let o = if op.starts_with('u') {
                (r as u128) > mask(w) as u128
            } else {
                r != sx(r as u64 & mask(w), w) as i128
            };
            (r as u64 & mask(w), o)
        });
        return Ok(V::A(Rc::new(vec![V::C(r), V::C(o as u64)])));
    }
    let (r, o) = match op {
        "uadd" => {
            let r = add(p, q);
            (r, ult(r, p))
        }
        "usub" => (sub(p, q), ult(p, q)),
        "sadd" => {
            let r = add(p, q);
            let neg = slt(q, con(0, w));
            (r, ite(neg, not(slt(r, p)), slt(r, p)))
        }
        "ssub" => {
            let r = sub(p, q);
            let pos = slt(con(0, w), q);
            (r, ite(pos, not(slt(r, p)), slt(p, r)))
        }
        "umul" => {
            let (e, k) = match (as_c(p), as_c(q)) {
                (_, Some(k)) => (p, k),
                (Some(k), _) => (q, k),
                _ => {
                    let k = x.conc(s, q)?;
                    (p, k)
                }
            };
            if k == 0 {
                (con(0, w), fls())
            } else {
                (mulc(e, k), ult(con(mask(w) / k, w), e))
            }
        }
        _ => {
            let (e, k) = match (as_c(p), as_c(q)) {
                (_, Some(k)) => (p, k),
                (Some(k), _) => (q, k),
                _ => {
                    let k = x.conc(s, q)?;
                    (p, k)
                }
            };
            let ks = sx(k, w);
            if ks <= 0 {
                let v = x.conc(s, e)?;
                let r = sx(v, w) as i128 * ks as i128;
                return Ok(V::A(Rc::new(vec![V::C(r as u64 & mask(w)), V::C((r != sx(r as u64 & mask(w), w) as i128) as u64)])));
            }
            let max = (mask(w) >> 1) / ks as u64;
            (mulc(e, k), bor(slt(con(max, w), e), slt(e, con((max as i64).wrapping_neg() as u64 & mask(w), w))))
        }
    };
    Ok(V::A(Rc::new(vec![sval(r), sval(o)])))
}
trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl<T> Pipe for T {}

fn zero(_: &mut Ex, _: &mut State, _: &[V], _: &CallCtx) -> R<V> {
    Ok(V::C(0))
}
fn minus1(_: &mut Ex, s: &mut State, _: &[V], _: &CallCtx) -> R<V> {
    fail(s, ENOSYS)
}
fn f_memcmp(x: &mut Ex, s: &mut State, a: &[V], c: &CallCtx) -> R<V> {
    x.memcmp(s, &a[0], &a[1], &a[2], c.name == "bcmp")
}
fn f_fcntl(x: &mut Ex, s: &mut State, a: &[V], _: &CallCtx) -> R<V> {
    x.do_fcntl(s, a)
}
fn f_open(x: &mut Ex, s: &mut State, a: &[V], _: &CallCtx) -> R<V> {
    x.do_open(s, AT_FDCWD, &a[0], &a[1])
}
fn f_stat(x: &mut Ex, s: &mut State, a: &[V], _: &CallCtx) -> R<V> {
    let p = x.path(s, &a[0])?;
    let b = x.cv(s, &a[1])?;
    if let Some(e) = x.gate(s, false)? {
        return fail(s, e);
    }
    x.do_stat(s, 1, &p, b)
}
fn f_lseek(x: &mut Ex, s: &mut State, a: &[V], _: &CallCtx) -> R<V> {
    x.do_lseek(s, a)
}
fn f_strcmp(x: &mut Ex, s: &mut State, a: &[V], c: &CallCtx) -> R<V> {
    let (p, q) = (x.cv(s, &a[0])?, x.cv(s, &a[1])?);
    let n = if c.name == "strncmp" { x.cv(s, &a[2])? } else { u64::MAX };
    let mut i = 0;
    while i < n {
        let u = s.mem.byte_e(p + i).ok_or_else(|| bad("strcmp"))?;
        let v = s.mem.byte_e(q + i).ok_or_else(|| bad("strcmp"))?;
        let (u, v) = (x.conc(s, u)?, x.conc(s, v)?);
        if u != v {
            return int(u as i64 - v as i64);
        }
        if u == 0 {
            break;
        }
        i += 1;
    }
    int(0)
}
fn f_span(x: &mut Ex, s: &mut State, a: &[V], c: &CallCtx) -> R<V> {
    let p = x.path(s, &a[0])?;
    let q = x.path(s, &a[1])?;
    let acc = c.name == "strspn";
    int(p.iter().take_while(|b| q.contains(b) == acc).count() as i64)
}
fn f_now(_: &mut Ex, s: &mut State, p: u64, us: bool) {
    let t = s.kern.clock;
    s.mem.store_c(p, 8, t / 1_000_000_000);
    let sub = t % 1_000_000_000;
    s.mem.store_c(p + 8, 8, if us { sub / 1000 } else { sub });
}

pub fn lookup(name: &str) -> Option<ExtFn> {
    if let Some(r) = name.strip_prefix("llvm.") {
        let h = r.split('.').next().unwrap();
        return Some(match h {
            "lifetime" | "assume" | "experimental" if !r.starts_with("experimental.cttz") => |_, _, _, _| Ok(V::C(0)),
            "experimental" => |x, s, a, _| {
                let V::A(v) = &a[0] else { return uns("cttz.elts") };
                for (i, b) in v.clone().iter().enumerate() {
                    if x.cv(s, b)? == 1 {
                        return int(i as i64);
                    }
                }
                int(v.len() as i64)
            },
            "va_end" | "prefetch" => zero,
            "x86" => zero,
            "va_start" => |x, s, a, _| {
                let p = x.cv(s, &a[0])?;
                let fr = s.t().frames.last_mut().unwrap();
                let va = fr.va.clone();
                fr.sp -= (va.len() as u64 * 8 + 31) & !15;
                let b = fr.sp;
                for (i, (_, v)) in va.iter().enumerate() {
                    let v = match v {
                        V::S(e) => sval(zext(*e, 64)),
                        v => v.clone(),
                    };
                    x.store_v(s, &V::C(b + 8 * i as u64), &v, 64)?;
                }
                s.mem.store_c(p, 4, 48);
                s.mem.store_c(p + 4, 4, 304);
                s.mem.store_c(p + 8, 8, b);
                s.mem.store_c(p + 16, 8, 0);
                int(0)
            },
            "va_copy" => |x, s, a, _| {
                let (d, p) = (x.cv(s, &a[0])?, x.cv(s, &a[1])?);
                s.mem.copy(d, p, 24);
                int(0)
            },
            "memcpy" | "memmove" => |x, s, a, _| {
                x.memcpy(s, &a[0], &a[1], &a[2])?;
                int(0)
            },
            "memset" => |x, s, a, _| {
                x.memset(s, &a[0], &a[1], &a[2])?;
                int(0)
            },
            "trap" => |_, _, _, _| Err(bad("trap")),
            "is" => zero,
            "expect" => |_, _, a, _| Ok(a[0].clone()),
            "load" => |x, s, a, _| {
                let (p, o) = (x.cv(s, &a[0])?, x.cv(s, &a[1])?);
                let v = x.load_v(s, &V::C(p.wrapping_add(o)), 32)?;
                let v = x.cv(s, &v)?;
                int(p.wrapping_add(sx(v, 32) as u64) as i64)
            },
            "threadlocal" => |x, s, a, _| {
                let o = x.cv(s, &a[0])?;
                int((s.t().tls + o) as i64)
            },
            "fabs" | "fmuladd" | "floor" | "ceil" | "trunc" => |x, s, a, c| {
                let f = f64::from_bits(x.cv(s, &a[0])?);
                let r = match &c.name[5..8] {
                    "fab" => f.abs(),
                    "flo" => f.floor(),
                    "cei" => f.ceil(),
                    "tru" => f.trunc(),
                    _ => f * f64::from_bits(x.cv(s, &a[1])?) + f64::from_bits(x.cv(s, &a[2])?),
                };
                int(r.to_bits() as i64)
            },
            "vector" => |x, _, a, c| {
                let V::A(v) = &a[0] else { return uns("reduce") };
                let w = suffix_w(c.name);
                let k = c.name.split('.').nth(3).unwrap();
                let mut acc = x.e(&v[0], w);
                for e in &v[1..] {
                    let e = x.e(e, w);
                    acc = match k {
                        "add" => add(acc, e),
                        "or" => bin(B::Or, acc, e),
                        "and" => bin(B::And, acc, e),
                        "xor" => bin(B::Xor, acc, e),
                        "umax" => ite(ult(acc, e), e, acc),
                        "umin" => ite(ult(acc, e), acc, e),
                        "smax" => ite(slt(acc, e), e, acc),
                        "smin" => ite(slt(acc, e), acc, e),
                        _ => return uns("reduce"),
                    };
                }
                Ok(sval(acc))
            },
            _ if r.contains(".with.overflow.") => overflow,
            _ => arith,
        });
    }
    Some(match name {
        // ---- harness interface
        "sym_u64" => |x, s, a, _| {
            let n = x.text(s, &a[0], &a[1])?;
            let (lo, hi) = (x.cv(s, &a[2])?, x.cv(s, &a[3])?);
            let v = s.next_var(&n, lo, hi, 64);
            s.bump(&n, v);
            if lo == hi {
                return Ok(V::C(lo));
            }
            Ok(V::S(v))
        },
        "sym_assume" => |x, s, a, _| {
            let c = x.e(&a[0], 1);
            let c = x.simp(s, c);
            match as_c(c) {
                Some(1) => int(0),
                Some(_) => Err(Stop::EndPath("cut".into())),
                None => {
                    let k = match nd(c).n {
                        N::Not(y) => s.known.get(&y).map(|b| !*b),
                        _ => s.known.get(&c).copied(),
                    };
                    match k {
                        Some(true) => int(0),
                        Some(false) => Err(Stop::EndPath("cut".into())),
                        None => Err(Stop::Assume(c)),
                    }
                }
            }
        },
        "sym_assert" => |x, s, a, _| {
            let m = x.text(s, &a[1], &a[2])?;
            let c = x.e(&a[0], 1);
            x.assert(s, c, &m)?;
            int(0)
        },
        "sym_check_pat" => |x, s, a, _| {
            // (ptr, len, tag, idx, msg, mlen)
            let m = x.text(s, &a[4], &a[5])?;
            let n = x.e(&a[1], 64);
            let tag = x.cv(s, &a[2])?;
            let idx = x.e(&a[3], 64);
            x.check_pat(s, &a[0], n, tag, idx, &m)?;
            int(0)
        },
        "sym_reach" => |x, s, a, _| {
            let m = x.text(s, &a[0], &a[1])?;
            s.evs.push(Ev::Reach(m));
            int(0)
        },
        "sym_observe" => |x, s, a, _| {
            let m = x.text(s, &a[0], &a[1])?;
            s.evs.push(Ev::Obs(m, a[2].clone()));
            int(0)
        },
        "sym_concretize" => |x, s, a, _| {
            let v = x.cv(s, &a[0])?;
            int(v as i64)
        },
        "sym_fill" => |x, s, a, _| {
            let tag = x.cv(s, &a[2])?;
            let n = x.e(&a[1], 64);
            let c = cf(CfN::Pat(tag));
            if let V::C(p) = &a[0] {
                let max = nd(n).hi;
                s.mem.set_lazy(*p, max, c, *p).ok_or_else(|| bad("sym_fill"))?;
                return int(0);
            }
            x.put(s, &a[0], n, c)?;
            int(0)
        },
        "sym_pat" => |x, s, a, _| {
            let tag = x.cv(s, &a[0])?;
            let i = x.e(&a[1], 64);
            Ok(sval(pat(tag, i)))
        },
        "sym_drain" => |_, s, _, _| {
            if s.t().wake.is_some() {
                return int(0);
            }
            Err(Stop::Block(Wait::Drain(3), None))
        },
        "sym_cfg" => |x, s, a, _| {
            let m = x.text(s, &a[0], &a[1])?;
            let v = x.cv(s, &a[2])?;
            let k: &'static str = match m.as_str() {
                "fault" => "fault",
                "faulterr" => "faulterr",
                "faultmut" => "faultmut",
                "crash" => "crash",
                "preempt" => "preempt",
                "prefiles" => "prefiles",
                "sched" => "sched",
                "ficlone" => "ficlone",
                "freebsd" => "freebsd",
                _ => return uns("cfg"),
            };
            s.ints.insert(k, v);
            int(0)
        },
        "sym_advance_ms" => |x, s, a, _| {
            let v = x.cv(s, &a[0])?;
            s.kern.clock += v * 1_000_000;
            int(0)
        },
        "sym_deep" => |x, _, _, _| int(x.deep as i64),
        // runs f in a child process: 0 it finished, 1 it died
        "sym_child" => |x, s, a, _| {
            if let Some(w) = s.t().wake {
                return int(w as i64);
            }
            let f = x.cv(s, &a[0])?;
            let mem = s.mem.fork();
            s.saved.push(Rc::new(Saved {
                mem,
                th: s.th.clone(),
                cur: s.cur,
                heap: s.heap,
                allocs: s.allocs.clone(),
                pmutex: s.pmutex.clone(),
                fds: s.kern.fds.clone(),
                pid: s.kern.pid,
                mmap_top: s.mmap_top,
            }));
            for o in s.kern.fds.clone().into_iter().flatten() {
                s.kern.ofds[o as usize].as_mut().unwrap().refs += 1;
            }
            s.kern.pid = s.next_tid + 1000;
            s.th.clear();
            s.cur = 0;
            x.new_thread(s, f, vec![])?;
            // (the re-execution of this call in the parent returns)
            Err(Stop::Switch)
        },
        // 0: hole or beyond the end, 1: data. (path, length, block)
        "sym_block" => |x, s, a, _| {
            let p = x.text(s, &a[0], &a[1])?;
            let b = x.e(&a[2], 64);
            match s.kern.lookup(1, p.as_bytes()) {
                Ok((_, _, Some(i))) => {
                    if let IK::Log { alloc, .. } = s.kern.ino(i).k {
                        return Ok(sval(zext(cf_eval(alloc, b), 64)));
                    }
                    int(1)
                }
                _ => int(0),
            }
        },
        // ---- memory
        "malloc" => |x, s, a, _| {
            let n = x.size(s, &a[0])?;
            int(alloc(s, n, 16) as i64)
        },
        "calloc" => |x, s, a, _| {
            let n = x.cv(s, &a[0])? * x.cv(s, &a[1])?;
            int(alloc(s, n, 16) as i64)
        },
        "posix_memalign" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            let al = x.cv(s, &a[1])?;
            let n = x.size(s, &a[2])?;
            let r = alloc(s, n, al);
            s.mem.store_c(p, 8, r);
            int(0)
        },
        "realloc" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            let n = x.size(s, &a[1])?;
            let old = if p == 0 { 0 } else { *s.allocs.get(&p).ok_or_else(|| bad("realloc of a pointer that is not allocated"))? };
            if n <= old && p != 0 {
                return int(p as i64);
            }
            let q = alloc(s, n, 16);
            s.mem.copy(q, p, old.min(n)).ok_or_else(|| bad("realloc"))?;
            Rc::make_mut(&mut s.allocs).remove(&p);
            int(q as i64)
        },
        "free" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            if p != 0 && Rc::make_mut(&mut s.allocs).remove(&p).is_none() {
                return Err(Stop::Violation(format!("free of {:#x}, which is not allocated", p)));
            }
            int(0)
        },
        "memcmp" | "bcmp" => f_memcmp,
        "memcpy" | "memmove" => |x, s, a, _| {
            x.memcpy(s, &a[0], &a[1], &a[2])?;
            Ok(a[0].clone())
        },
        "memset" => |x, s, a, _| {
            let b = x.cv(s, &a[1])? & 255;
            x.memset(s, &a[0], &V::C(b), &a[2])?;
            Ok(a[0].clone())
        },
        "strlen" => |x, s, a, _| int(x.path(s, &a[0])?.len() as i64),
        "strcmp" | "strncmp" => f_strcmp,
        "strspn" | "strcspn" => f_span,
        "strrchr" => |x, s, a, _| {
            let b = x.cv(s, &a[0])?;
            let p = x.cstr(s, b)?;
            let c = x.cv(s, &a[1])? as u8;
            if c == 0 {
                return int((b + p.len() as u64) as i64);
            }
            match p.iter().rposition(|y| *y == c) {
                Some(i) => int((b + i as u64) as i64),
                None => int(0),
            }
        },
        "__errno_location" => |_, s, _, _| int(s.t().tls as i64),
        "__xpg_strerror_r" => |x, s, a, _| {
            let e = x.cv(s, &a[0])?;
            let b = x.cv(s, &a[1])?;
            let n = x.cv(s, &a[2])?;
            let mut t = format!("error {}", e as u32).into_bytes();
            t.truncate(n as usize - 1);
            t.push(0);
            s.mem.write_bytes(b, &t);
            int(0)
        },
        // ---- process
        "abort" => |_, s, _, _| Err(Stop::Violation(format!("panic: {}", Ex::stderr_tail(s)))),
        "_exit" | "exit" => |x, s, a, _| {
            let c = x.cv(s, &a[0])?;
            if s.saved.is_empty() || c != 0 {
                return Err(Stop::Violation(format!("exit({})", c as i32)));
            }
            Err(Stop::ChildDone)
        },
        "getenv" => |x, s, a, _| {
            let n = x.path(s, &a[0])?;
            if n == b"POSSUM_EMULATE_FREEBSD" && s.get("freebsd") == 1 {
                let p = alloc(s, 2, 16);
                s.mem.write_bytes(p, b"1\0");
                return int(p as i64);
            }
            int(0)
        },
        "getpid" => |_, s, _, _| int(s.kern.pid as i64),
        "isatty" => |_, s, _, _| fail(s, 25),
        "gettid" => |_, s, _, _| int((s.kern.pid + s.t().id) as i64),
        "geteuid" | "fchmod" | "fchown" | "utimes" | "fsync" | "fdatasync" | "sigaltstack" | "poll" | "getauxval" | "dlopen" | "dlerror" | "dlsym" | "dlclose"
        | "dl_iterate_phdr" | "mprotect" | "madvise" | "pthread_atfork" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_setname_np"
        | "pthread_mutexattr_init" | "pthread_mutexattr_settype" | "pthread_mutexattr_destroy" | "pthread_setspecific" | "pthread_key_delete" | "pthread_detach"
        | "__cxa_thread_atexit_impl" | "_Unwind_GetIP" | "_Unwind_GetCFA" | "_Unwind_FindEnclosingFunction" | "_Unwind_GetLanguageSpecificData" | "_Unwind_GetIPInfo"
        | "_Unwind_GetRegionStart" | "_Unwind_SetGR" | "_Unwind_SetIP" | "_Unwind_GetTextRelBase" | "_Unwind_GetDataRelBase" | "umask" | "signal" | "sigaction" | "posix_fadvise64" => zero,
        "_Unwind_Backtrace" => |_, _, _, _| int(5),
        "mremap" | "readlink" | "sendfile64" | "copy_file_range" | "pthread_getattr_np" | "pthread_attr_getstack" | "pthread_attr_getguardsize" | "splice" => minus1,
        "pthread_key_create" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            s.mem.store_c(p, 4, 1);
            int(0)
        },
        "sysconf" => |x, s, a, _| {
            let k = x.cv(s, &a[0])?;
            int(match k {
                30 => 4096,
                83 | 84 => 4,
                _ => -1,
            })
        },
        "getrandom" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            let n = x.cv(s, &a[1])?;
            let b = s.kern.rand_bytes(n as usize);
            s.mem.write_bytes(p, &b).ok_or_else(|| bad("getrandom"))?;
            int(n as i64)
        },
        "syscall" => |x, s, a, _| {
            let k = x.cv(s, &a[0])?;
            match k {
                186 => int((s.kern.pid + s.t().id) as i64),
                202 => x.futex(s, &a[1..]),
                318 => {
                    let p = x.cv(s, &a[1])?;
                    let n = x.cv(s, &a[2])?;
                    let b = s.kern.rand_bytes(n as usize);
                    s.mem.write_bytes(p, &b).ok_or_else(|| bad("getrandom"))?;
                    int(n as i64)
                }
                332 => x.do_statx(s, &a[1..]),
                _ => fail(s, ENOSYS),
            }
        },
        // ---- time
        "clock_gettime" => |x, s, a, _| {
            let p = x.cv(s, &a[1])?;
            f_now(x, s, p, false);
            int(0)
        },
        "gettimeofday" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            f_now(x, s, p, true);
            int(0)
        },
        "time" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            let t = s.kern.clock / 1_000_000_000;
            if p != 0 {
                s.mem.store_c(p, 8, t);
            }
            int(t as i64)
        },
        "nanosleep" | "clock_nanosleep" => |x, s, a, c| {
            let (fl, p) = if c.name == "nanosleep" { (0, x.cv(s, &a[0])?) } else { (x.cv(s, &a[1])?, x.cv(s, &a[2])?) };
            let (u, v) = (x.load_v(s, &V::C(p), 64)?, x.load_v(s, &V::C(p + 8), 64)?);
            let t = x.cv(s, &u)?.saturating_mul(1_000_000_000).saturating_add(x.cv(s, &v)?);
            let until = if fl & 1 != 0 { t } else { s.kern.clock + t };
            x.sleep(s, until)
        },
        "usleep" => |x, s, a, _| {
            let n = x.cv(s, &a[0])?;
            let t = s.kern.clock + n * 1000;
            x.sleep(s, t)
        },
        "sched_yield" => |x, s, _, _| {
            if s.th.iter().filter(|t| t.st == Th::Run).count() < 2 {
                return int(0);
            }
            let t = s.kern.clock + 1;
            x.sleep(s, t)
        },
        "pause" => |_, _, _, _| uns("pause"),
        // ---- threads
        "pthread_self" => |_, s, _, _| int(s.t().id as i64),
        "pthread_create" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            let f = x.cv(s, &a[2])?;
            let cur = s.cur;
            let id = x.new_thread(s, f, vec![a[3].clone()])?;
            s.cur = cur;
            s.mem.store_c(p, 8, id as u64);
            int(0)
        },
        "pthread_join" => |x, s, a, _| {
            let id = x.cv(s, &a[0])? as u32;
            let pp = x.cv(s, &a[1])?;
            match s.th.iter().find(|t| t.id == id) {
                Some(t) if t.st == Th::Done => {
                    let v = t.retval.clone();
                    if pp != 0 {
                        x.store_v(s, &V::C(pp), &v, 64)?;
                    }
                    int(0)
                }
                Some(_) => Err(Stop::Block(Wait::Join(id), None)),
                None => int(3),
            }
        },
        "pthread_mutex_init" | "pthread_mutex_destroy" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            Rc::make_mut(&mut s.pmutex).remove(&p);
            int(0)
        },
        "pthread_mutex_lock" | "pthread_mutex_trylock" => |x, s, a, c| {
            let p = x.cv(s, &a[0])?;
            let me = s.t().id;
            let m = Rc::make_mut(&mut s.pmutex);
            match m.get_mut(&p) {
                Some((o, n)) if *n > 0 && *o != me => {
                    if c.name == "pthread_mutex_trylock" {
                        return int(16);
                    }
                    return Err(Stop::Block(Wait::PMutex(p), None));
                }
                Some((o, n)) => {
                    *o = me;
                    *n += 1;
                }
                None => {
                    m.insert(p, (me, 1));
                }
            }
            int(0)
        },
        "pthread_mutex_unlock" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            let m = Rc::make_mut(&mut s.pmutex);
            let mut free = false;
            if let Some((_, n)) = m.get_mut(&p) {
                *n = n.saturating_sub(1);
                free = *n == 0;
            }
            if free {
                m.remove(&p);
                for t in s.th.iter_mut() {
                    if t.st == Th::Block(Wait::PMutex(p), None) {
                        t.st = Th::Run;
                    }
                }
            }
            int(0)
        },
        // ---- files
        "open" | "open64" => f_open,
        "openat64" | "openat" => |x, s, a, _| {
            let d = x.cv(s, &a[0])?;
            x.do_open(s, d, &a[1], &a[2])
        },
        "close" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            let r = x.close_fd(s, fd);
            ret(s, r)
        },
        "read" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            if let Some(e) = x.gate2(s, false, false, true)? {
                return fail(s, e);
            }
            let n = x.e(&a[2], 64);
            x.do_read(s, fd, &a[1], n, None)
        },
        "pread64" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            if let Some(e) = x.gate2(s, false, false, true)? {
                return fail(s, e);
            }
            let (n, o) = (x.e(&a[2], 64), x.e(&a[3], 64));
            x.do_read(s, fd, &a[1], n, Some(o))
        },
        "write" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            let n = x.e(&a[2], 64);
            if fd <= 2 {
                let k = x.conc(s, n)?;
                let p = x.cv(s, &a[1])?;
                if fd == 2 {
                    for i in 0..k {
                        let e = s.mem.byte_e(p + i).ok_or_else(|| bad("write"))?;
                        let b = as_c(e).unwrap_or(b'?' as u64) as u8;
                        s.stderr.push(b);
                    }
                }
                return int(k as i64);
            }
            if let Some(e) = x.gate2(s, true, true, false)? {
                return fail(s, e);
            }
            x.do_write(s, fd, &a[1], n, None)
        },
        "pwrite64" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            if let Some(e) = x.gate2(s, true, true, false)? {
                return fail(s, e);
            }
            let (n, o) = (x.e(&a[2], 64), x.e(&a[3], 64));
            x.do_write(s, fd, &a[1], n, Some(o))
        },
        "writev" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            let p = x.cv(s, &a[1])?;
            let k = x.cv(s, &a[2])? & 0xffff_ffff;
            let mut tot = 0;
            if fd != 2 {
                return uns("writev");
            }
            for i in 0..k {
                let (b, n) = (x.load_v(s, &V::C(p + 16 * i), 64)?, x.load_v(s, &V::C(p + 16 * i + 8), 64)?);
                let (b, n) = (x.cv(s, &b)?, x.cv(s, &n)?);
                for j in 0..n {
                    let e = s.mem.byte_e(b + j).ok_or_else(|| bad("writev"))?;
                    s.stderr.push(as_c(e).unwrap_or(b'?' as u64) as u8);
                }
                tot += n;
            }
            int(tot as i64)
        },
        "lseek" | "lseek64" => f_lseek,
        "ftruncate64" | "ftruncate" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            if let Some(e) = x.gate(s, true)? {
                return fail(s, e);
            }
            x.crash_now(s)?;
            let (_, ino) = match s.kern.ofd_ino(fd) {
                Ok(x) => x,
                Err(e) => return fail(s, e),
            };
            let n = x.e(&a[1], 64);
            x.file_truncate(s, ino, n)?;
            int(0)
        },
        "fallocate64" | "fallocate" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            let mode = x.cv(s, &a[1])?;
            if let Some(e) = x.gate(s, true)? {
                return fail(s, e);
            }
            x.crash_now(s)?;
            let (_, ino) = match s.kern.ofd_ino(fd) {
                Ok(x) => x,
                Err(e) => return fail(s, e),
            };
            if mode != 3 {
                return uns("fallocate mode");
            }
            let (o, n) = (x.e(&a[2], 64), x.e(&a[3], 64));
            if x.decide(s, bor(slt(o, c64(0)), slt(n, c64(1))))? {
                return fail(s, EINVAL);
            }
            x.file_punch(s, ino, o, n)?;
            int(0)
        },
        "fcntl" | "fcntl64" => f_fcntl,
        "flock" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            let op = x.cv(s, &a[1])?;
            if let Some(e) = x.gate(s, false)? {
                return fail(s, e);
            }
            let r = x.flock(s, fd, op)?;
            ret(s, r)
        },
        "ioctl" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            let rq = x.cv(s, &a[1])?;
            if rq == 0x40049409 {
                if let Some(e) = x.gate(s, true)? {
                    return fail(s, e);
                }
                x.crash_now(s)?;
                if s.get("ficlone") == 0 {
                    return fail(s, EOPNOTSUPP);
                }
                let src = x.cv(s, &a[2])?;
                let (i, j) = match (s.kern.ofd_ino(fd), s.kern.ofd_ino(src & 0xffff_ffff)) {
                    (Ok(p), Ok(q)) => (p.1, q.1),
                    (Err(e), _) | (_, Err(e)) => return fail(s, e),
                };
                let k = s.kern.ino(j).k.clone();
                s.kern.ino_mut(i).k = k;
                return int(0);
            }
            fail(s, 25)
        },
        "stat64" | "lstat64" => f_stat,
        "fstat64" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            let b = x.cv(s, &a[1])?;
            if let Some(e) = x.gate(s, false)? {
                return fail(s, e);
            }
            match s.kern.ofd_ino(fd) {
                Ok((_, i)) => {
                    x.fill_stat(s, i, b);
                    int(0)
                }
                Err(e) => fail(s, e),
            }
        },
        "fstatat64" => |x, s, a, _| {
            let d = x.cv(s, &a[0])?;
            let p = x.path(s, &a[1])?;
            let b = x.cv(s, &a[2])?;
            let base = match x.base(s, d) {
                Ok(b) => b,
                Err(e) => return fail(s, e),
            };
            if p.is_empty() {
                x.fill_stat(s, base, b);
                return int(0);
            }
            x.do_stat(s, base, &p, b)
        },
        "statx" => |x, s, a, _| x.do_statx(s, a),
        "access" => |x, s, a, _| {
            let p = x.path(s, &a[0])?;
            match s.kern.lookup(1, &p) {
                Ok((_, _, Some(_))) => int(0),
                _ => fail(s, ENOENT),
            }
        },
        "mkdir" => |x, s, a, _| {
            let p = x.path(s, &a[0])?;
            if let Some(e) = x.gate(s, true)? {
                return fail(s, e);
            }
            x.crash_now(s)?;
            match s.kern.lookup(1, &p) {
                Ok((_, _, Some(_))) => fail(s, EEXIST),
                Ok((d, n, None)) => {
                    let i = s.kern.new_inode(IK::Dir(Default::default()));
                    s.kern.link(d, &n, i);
                    int(0)
                }
                Err(e) => fail(s, e),
            }
        },
        "rmdir" => |x, s, a, _| {
            let p = x.path(s, &a[0])?;
            x.do_unlink(s, 1, &p, true)
        },
        "unlink" => |x, s, a, _| {
            let p = x.path(s, &a[0])?;
            x.do_unlink(s, 1, &p, false)
        },
        "unlinkat" => |x, s, a, _| {
            let d = x.cv(s, &a[0])?;
            let p = x.path(s, &a[1])?;
            let f = x.cv(s, &a[2])?;
            let base = match x.base(s, d) {
                Ok(b) => b,
                Err(e) => return fail(s, e),
            };
            x.do_unlink(s, base, &p, f & 0x200 != 0)
        },
        "getcwd" => |x, s, a, _| {
            let p = x.cv(s, &a[0])?;
            s.mem.write_bytes(p, b"/\0");
            int(p as i64)
        },
        "realpath" => |x, s, a, _| {
            let p = x.path(s, &a[0])?;
            let mut out = x.cv(s, &a[1])?;
            match s.kern.lookup(1, &p) {
                Ok((_, _, Some(_))) => {}
                _ => {
                    let _ = fail(s, ENOENT);
                    return int(0);
                }
            }
            let mut t: Vec<u8> = vec![];
            for c in Kern::comps(&p) {
                t.push(b'/');
                t.extend(c);
            }
            if t.is_empty() {
                t.push(b'/');
            }
            t.push(0);
            if out == 0 {
                out = alloc(s, t.len() as u64, 16);
            }
            s.mem.write_bytes(out, &t);
            int(out as i64)
        },
        "opendir" => |x, s, a, _| {
            let p = x.path(s, &a[0])?;
            let r = x.open(s, 1, &p, 0o200000);
            if r < 0 {
                let _ = ret(s, r);
                return int(0);
            }
            x.opendir(s, r as u64)
        },
        "fdopendir" => |x, s, a, _| {
            let fd = x.cv(s, &a[0])?;
            x.opendir(s, fd)
        },
        "dirfd" => |x, s, a, _| {
            let dp = x.cv(s, &a[0])?;
            int(s.kern.dirs.get(&dp).map_or(-1, |d| d.0 as i64))
        },
        "readdir64" => |x, s, a, _| {
            let dp = x.cv(s, &a[0])?;
            x.dirent(s, dp)
        },
        "closedir" => |x, s, a, _| {
            let dp = x.cv(s, &a[0])?;
            if let Some((fd, ..)) = Rc::make_mut(&mut s.kern.dirs).remove(&dp) {
                x.close_fd(s, fd as u64);
            }
            Rc::make_mut(&mut s.allocs).remove(&dp);
            int(0)
        },
        "mmap64" | "mmap" => |x, s, a, _| x.do_mmap(s, a),
        "munmap" => |x, s, a, _| x.do_munmap(s, a),
        "localtime_r" => |_, _, _, _| uns("localtime_r"),
        _ => return None,
    })
}

/// walChecksumBytes(nativeCksum, a, nByte, aIn, aOut): concrete data natively; for symbolic data
/// a value that depends on the expressions, so that equal contents give equal checksums.
pub fn wal_checksum(x: &mut Ex, s: &mut State, a: &[V], _: &CallCtx) -> R<V> {
    let native = x.cv(s, &a[0])?;
    let p = x.cv(s, &a[1])?;
    let n = x.cv(s, &a[2])? as u32 as u64;
    let pin = x.cv(s, &a[3])?;
    let out = x.cv(s, &a[4])?;
    let (mut s1, mut s2) = (0u32, 0u32);
    if pin != 0 {
        let (u, v) = (x.load_v(s, &V::C(pin), 32)?, x.load_v(s, &V::C(pin + 4), 32)?);
        s1 = x.cv(s, &u)? as u32;
        s2 = x.cv(s, &v)? as u32;
    }
    for i in 0..n / 8 {
        let mut w = [0u32; 2];
        for k in 0..2 {
            w[k] = match s.mem.load(p + 8 * i + 4 * k as u64, 4) {
                Some(V::C(v)) => {
                    if native & 0xffff_ffff == 0 {
                        (v as u32).swap_bytes()
                    } else {
                        v as u32
                    }
                }
                Some(V::S(e)) => {
                    let h = (e as u64 ^ 0x9e37_79b9).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                    (h >> 29) as u32
                }
                _ => return Err(bad("checksum out of bounds")),
            };
        }
        s1 = s1.wrapping_add(w[0]).wrapping_add(s2);
        s2 = s2.wrapping_add(w[1]).wrapping_add(s1);
    }
    s.mem.store_c(out, 4, s1 as u64);
    s.mem.store_c(out + 4, 4, s2 as u64);
    int(0)
}

pub const VISIBLE: &[&str] = &[
    "open", "open64", "openat64", "close", "read", "pread64", "write", "pwrite64", "ftruncate64", "fallocate64", "fcntl", "fcntl64", "flock", "unlink", "unlinkat", "rmdir", "mkdir",
    "lseek64", "lseek", "mmap64", "ioctl", "opendir",
];
