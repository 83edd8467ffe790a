//! What a path knows: constraints, ranges of variables, and terms rewritten under them.
//!
//! The path condition P is kept as P' and R: R the ranges of the variables that P implies, P' the
//! constraints rewritten under R (a narrowed variable is replaced by a view of it whose node
//! carries the narrower range, so that all rewriting at construction applies again).
use crate::exec::*;
use crate::expr::*;
use crate::state::*;
use std::rc::Rc;

pub fn rebuild(e: E, f: &mut dyn FnMut(E) -> E) -> E {
    let w = width(e);
    match &nd(e).n {
        N::C(_) | N::Var(_) => e,
        N::Pat(t, i) => pat(*t, f(*i)),
        N::Lin(k, t) => {
            let mut r = con(*k, w);
            for &(x, kk) in t.iter() {
                r = add(r, mulc(f(x), kk));
            }
            r
        }
        N::Bin(k, a, b) => bin(*k, f(*a), f(*b)),
        N::SExt(a) => sext(f(*a), w),
        N::Segs(s) => {
            let mut out = vec![];
            for x in s.iter() {
                if x.src == NONE {
                    out.push(*x);
                } else {
                    let y = f(x.src);
                    out.extend(as_segs(extract(y, x.lo as u32, x.len as u32)));
                }
            }
            segs(out, w)
        }
        N::Eq(a, b) => eq(f(*a), f(*b)),
        N::Ult(a, b) => ult(f(*a), f(*b)),
        N::Slt(a, b) => slt(f(*a), f(*b)),
        N::Not(a) => not(f(*a)),
        N::Ite(c, a, b) => {
            let c = f(*c);
            match as_c(c) {
                Some(1) => f(*a),
                Some(_) => f(*b),
                None => ite(c, f(*a), f(*b)),
            }
        }
    }
}

/// lo <= e <= hi holds: what it says about variables
fn narrow(e: E, lo: i128, hi: i128, out: &mut Vec<(u32, u64, u64)>, d: u32) {
    let (a, b) = irange(e);
    let (lo, hi) = (lo.max(a), hi.min(b));
    if (lo <= a && hi >= b) || lo > hi || d == 0 {
        return;
    }
    match &nd(e).n {
        N::Var(i) => {
            if a >= 0 {
                out.push((cx().vars[*i as usize].base, lo as u64, hi as u64));
            }
        }
        N::Lin(c, t) => {
            let w = width(e);
            let l = Lf { c: *c, t: t.to_vec() };
            // the interval used for e must be the one in which the sum is exact
            let ok = if a >= 0 { exact_u(&l, w) } else { exact_s(&l, w) };
            if ok {
                lin_bounds(&l, w, lo, hi, out, d - 1);
            }
        }
        N::Segs(s) => {
            if s.len() <= 2 && s[0].src != NONE && s[0].lo == 0 && (s.len() == 1 || (s[1].src == NONE && s[1].k == 0)) {
                let x = nd(s[0].src);
                if s[0].len as u32 >= 64 - x.hi.leading_zeros() && irange(s[0].src).0 >= 0 {
                    narrow(s[0].src, lo, hi, out, d - 1);
                }
            }
        }
        _ => {}
    }
}
/// lo <= c + sum <= hi over the integers
fn lin_bounds(l: &Lf, w: u32, lo: i128, hi: i128, out: &mut Vec<(u32, u64, u64)>, d: u32) {
    let (slo, shi) = l.range(w);
    for &(x, k) in &l.t {
        let k = sx(k, w) as i128;
        let (a, b) = irange(x);
        // the rest of the sum
        let (rlo, rhi) = if k >= 0 { (slo - a * k, shi - b * k) } else { (slo - b * k, shi - a * k) };
        // lo - rhi <= k x <= hi - rlo
        let (p, q) = (lo - rhi, hi - rlo);
        let (xl, xh) = if k > 0 {
            (-((-p).div_euclid(k)), q.div_euclid(k))
        } else {
            let m = -k;
            (-(q.div_euclid(m)), (-p).div_euclid(m))
        };
        narrow(x, xl, xh, out, d);
    }
}

/// The terms of a sum of variables (its key), with the sign of the first one positive.
fn sum_key(l: &Lf, w: u32) -> Option<(Vec<(u32, i64)>, bool)> {
    if l.t.len() < 2 {
        return None;
    }
    let mut v = vec![];
    for &(x, k) in &l.t {
        match nd(x).n {
            N::Var(i) if irange(x).0 >= 0 => v.push((cx().vars[i as usize].base, sx(k, w))),
            _ => return None,
        }
    }
    v.sort();
    let neg = v[0].1 < 0;
    if neg {
        for x in v.iter_mut() {
            x.1 = x.1.wrapping_neg();
        }
    }
    Some((v, neg))
}
pub type Sums = std::collections::BTreeMap<Vec<(u32, i64)>, (i128, i128)>;

/// what a relation says about a sum of variables
fn sum_fact(c: E, b: bool, out: &mut Vec<(Vec<(u32, i64)>, i128, i128)>, d: u32) {
    if d == 0 {
        return;
    }
    let (x, y, signed) = match &nd(c).n {
        N::Not(x) => return sum_fact(*x, !b, out, d - 1),
        N::Bin(B::And, x, y) if b => {
            sum_fact(*x, true, out, d - 1);
            return sum_fact(*y, true, out, d - 1);
        }
        N::Bin(B::Or, x, y) if !b => {
            sum_fact(*x, false, out, d - 1);
            return sum_fact(*y, false, out, d - 1);
        }
        N::Ult(x, y) => (*x, *y, false),
        N::Slt(x, y) => (*x, *y, true),
        _ => return,
    };
    if nd(x).pat || nd(y).pat {
        return;
    }
    let Some(l) = diff(x, y, signed, width(x)) else { return };
    let Some((k, neg)) = sum_key(&l, 64) else { return };
    let c = l.c as i64 as i128;
    // c + sum <= -1, or c + sum >= 0
    let (mut lo, mut hi) = if b { (i128::MIN, -1 - c) } else { (-c, i128::MAX) };
    if neg {
        (lo, hi) = (hi.checked_neg().unwrap_or(i128::MIN), lo.checked_neg().unwrap_or(i128::MAX));
    }
    out.push((k, lo, hi));
}

fn bounds(c: E, b: bool, out: &mut Vec<(u32, u64, u64)>, d: u32) {
    if d == 0 {
        return;
    }
    match &nd(c).n {
        N::Not(x) => bounds(*x, !b, out, d - 1),
        N::Bin(B::And, x, y) if b => {
            bounds(*x, true, out, d - 1);
            bounds(*y, true, out, d - 1);
        }
        N::Bin(B::Or, x, y) if !b => {
            bounds(*x, false, out, d - 1);
            bounds(*y, false, out, d - 1);
        }
        N::Eq(x, y) if width(*x) > 1 => {
            let w = width(*x);
            if nd(*x).pat || nd(*y).pat {
                return;
            }
            if !b {
                if let (Some(k), N::Var(i)) = (as_c(*y), &nd(*x).n) {
                    let v = nd(*x);
                    if k == v.lo {
                        out.push((cx().vars[*i as usize].base, v.lo + 1, v.hi));
                    } else if k == v.hi {
                        out.push((cx().vars[*i as usize].base, v.lo, v.hi - 1));
                    }
                } else if let (Some(k), N::Var(i)) = (as_c(*x), &nd(*y).n) {
                    let v = nd(*y);
                    if k == v.lo {
                        out.push((cx().vars[*i as usize].base, v.lo + 1, v.hi));
                    } else if k == v.hi {
                        out.push((cx().vars[*i as usize].base, v.lo, v.hi - 1));
                    }
                }
                return;
            }
            for signed in [false, true] {
                if let Some(l) = diff(*x, *y, signed, w) {
                    lin_bounds(&l, 64, 0, 0, out, 6);
                    break;
                }
            }
        }
        N::Ult(x, y) => rel(*x, *y, false, b, out),
        N::Slt(x, y) => rel(*x, *y, true, b, out),
        _ => {}
    }
}
fn rel(x: E, y: E, signed: bool, b: bool, out: &mut Vec<(u32, u64, u64)>) {
    let w = width(x);
    if nd(x).pat || nd(y).pat {
        return;
    }
    if let Some(l) = diff(x, y, signed, w) {
        let (lo, hi) = l.range(64);
        if b {
            lin_bounds(&l, 64, lo, -1, out, 6);
        } else {
            lin_bounds(&l, 64, 0, hi, out, 6);
        }
    }
}
/// x - y as an exact integer sum (coefficients read as 64-bit signed)
fn diff(x: E, y: E, signed: bool, w: u32) -> Option<Lf> {
    let part = |e: E| -> Option<Lf> {
        let l = to_lin(e);
        let ok = if signed { exact_s(&l, w) } else { exact_u(&l, w) };
        // terms must be read the same way by range()
        if ok {
            Some(Lf { c: sx(l.c, w) as u64, t: l.t.iter().map(|t| (t.0, sx(t.1, w) as u64)).collect() })
        } else {
            None
        }
    };
    let (a, b) = (part(x)?, part(y)?);
    let big = |v: u64| (v as i64).unsigned_abs() > 1 << 60;
    if big(a.c) || big(b.c) || a.t.iter().chain(b.t.iter()).any(|t| big(t.1)) {
        return None;
    }
    let mut l = a;
    l.c = l.c.wrapping_sub(b.c);
    for (e, k) in b.t {
        match l.t.iter().position(|t| t.0 == e) {
            Some(i) => {
                l.t[i].1 = l.t[i].1.wrapping_sub(k);
                if l.t[i].1 == 0 {
                    l.t.remove(i);
                }
            }
            None => l.t.push((e, k.wrapping_neg())),
        }
    }
    Some(l)
}

/// the path's range of a sum
fn sum_range(s: &State, e: E) -> Option<(i128, i128)> {
    if let N::Lin(c, t) = &nd(e).n {
        let w = width(e);
        let l = Lf { c: *c, t: t.to_vec() };
        if !exact_u(&l, w) {
            return None;
        }
        let (k, neg) = sum_key(&l, w)?;
        let &(lo, hi) = s.sums.get(&k)?;
        let (lo, hi) = if neg { (hi.checked_neg().unwrap_or(i128::MIN), lo.checked_neg().unwrap_or(i128::MAX)) } else { (lo, hi) };
        let c = sx(*c, w) as i128;
        let (a, b) = irange(e);
        return Some((lo.saturating_add(c).max(a), hi.saturating_add(c).min(b)));
    }
    None
}
/// a part of a sum that is the sum, since the path says that it is small
fn by_sums(s: &State, e: E) -> E {
    let w = width(e);
    match &nd(e).n {
        N::SExt(z) => {
            if let N::Segs(v) = &nd(*z).n {
                if v.len() == 1 && v[0].src != NONE && v[0].lo == 0 {
                    if let Some((lo, hi)) = sum_range(s, v[0].src) {
                        if lo >= 0 && hi < 1i128 << (v[0].len - 1) {
                            return zext(*z, w).pipe(|r| by_sums(s, r));
                        }
                    }
                }
            }
            e
        }
        N::Segs(v) => {
            if v.len() == 2 && v[0].src != NONE && v[0].lo == 0 && v[1].src == NONE && v[1].k == 0 && width(v[0].src) == w {
                if let Some((lo, hi)) = sum_range(s, v[0].src) {
                    if lo >= 0 && hi < 1i128 << v[0].len {
                        return v[0].src;
                    }
                }
            }
            e
        }
        _ => e,
    }
}
trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl Pipe for E {}

impl Ex {
    /// e rewritten under what the path knows
    #[inline]
    pub fn simp(&mut self, s: &State, e: E) -> E {
        if s.fid == 0 {
            return e;
        }
        if self.simp_id != s.fid {
            self.simp_id = s.fid;
            self.simp_memo.clear();
        }
        self.simp_rec(s, e)
    }
    fn simp_rec(&mut self, s: &State, e: E) -> E {
        match &nd(e).n {
            N::C(_) => return e,
            N::Var(i) => {
                let b = cx().vars[*i as usize].base;
                return match s.rng.get(&b) {
                    Some(&(lo, hi)) => alias(b, lo, hi),
                    None => e,
                };
            }
            _ => {}
        }
        if let Some(&r) = self.simp_memo.get(&e) {
            return r;
        }
        let me: *mut Ex = self;
        let mut r = rebuild(e, &mut |x| unsafe { (*me).simp_rec(s, x) });
        if !s.sums.is_empty() {
            r = by_sums(s, r);
        }
        self.simp_memo.insert(e, r);
        if r != e {
            self.simp_memo.insert(r, r);
        }
        r
    }
    pub fn simp_v(&mut self, s: &State, v: crate::ir::V) -> crate::ir::V {
        match v {
            crate::ir::V::S(e) => sval(self.simp(s, e)),
            v => v,
        }
    }

    fn apply(&mut self, s: &mut State, out: &[(u32, u64, u64)]) -> bool {
        let mut ch = false;
        for &(v, lo, hi) in out {
            let vi = &cx().vars[v as usize];
            let (a, b) = s.rng.get(&v).copied().unwrap_or((vi.lo, vi.hi));
            let (x, y) = (lo.max(a), hi.min(b));
            if x > y || (x, y) == (a, b) {
                continue;
            }
            Rc::make_mut(&mut s.rng).insert(v, (x, y));
            ch = true;
        }
        ch
    }

    /// c holds on this path from now on; implied: it follows from what is known already
    pub fn learn(&mut self, s: &mut State, c: E, implied: bool) {
        self.note(s, c);
        if !implied {
            s.path.push(c);
        }
        let mut out = vec![];
        bounds(c, true, &mut out, 8);
        let mut rounds = 0;
        let mut sums = vec![];
        sum_fact(c, true, &mut sums, 8);
        let mut more = false;
        for (k, lo, hi) in sums {
            let (a, b) = s.sums.get(&k).copied().unwrap_or((i128::MIN, i128::MAX));
            let (x, y) = (lo.max(a), hi.min(b));
            if (x, y) == (a, b) || x > y {
                continue;
            }
            // (only a bound that may settle a width is worth rewriting for)
            let bits = |v: i128| if v == i128::MAX || v < 0 { 200 } else { 128 - v.leading_zeros() };
            more |= bits(y) < bits(b) || bits(y.saturating_add(20000)) < 20 && y < b;
            Rc::make_mut(&mut s.sums).insert(k, (x, y));
        }
        while (self.apply(s, &out) || std::mem::take(&mut more)) && rounds < 6 {
            rounds += 1;
            self.next_fid += 1;
            s.fid = self.next_fid;
            out.clear();
            let old = std::mem::take(&mut s.path);
            for p in old {
                let q = self.simp(s, p);
                match as_c(q) {
                    Some(1) => {}
                    _ => {
                        if !s.path.contains(&q) {
                            s.path.push(q);
                            self.note(s, q);
                        }
                        bounds(q, true, &mut out, 8);
                    }
                }
            }
        }
    }
    fn note(&mut self, s: &mut State, c: E) {
        match nd(c).n {
            N::C(_) => {}
            N::Not(x) => {
                Rc::make_mut(&mut s.known).insert(x, false);
            }
            N::Bin(B::And, x, y) => {
                Rc::make_mut(&mut s.known).insert(c, true);
                self.note(s, x);
                self.note(s, y);
            }
            _ => {
                Rc::make_mut(&mut s.known).insert(c, true);
            }
        };
    }
    pub fn query(&mut self, s: &State, c: E) -> crate::z3::Res {
        let r: Vec<(u32, u64, u64)> = s.rng.iter().map(|(k, v)| (*k, v.0, v.1)).collect();
        let m = s.model.clone();
        self.solver.check(&s.path, &r, c, &m)
    }
}
