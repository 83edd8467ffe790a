//! Hash-consed bit-vector expressions (width 1..=64) with intervals and linear normal forms.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum B {
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

/// A piece of a concatenation. src == NONE: the constant k.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Seg {
    pub src: E,
    pub lo: u8,
    pub len: u8,
    pub k: u64,
}
pub const NONE: E = u32::MAX;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u64),
    Var(u32),
    /// opaque data byte: the idx-th byte of the value with this tag (8 bits)
    Pat(u64, E),
    Lin(u64, Box<[(E, u64)]>),
    Bin(B, E, E),
    SExt(E),
    Segs(Box<[Seg]>),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Not(E),
    Ite(E, E, E),
}

pub struct Node {
    pub n: N,
    pub w: u8,
    pub lo: u64,
    pub hi: u64,
    pub slo: i64,
    pub shi: i64,
    /// some opaque byte below
    pub pat: bool,
}

pub struct VarInfo {
    pub name: String,
    pub lo: u64,
    pub hi: u64,
    pub w: u8,
    pub e: E,
    /// the variable this one is a narrower view of (itself if none)
    pub base: u32,
}

#[derive(Default)]
pub struct Ctx {
    pub nodes: Arena<Node>,
    map: HashMap<(N, u8), E>,
    pub vars: Arena<VarInfo>,
    varmap: HashMap<(String, u64, u64, u8), u32>,
    aliases: HashMap<(u32, u64, u64), E>,
    eval_cache: Vec<(u32, u64)>,
    eval_gen: u32,
    eval_model: u64,
}

static mut CTX: Option<Ctx> = None;
#[inline(always)]
pub fn cx() -> &'static mut Ctx {
    #[allow(static_mut_refs)]
    unsafe {
        CTX.get_or_insert_with(Ctx::default)
    }
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn smin(w: u32) -> i64 {
    if w >= 64 {
        i64::MIN
    } else {
        -(1i64 << (w - 1))
    }
}
fn smax(w: u32) -> i64 {
    if w >= 64 {
        i64::MAX
    } else {
        (1i64 << (w - 1)) - 1
    }
}

/// A growing sequence whose elements never move.
pub struct Arena<T> {
    c: Vec<Vec<T>>,
}
const CH: usize = 1 << 14;
impl<T> Arena<T> {
    pub fn new() -> Arena<T> {
        Arena { c: vec![Vec::with_capacity(CH)] }
    }
    pub fn len(&self) -> usize {
        (self.c.len() - 1) * CH + self.c[self.c.len() - 1].len()
    }
    pub fn push(&mut self, x: T) {
        if self.c.last().unwrap().len() == CH {
            self.c.push(Vec::with_capacity(CH));
        }
        self.c.last_mut().unwrap().push(x);
    }
}
impl<T> Default for Arena<T> {
    fn default() -> Self {
        Arena::new()
    }
}
impl<T> std::ops::Index<usize> for Arena<T> {
    type Output = T;
    #[inline]
    fn index(&self, i: usize) -> &T {
        &self.c[i / CH][i % CH]
    }
}

#[inline]
pub fn nd(e: E) -> &'static Node {
    &cx().nodes[e as usize]
}
#[inline]
pub fn width(e: E) -> u32 {
    nd(e).w as u32
}
#[inline]
pub fn as_c(e: E) -> Option<u64> {
    match nd(e).n {
        N::C(v) => Some(v),
        _ => None,
    }
}

fn mk(n: N, w: u32, lo: u64, hi: u64, s: Option<(i64, i64)>) -> E {
    if lo == hi && !matches!(n, N::C(_)) {
        return con(lo, w);
    }
    let c = cx();
    if let Some(&e) = c.map.get(&(n.clone(), w as u8)) {
        return e;
    }
    let m = mask(w);
    debug_assert!(lo <= hi && hi <= m);
    // signed interval implied by the unsigned one
    let top = 1u64 << (w - 1);
    let (mut slo, mut shi) = if hi < top {
        (lo as i64, hi as i64)
    } else if lo >= top {
        (sx(lo, w), sx(hi, w))
    } else {
        (smin(w), smax(w))
    };
    let (mut lo, mut hi) = (lo, hi);
    if let Some((a, b)) = s {
        slo = slo.max(a);
        shi = shi.min(b);
        if slo >= 0 {
            lo = lo.max(slo as u64);
            hi = hi.min(shi as u64);
        } else if shi < 0 {
            lo = lo.max(slo as u64 & m);
            hi = hi.min(shi as u64 & m);
        }
    }
    let e = c.nodes.len() as E;
    let p = |x: &E| *x != NONE && nd(*x).pat;
    let pat = match &n {
        N::Pat(..) => true,
        N::C(_) | N::Var(_) => false,
        N::Lin(_, t) => t.iter().any(|x| p(&x.0)),
        N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => p(a) || p(b),
        N::SExt(a) | N::Not(a) => p(a),
        N::Segs(s) => s.iter().any(|x| p(&x.src)),
        N::Ite(c, a, b) => p(c) || p(a) || p(b),
    };
    c.nodes.push(Node { n: n.clone(), w: w as u8, lo, hi, slo, shi, pat });
    c.map.insert((n, w as u8), e);
    e
}

pub fn con(v: u64, w: u32) -> E {
    let v = v & mask(w);
    mk(N::C(v), w, v, v, None)
}
pub fn tru() -> E {
    con(1, 1)
}
pub fn fls() -> E {
    con(0, 1)
}
pub fn var(name: &str, lo: u64, hi: u64, w: u32) -> E {
    let c = cx();
    let k = (name.to_string(), lo, hi, w as u8);
    if let Some(&i) = c.varmap.get(&k) {
        return c.vars[i as usize].e;
    }
    let i = c.vars.len() as u32;
    // a variable with a single value is still a constant
    let e = mk(N::Var(i), w, lo, hi, None);
    c.vars.push(VarInfo { name: name.to_string(), lo, hi, w: w as u8, e, base: i });
    c.varmap.insert(k, i);
    e
}
/// The variable seen with a narrower range: only valid where the range is known to hold.
pub fn alias(base: u32, lo: u64, hi: u64) -> E {
    let c = cx();
    let w = c.vars[base as usize].w as u32;
    if lo == hi {
        return con(lo, w);
    }
    if let Some(&e) = c.aliases.get(&(base, lo, hi)) {
        return e;
    }
    let i = c.vars.len() as u32;
    let e = mk(N::Var(i), w, lo, hi, None);
    let name = c.vars[base as usize].name.clone();
    c.vars.push(VarInfo { name, lo, hi, w: w as u8, e, base });
    c.aliases.insert((base, lo, hi), e);
    e
}
pub fn pat(tag: u64, idx: E) -> E {
    mk(N::Pat(tag, idx), 8, 1, 255, None)
}
/// The concrete byte the native replayer uses for an opaque byte.
pub fn pat_byte(tag: u64, idx: u64) -> u8 {
    let mut x = tag.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ idx.wrapping_mul(0xd134_2543_de82_ef95);
    x ^= x >> 29;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^= x >> 32;
    (x % 255) as u8 + 1
}

/// narrowest integer interval of a term
pub fn irange(e: E) -> (i128, i128) {
    let n = nd(e);
    let u = (n.lo as i128, n.hi as i128);
    let s = (n.slo as i128, n.shi as i128);
    if u.1 - u.0 <= s.1 - s.0 {
        u
    } else {
        s
    }
}

#[derive(Clone, Debug)]
pub struct Lf {
    pub c: u64,
    pub t: Vec<(E, u64)>,
}
impl Lf {
    fn add(&mut self, e: E, k: u64, w: u32) {
        let m = mask(w);
        let k = k & m;
        if k == 0 {
            return;
        }
        match self.t.binary_search_by_key(&e, |x| x.0) {
            Ok(i) => {
                let n = self.t[i].1.wrapping_add(k) & m;
                if n == 0 {
                    self.t.remove(i);
                } else {
                    self.t[i].1 = n;
                }
            }
            Err(i) => self.t.insert(i, (e, k)),
        }
    }
    /// integer range of  c + Σ k·t  with c and k read as signed
    pub fn range(&self, w: u32) -> (i128, i128) {
        let c = sx(self.c, w) as i128;
        let (mut lo, mut hi) = (c, c);
        for &(e, k) in &self.t {
            let k = sx(k, w) as i128;
            let (a, b) = irange(e);
            if k >= 0 {
                lo += a * k;
                hi += b * k;
            } else {
                lo += b * k;
                hi += a * k;
            }
        }
        (lo, hi)
    }
}

fn lin_add(l: &mut Lf, e: E, k: u64, w: u32) {
    let m = mask(w);
    match &nd(e).n {
        N::C(v) => l.c = l.c.wrapping_add(v.wrapping_mul(k)) & m,
        N::Lin(c, t) => {
            l.c = l.c.wrapping_add(c.wrapping_mul(k)) & m;
            for &(x, kk) in t.iter() {
                l.add(x, kk.wrapping_mul(k), w);
            }
        }
        N::Segs(s) => {
            // truncation of a wider Lin
            if s.len() == 1 && s[0].src != NONE && s[0].lo == 0 {
                if let N::Lin(c, t) = &nd(s[0].src).n {
                    l.c = l.c.wrapping_add(c.wrapping_mul(k)) & m;
                    for &(x, kk) in t.iter() {
                        let tr = trunc(x, w);
                        lin_add(l, tr, kk.wrapping_mul(k), w);
                    }
                    return;
                }
            }
            // low zero bits:  2^z * rest
            if s[0].src == NONE && s[0].k == 0 && s.len() > 1 {
                let z = s[0].len as u32;
                let mut r: Vec<Seg> = s[1..].to_vec();
                r.push(Seg { src: NONE, lo: 0, len: z as u8, k: 0 });
                let r = segs(r, w);
                // r may simplify (even to a Lin)
                lin_add(l, r, k.wrapping_mul(1u64 << z), w);
                return;
            }
            // nonzero low constant under a source: split off the constants
            if s.len() > 1 && s.iter().any(|x| x.src == NONE && x.k != 0) {
                let mut off = 0u32;
                let mut c = 0u64;
                let mut r = vec![];
                for x in s.iter() {
                    let mut y = *x;
                    if x.src == NONE {
                        c |= x.k << off;
                        y.k = 0;
                    }
                    r.push(y);
                    off += x.len as u32;
                }
                l.c = l.c.wrapping_add(c.wrapping_mul(k)) & m;
                let r = segs(r, w);
                lin_add(l, r, k, w);
                return;
            }
            l.add(e, k, w)
        }
        _ => l.add(e, k, w),
    }
}

pub fn to_lin(e: E) -> Lf {
    let mut l = Lf { c: 0, t: vec![] };
    lin_add(&mut l, e, 1, width(e));
    l
}

fn mk_lin(l: Lf, w: u32) -> E {
    if l.t.is_empty() {
        return con(l.c, w);
    }
    if l.c == 0 && l.t.len() == 1 && l.t[0].1 == 1 {
        return l.t[0].0;
    }
    let (a, b) = l.range(w);
    let m = mask(w) as i128;
    let span = b - a;
    let (mut lo, mut hi) = (0u64, mask(w));
    // shift into [0, 2^w)
    if span < (1i128 << w) {
        let base = a.div_euclid(1i128 << w) * (1i128 << w);
        let (a1, b1) = (a - base, b - base);
        if b1 <= m {
            lo = a1 as u64;
            hi = b1 as u64;
        }
    }
    let mut s = None;
    if span < (1i128 << w) {
        let half = 1i128 << (w - 1);
        let base = (a + half).div_euclid(1i128 << w) * (1i128 << w);
        let (a1, b1) = (a - base, b - base);
        if b1 < half {
            s = Some((a1 as i64, b1 as i64));
        }
    }
    mk(N::Lin(l.c, l.t.into_boxed_slice()), w, lo, hi, s)
}

/// true if the integer value Σ equals the unsigned (resp. signed) value of the bit-vector
pub fn exact_u(l: &Lf, w: u32) -> bool {
    let (a, b) = l.range(w);
    a >= 0 && b <= mask(w) as i128
}
pub fn exact_s(l: &Lf, w: u32) -> bool {
    let (a, b) = l.range(w);
    let half = 1i128 << (w - 1);
    a >= -half && b < half
}

pub fn add(a: E, b: E) -> E {
    let w = width(a);
    let mut l = to_lin(a);
    lin_add(&mut l, b, 1, w);
    mk_lin(l, w)
}
pub fn sub(a: E, b: E) -> E {
    let w = width(a);
    let mut l = to_lin(a);
    lin_add(&mut l, b, mask(w), w);
    mk_lin(l, w)
}
pub fn mulc(a: E, k: u64) -> E {
    let w = width(a);
    let mut l = Lf { c: 0, t: vec![] };
    lin_add(&mut l, a, k & mask(w), w);
    mk_lin(l, w)
}

pub fn as_segs(e: E) -> Vec<Seg> {
    let n = nd(e);
    let w = n.w as u32;
    match &n.n {
        N::C(v) => vec![Seg { src: NONE, lo: 0, len: w as u8, k: *v }],
        N::Segs(s) => s.to_vec(),
        N::Lin(c, t) => {
            // common power of two
            let z = t.iter().map(|x| x.1.trailing_zeros()).min().unwrap();
            if z == 0 || z >= w {
                return vec![Seg { src: e, lo: 0, len: w as u8, k: 0 }];
            }
            // c = chi * 2^z + clo, low bits constant
            let clo = c & mask(z);
            let mut l = Lf { c: 0, t: vec![] };
            // inner = (Σ (k>>z)·t + (c>>z)) over w-z bits: use width w with sign-correct shift
            l.c = (sx(*c, w) >> z) as u64 & mask(w);
            for &(x, k) in t.iter() {
                let kk = (sx(k, w) >> z) as u64 & mask(w);
                lin_add(&mut l, x, kk, w);
            }
            let inner = mk_lin(l, w);
            let mut out = vec![Seg { src: NONE, lo: 0, len: z as u8, k: clo }];
            match &nd(inner).n {
                N::Segs(s) => push_range(&mut out, s, 0, w - z),
                N::C(v) => out.push(Seg { src: NONE, lo: 0, len: (w - z) as u8, k: v & mask(w - z) }),
                _ => out.push(Seg { src: inner, lo: 0, len: (w - z) as u8, k: 0 }),
            }
            out
        }
        _ => vec![Seg { src: e, lo: 0, len: w as u8, k: 0 }],
    }
}

fn push_range(out: &mut Vec<Seg>, s: &[Seg], lo: u32, len: u32) {
    let mut p = 0u32;
    let end = lo + len;
    for x in s {
        let l = x.len as u32;
        let a = p.max(lo);
        let b = (p + l).min(end);
        if a < b {
            let skip = a - p;
            let n = b - a;
            if x.src == NONE {
                out.push(Seg { src: NONE, lo: 0, len: n as u8, k: (x.k >> skip) & mask(n) });
            } else {
                out.push(Seg { src: x.src, lo: (x.lo as u32 + skip) as u8, len: n as u8, k: 0 });
            }
        }
        p += l;
    }
}

/// whether the low bits of the sum a are the sum b
fn narrow_is(a: E, b: E) -> bool {
    match (&nd(a).n, &nd(b).n) {
        (N::Lin(c, t), N::Lin(_, u)) if t.len() == u.len() => {
            let w = width(b);
            let mut l = Lf { c: *c & mask(w), t: vec![] };
            for &(x, k) in t.iter() {
                lin_add(&mut l, trunc(x, w), k & mask(w), w);
            }
            mk_lin(l, w) == b
        }
        _ => false,
    }
}

pub fn segs(v: Vec<Seg>, w: u32) -> E {
    let mut out: Vec<Seg> = Vec::with_capacity(v.len());
    let mut push = |x: Seg| {
        if x.len == 0 {
            return;
        }
        if let Some(l) = out.last_mut() {
            if l.src == NONE && x.src == NONE {
                l.k |= x.k << l.len;
                l.len += x.len;
                return;
            }
            if l.src == x.src && l.src != NONE && l.lo + l.len == x.lo {
                l.len += x.len;
                return;
            }
            // pieces of the same sum, once wide and once narrow
            if l.src != NONE && x.src != NONE && l.lo + l.len == x.lo {
                let (wl, wx) = (width(l.src), width(x.src));
                if wl > wx && narrow_is(l.src, x.src) {
                    l.len += x.len;
                    return;
                }
                if wx > wl && narrow_is(x.src, l.src) {
                    l.src = x.src;
                    l.len += x.len;
                    return;
                }
            }
        }
        out.push(x);
    };
    for x in v {
        if x.src == NONE {
            push(x);
            continue;
        }
        let n = nd(x.src);
        if let N::C(c) = n.n {
            push(Seg { src: NONE, lo: 0, len: x.len, k: (c >> x.lo) & mask(x.len as u32) });
            continue;
        }
        // known-zero high bits
        let bits = 64 - n.hi.leading_zeros();
        let (lo, len) = (x.lo as u32, x.len as u32);
        if lo + len > bits {
            let keep = bits.saturating_sub(lo).min(len);
            push(Seg { src: x.src, lo: x.lo, len: keep as u8, k: 0 });
            push(Seg { src: NONE, lo: 0, len: (len - keep) as u8, k: 0 });
        } else {
            push(x);
        }
    }
    // a byte and the sign-extended byte above it, of the same source
    if out.len() == 2 && out[0].src != NONE && out[1].src != NONE && out[1].lo == 0 {
        if let N::SExt(z) = nd(out[1].src).n {
            let zw = width(z);
            if zw < out[1].len as u32 {
                if let N::Segs(zs) = &nd(z).n {
                    if zs.len() == 1 && zs[0].src != NONE {
                        let lw = out[0].len as u32 + zw;
                        let both = segs(vec![out[0], zs[0]], lw);
                        let merged = match &nd(both).n {
                            N::Segs(b) => b.len() == 1,
                            _ => true,
                        };
                        if merged {
                            return sext(both, w);
                        }
                    }
                }
            }
        }
    }
    // re-extend a piece cut by the known-zero rule so that a whole source is recognised
    if out.len() == 1 {
        let x = out[0];
        if x.src == NONE {
            return con(x.k, w);
        }
        if x.lo == 0 && x.len as u32 == width(x.src) {
            return x.src;
        }
    }
    if out.len() == 2 && out[0].src != NONE && out[1].src == NONE && out[1].k == 0 && out[0].lo == 0 {
        let s = out[0].src;
        let n = nd(s);
        let bits = 64 - n.hi.leading_zeros();
        if out[0].len as u32 == bits && n.w as u32 == w {
            return s;
        }
        // zero extension of a narrower Lin that does not wrap
        if out[0].len as u32 == bits.min(n.w as u32) && (n.w as u32) < w {
            if let N::Lin(c, t) = &n.n {
                let lf = Lf { c: *c, t: t.to_vec() };
                if exact_u(&lf, n.w as u32) {
                    let mut l = Lf { c: sx(*c, n.w as u32) as u64 & mask(w), t: vec![] };
                    let mut ok = true;
                    for &(x, k) in t.iter() {
                        let r = irange(x);
                        if r.0 < 0 {
                            ok = false;
                            break;
                        }
                        let z = zext(x, w);
                        lin_add(&mut l, z, sx(k, n.w as u32) as u64 & mask(w), w);
                    }
                    if ok {
                        return mk_lin(l, w);
                    }
                }
            }
            if let N::Ite(c, a, b) = n.n {
                return ite(c, zext(a, w), zext(b, w));
            }
        }
    }
    if out.len() == 1 && out[0].lo == 0 {
        if let N::Ite(c, a, b) = nd(out[0].src).n {
            return ite(c, trunc(a, w), trunc(b, w));
        }
    }
    // interval
    let mut lo = 0u64;
    let mut hi = 0u64;
    let mut p = 0u32;
    for x in &out {
        let (a, b) = if x.src == NONE {
            (x.k, x.k)
        } else {
            let n = nd(x.src);
            let a = n.lo >> x.lo;
            let b = n.hi >> x.lo;
            let m = mask(x.len as u32);
            if b <= m {
                (a, b)
            } else if b - a <= m && (a & m) <= (b & m) {
                (a & m, b & m)
            } else {
                (0, m)
            }
        };
        lo |= a << p;
        hi |= b << p;
        p += x.len as u32;
    }
    debug_assert_eq!(p, w);
    mk(N::Segs(out.into_boxed_slice()), w, lo, hi, None)
}

pub fn extract(e: E, lo: u32, len: u32) -> E {
    if lo == 0 && len == width(e) {
        return e;
    }
    let mut out = vec![];
    push_range(&mut out, &as_segs(e), lo, len);
    segs(out, len)
}
pub fn trunc(e: E, w: u32) -> E {
    extract(e, 0, w)
}
pub fn zext(e: E, w: u32) -> E {
    let ew = width(e);
    if ew == w {
        return e;
    }
    let mut s = as_segs(e);
    s.push(Seg { src: NONE, lo: 0, len: (w - ew) as u8, k: 0 });
    segs(s, w)
}
pub fn sext(e: E, w: u32) -> E {
    let ew = width(e);
    if ew == w {
        return e;
    }
    let n = nd(e);
    if n.hi < 1 << (ew - 1) {
        return zext(e, w);
    }
    match &n.n {
        N::C(v) => return con(sx(*v, ew) as u64, w),
        N::Ite(c, a, b) => return ite(*c, sext(*a, w), sext(*b, w)),
        N::Lin(c, t) => {
            let lf = Lf { c: *c, t: t.to_vec() };
            if exact_s(&lf, ew) {
                let mut l = Lf { c: sx(*c, ew) as u64 & mask(w), t: vec![] };
                for &(x, k) in t.iter() {
                    let nx = nd(x);
                    let u = nx.hi - nx.lo;
                    let s = (nx.shi as i128 - nx.slo as i128) as u128;
                    let z = if u as u128 <= s { zext(x, w) } else { sext(x, w) };
                    lin_add(&mut l, z, sx(k, ew) as u64 & mask(w), w);
                }
                return mk_lin(l, w);
            }
        }
        _ => {}
    }
    let m = mask(w);
    mk(N::SExt(e), w, 0, m, Some((n.slo, n.shi)))
}

pub fn concat_bytes(v: &[E]) -> E {
    let mut s = vec![];
    for &b in v {
        s.extend(as_segs(b));
    }
    segs(s, 8 * v.len() as u32)
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = as_c(c) {
        return if v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    if let N::Not(x) = nd(c).n {
        return ite(x, b, a);
    }
    if width(a) == 1 {
        match (as_c(a), as_c(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bor(c, b),
            (Some(0), None) => return band(not(c), b),
            (None, Some(0)) => return band(c, a),
            (None, Some(1)) => return bor(not(c), a),
            _ => {}
        }
    }
    // collapse nested ites on the same condition
    let a = if let N::Ite(c2, x, _) = nd(a).n { if c2 == c { x } else { a } } else { a };
    let b = if let N::Ite(c2, _, y) = nd(b).n { if c2 == c { y } else { b } } else { b };
    if a == b {
        return a;
    }
    let (na, nb) = (nd(a), nd(b));
    mk(N::Ite(c, a, b), na.w as u32, na.lo.min(nb.lo), na.hi.max(nb.hi), Some((na.slo.min(nb.slo), na.shi.max(nb.shi))))
}

pub fn not(a: E) -> E {
    debug_assert_eq!(width(a), 1);
    match nd(a).n {
        N::C(v) => con(1 - v, 1),
        N::Not(x) => x,
        _ => mk(N::Not(a), 1, 0, 1, None),
    }
}
pub fn band(a: E, b: E) -> E {
    bin(B::And, a, b)
}
pub fn bor(a: E, b: E) -> E {
    bin(B::Or, a, b)
}

pub fn eq(a: E, b: E) -> E {
    if a == b {
        return tru();
    }
    let w = width(a);
    if let (Some(x), Some(y)) = (as_c(a), as_c(b)) {
        return con((x == y) as u64, 1);
    }
    if w == 1 {
        if let Some(x) = as_c(a) {
            return if x == 1 { b } else { not(b) };
        }
        if let Some(x) = as_c(b) {
            return if x == 1 { a } else { not(a) };
        }
        return not(bin(B::Xor, a, b));
    }
    let (na, nb) = (nd(a), nd(b));
    if na.hi < nb.lo || nb.hi < na.lo || na.shi < nb.slo || nb.shi < na.slo {
        return fls();
    }
    match (&na.n, &nb.n) {
        (N::Pat(t, i), N::Pat(u, j)) => {
            return if t == u { eq(*i, *j) } else { fls() };
        }
        (N::Ite(c, x, y), _) if (as_c(*x).is_some() || as_c(*y).is_some() || matches!(nb.n, N::Pat(..))) => {
            return ite(*c, eq(*x, b), eq(*y, b));
        }
        (_, N::Ite(c, x, y)) if (as_c(*x).is_some() || as_c(*y).is_some() || matches!(na.n, N::Pat(..))) => {
            return ite(*c, eq(*x, a), eq(*y, a));
        }
        (N::Ite(c, x, y), N::Ite(d, u, v)) if c == d => return ite(*c, eq(*x, *u), eq(*y, *v)),
        _ => {}
    }
    let mut l = to_lin(a);
    lin_add(&mut l, b, mask(w), w);
    if l.t.is_empty() {
        return con((l.c == 0) as u64, 1);
    }
    let (lo, hi) = l.range(w);
    // multiples of 2^w in [lo,hi]?
    let m = 1i128 << w;
    if lo.div_euclid(m) == hi.div_euclid(m) && lo.rem_euclid(m) != 0 {
        return fls();
    }
    // parity
    let z = l.t.iter().map(|x| x.1.trailing_zeros()).min().unwrap();
    if l.c != 0 && l.c.trailing_zeros() < z {
        return fls();
    }
    if l.t.len() == 1 {
        let (x, k) = l.t[0];
        if k == 1 || k == mask(w) {
            let v = if k == 1 { l.c.wrapping_neg() & mask(w) } else { l.c };
            let n = nd(x);
            if v < n.lo || v > n.hi {
                return fls();
            }
            if let N::Segs(s) = &n.n {
                // compare piecewise when a single source is involved
                let mut p = 0u32;
                let mut srcs = 0;
                for sg in s.iter() {
                    if sg.src == NONE {
                        if (v >> p) & mask(sg.len as u32) != sg.k {
                            return fls();
                        }
                    } else {
                        srcs += 1;
                    }
                    p += sg.len as u32;
                }
                if srcs == 1 && s.len() > 1 {
                    let mut p = 0u32;
                    for sg in s.iter() {
                        if sg.src != NONE {
                            let q = extract(sg.src, sg.lo as u32, sg.len as u32);
                            return eq(q, con(v >> p, sg.len as u32));
                        }
                        p += sg.len as u32;
                    }
                }
                if srcs > 1 {
                    let mut r = tru();
                    let mut p = 0u32;
                    for sg in s.iter() {
                        if sg.src != NONE {
                            let q = extract(sg.src, sg.lo as u32, sg.len as u32);
                            r = band(r, eq(q, con(v >> p, sg.len as u32)));
                        }
                        p += sg.len as u32;
                    }
                    return r;
                }
            }
            return mk(N::Eq(x, con(v, w)), 1, 0, 1, None);
        }
    }
    // canonical orientation: positive terms on one side
    let mut p = Lf { c: 0, t: vec![] };
    let mut q = Lf { c: 0, t: vec![] };
    for &(x, k) in &l.t {
        if sx(k, w) >= 0 {
            p.t.push((x, k));
        } else {
            q.t.push((x, k.wrapping_neg() & mask(w)));
        }
    }
    q.c = l.c.wrapping_neg() & mask(w);
    let (p, q) = (mk_lin(p, w), mk_lin(q, w));
    if as_c(q).is_none() && q < p {
        return mk(N::Eq(q, p), 1, 0, 1, None);
    }
    mk(N::Eq(p, q), 1, 0, 1, None)
}

pub fn ult(a: E, b: E) -> E {
    if a == b {
        return fls();
    }
    let (na, nb) = (nd(a), nd(b));
    let w = na.w as u32;
    if na.hi < nb.lo {
        return tru();
    }
    if na.lo >= nb.hi {
        return fls();
    }
    if w == 1 {
        return band(not(a), b);
    }
    let la = to_lin(a);
    let lb = to_lin(b);
    if exact_u(&la, w) && exact_u(&lb, w) {
        if let Some(r) = lin_less(&la, &lb, w) {
            return r;
        }
    }
    match (&na.n, &nb.n) {
        (N::Ite(c, x, y), _) if as_c(b).is_some() => return ite(*c, ult(*x, b), ult(*y, b)),
        (_, N::Ite(c, x, y)) if as_c(a).is_some() => return ite(*c, ult(a, *x), ult(a, *y)),
        _ => {}
    }
    if as_c(b) == Some(1) {
        return eq(a, con(0, w));
    }
    mk(N::Ult(a, b), 1, 0, 1, None)
}

/// la < lb over the integers, when decidable or simplifiable
fn lin_less(la: &Lf, lb: &Lf, w: u32) -> Option<E> {
    // d = la - lb over the integers (constants and coefficients read as signed)
    let mut d: Vec<(E, i128)> = la.t.iter().map(|&(e, k)| (e, sx(k, w) as i128)).collect();
    for &(e, k) in &lb.t {
        match d.iter_mut().find(|x| x.0 == e) {
            Some(x) => x.1 -= sx(k, w) as i128,
            None => d.push((e, -(sx(k, w) as i128))),
        }
    }
    d.retain(|x| x.1 != 0);
    let c = sx(la.c, w) as i128 - sx(lb.c, w) as i128;
    let (mut lo, mut hi) = (c, c);
    for &(e, k) in &d {
        let (a, b) = irange(e);
        if k >= 0 {
            lo += a * k;
            hi += b * k;
        } else {
            lo += b * k;
            hi += a * k;
        }
    }
    if hi < 0 {
        return Some(tru());
    }
    if lo >= 0 {
        return Some(fls());
    }
    // single variable:  k·x + c < 0
    if d.len() == 1 {
        let (e, k) = d[0];
        let n = nd(e);
        let r = irange(e);
        if r.0 >= 0 {
            if k > 0 {
                // x < ceil(-c / k)
                let t = (-c).div_euclid(k) + ((-c).rem_euclid(k) != 0) as i128;
                if t <= n.lo as i128 {
                    return Some(fls());
                }
                if t > n.hi as i128 {
                    return Some(tru());
                }
                if t == n.lo as i128 + 1 {
                    return Some(eq(e, con(n.lo, n.w as u32)));
                }
                return Some(mk(N::Ult(e, con(t as u64, n.w as u32)), 1, 0, 1, None));
            } else {
                // x > c / -k
                let t = c.div_euclid(-k);
                if t < n.lo as i128 {
                    return Some(tru());
                }
                if t >= n.hi as i128 {
                    return Some(fls());
                }
                // x > t  ==  not (x < t+1)
                return Some(not(mk_ult_c(e, (t + 1) as u64)));
            }
        }
    }
    // canonical:  P < Q  with positive coefficients on both sides and one constant
    let lim = 1i128 << (w.min(62));
    let mut p = Lf { c: 0, t: vec![] };
    let mut q = Lf { c: 0, t: vec![] };
    let mut g: i128 = 0;
    for &(e, k) in &d {
        if irange(e).0 < 0 {
            return None;
        }
        g = gcd(g, k.abs());
        let _ = e;
    }
    let _ = g;
    for &(e, k) in &d {
        if k > 0 {
            if k >= lim {
                return None;
            }
            p.t.push((e, k as u64));
        } else {
            if -k >= lim {
                return None;
            }
            q.t.push((e, (-k) as u64));
        }
    }
    if c >= 0 {
        if c >= lim {
            return None;
        }
        p.c = c as u64;
    } else {
        if -c >= lim {
            return None;
        }
        q.c = (-c) as u64;
    }
    p.t.sort();
    q.t.sort();
    if !exact_u(&p, w) || !exact_u(&q, w) {
        return None;
    }
    let (p, q) = (mk_lin(p, w), mk_lin(q, w));
    // orient: P < Q  or  not (Q < P) when  Q <= P ... choose by node id for sharing with the
    // negated form:  P < Q  <=>  not (Q < P + 1)
    Some(mk(N::Ult(p, q), 1, 0, 1, None))
}
fn mk_ult_c(e: E, t: u64) -> E {
    let n = nd(e);
    if t == n.lo + 1 {
        return eq(e, con(n.lo, n.w as u32));
    }
    mk(N::Ult(e, con(t, n.w as u32)), 1, 0, 1, None)
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn ule(a: E, b: E) -> E {
    not(ult(b, a))
}
pub fn slt(a: E, b: E) -> E {
    if a == b {
        return fls();
    }
    let (na, nb) = (nd(a), nd(b));
    let w = na.w as u32;
    if na.shi < nb.slo {
        return tru();
    }
    if na.slo >= nb.shi {
        return fls();
    }
    if w == 1 {
        return band(a, not(b));
    }
    if na.slo >= 0 && nb.slo >= 0 || na.shi < 0 && nb.shi < 0 {
        return ult(a, b);
    }
    let la = to_lin(a);
    let lb = to_lin(b);
    if exact_s(&la, w) && exact_s(&lb, w) {
        if let Some(r) = lin_less(&la, &lb, w) {
            return r;
        }
    }
    match (&na.n, &nb.n) {
        (N::Ite(c, x, y), _) if as_c(b).is_some() => return ite(*c, slt(*x, b), slt(*y, b)),
        (_, N::Ite(c, x, y)) if as_c(a).is_some() => return ite(*c, slt(a, *x), slt(a, *y)),
        _ => {}
    }
    mk(N::Slt(a, b), 1, 0, 1, None)
}

pub fn cbin(k: B, x: u64, y: u64, w: u32) -> u64 {
    let m = mask(w);
    m & match k {
        B::Mul => x.wrapping_mul(y),
        B::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        B::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        B::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u64
            }
        }
        B::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u64
            }
        }
        B::And => x & y,
        B::Or => x | y,
        B::Xor => x ^ y,
        B::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        B::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        B::AShr => {
            let a = sx(x, w);
            (if y >= w as u64 { a >> 63 } else { a >> y }) as u64
        }
    }
}

/// bits that may be one
fn maybe_ones(e: E) -> u64 {
    let n = nd(e);
    let hm = if n.hi == 0 { 0 } else { mask(64 - n.hi.leading_zeros()) };
    match &n.n {
        N::C(v) => *v,
        N::Segs(s) => {
            let mut p = 0;
            let mut r = 0u64;
            for x in s.iter() {
                r |= if x.src == NONE { x.k } else { mask(x.len as u32) } << p;
                p += x.len as u32;
            }
            r & hm
        }
        N::Lin(c, t) => {
            let z = t.iter().map(|x| x.1.trailing_zeros()).min().unwrap().min(c.trailing_zeros());
            hm & !mask(z)
        }
        N::Ite(_, a, b) => (maybe_ones(*a) | maybe_ones(*b)) & hm,
        _ => hm,
    }
}

/// bitwise a OP b where the segment structure decides it; None otherwise
fn bit_segs(k: B, a: E, b: E, w: u32) -> Option<E> {
    let sa = as_segs(a);
    let sb = as_segs(b);
    let mut cuts: Vec<u32> = vec![];
    for s in [&sa, &sb] {
        let mut p = 0;
        for x in s.iter() {
            cuts.push(p);
            // constant runs are cut bitwise where the bit value changes
            if x.src == NONE {
                let mut last = None;
                for i in 0..x.len as u32 {
                    let bit = x.k >> i & 1;
                    if last != Some(bit) {
                        cuts.push(p + i);
                        last = Some(bit);
                    }
                }
            }
            p += x.len as u32;
        }
    }
    cuts.push(w);
    cuts.sort();
    cuts.dedup();
    let mut out = vec![];
    for i in 0..cuts.len() - 1 {
        let (p, n) = (cuts[i], cuts[i + 1] - cuts[i]);
        let mut x = vec![];
        push_range(&mut x, &sa, p, n);
        let mut y = vec![];
        push_range(&mut y, &sb, p, n);
        let (x, y) = (x[0], y[0]);
        // bring known-zero source bits to constants
        let z = |s: Seg| -> Seg {
            if s.src != NONE {
                let bits = 64 - nd(s.src).hi.leading_zeros();
                if s.lo as u32 >= bits {
                    return Seg { src: NONE, lo: 0, len: s.len, k: 0 };
                }
            }
            s
        };
        let (x, y) = (z(x), z(y));
        let all = mask(n);
        let (c, o) = if x.src == NONE {
            (x.k, y)
        } else if y.src == NONE {
            (y.k, x)
        } else if x == y && k != B::Xor {
            out.push(x);
            continue;
        } else {
            // partially known-zero sources
            return None;
        };
        if o.src == NONE {
            let v = cbin(k, x.k, y.k, n);
            out.push(Seg { src: NONE, lo: 0, len: n as u8, k: v });
            continue;
        }
        match (k, c) {
            (B::And, 0) => out.push(Seg { src: NONE, lo: 0, len: n as u8, k: 0 }),
            (B::And, c) if c == all => out.push(o),
            (B::Or, 0) | (B::Xor, 0) => out.push(o),
            (B::Or, c) if c == all => out.push(Seg { src: NONE, lo: 0, len: n as u8, k: all }),
            _ => return None,
        }
    }
    Some(segs(out, w))
}

pub fn bin(k: B, a: E, b: E) -> E {
    let (na, nb) = (nd(a), nd(b));
    let w = na.w as u32;
    let m = mask(w);
    let (ca, cb) = (as_c(a), as_c(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return con(cbin(k, x, y, w), w);
    }
    // constants to the right for commutative operations
    if matches!(k, B::Mul | B::And | B::Or | B::Xor) && (ca.is_some() || (cb.is_none() && b < a)) {
        return bin(k, b, a);
    }
    match k {
        B::Mul => {
            if let Some(c) = cb {
                return mulc(a, c);
            }
            // one side with few values: distribute an ite
            if let N::Ite(c, x, y) = nb.n {
                return ite(c, bin(B::Mul, a, x), bin(B::Mul, a, y));
            }
            let hi = na.hi as u128 * nb.hi as u128;
            if hi <= m as u128 {
                return mk(N::Bin(k, a, b), w, (na.lo as u128 * nb.lo as u128) as u64, hi as u64, None);
            }
        }
        B::UDiv => {
            if let Some(c) = cb {
                if c == 1 {
                    return a;
                }
                if c != 0 && c.is_power_of_two() {
                    return bin(B::LShr, a, con(c.trailing_zeros() as u64, w));
                }
                if c != 0 {
                    return mk(N::Bin(k, a, b), w, na.lo / c, na.hi / c, None);
                }
            }
            if nb.lo > 0 {
                return mk(N::Bin(k, a, b), w, na.lo / nb.hi, na.hi / nb.lo, None);
            }
        }
        B::URem => {
            if let Some(c) = cb {
                if c != 0 && c.is_power_of_two() {
                    return bin(B::And, a, con(c - 1, w));
                }
                if c != 0 {
                    if na.hi < c {
                        return a;
                    }
                    return mk(N::Bin(k, a, b), w, 0, (c - 1).min(na.hi), None);
                }
            }
        }
        B::SDiv => {
            if na.slo >= 0 && nb.slo >= 0 {
                return bin(B::UDiv, a, b);
            }
        }
        B::SRem => {
            if na.slo >= 0 && nb.slo >= 0 {
                return bin(B::URem, a, b);
            }
        }
        B::And | B::Or | B::Xor => {
            if a == b {
                return if k == B::Xor { con(0, w) } else { a };
            }
            if w == 1 {
                if let Some(c) = cb {
                    return match (k, c) {
                        (B::And, 0) => fls(),
                        (B::And, _) => a,
                        (B::Or, 0) => a,
                        (B::Or, _) => tru(),
                        (_, 0) => a,
                        _ => not(a),
                    };
                }
                let neg = |x: E, y: E| matches!(nd(x).n, N::Not(z) if z == y);
                if neg(a, b) || neg(b, a) {
                    return if k == B::And { fls() } else { tru() };
                }
                return mk(N::Bin(k, a, b), 1, 0, 1, None);
            }
            if k == B::Xor && cb == Some(m) {
                // ~a = -1 - a
                return sub(con(m, w), a);
            }
            if let Some(r) = bit_segs(k, a, b, w) {
                return r;
            }
            if k != B::And && maybe_ones(a) & maybe_ones(b) == 0 {
                return add(a, b);
            }
            if let (Some(_), N::Ite(c, x, y)) = (cb, &na.n) {
                return ite(*c, bin(k, *x, b), bin(k, *y, b));
            }
            if let N::Ite(c, x, y) = na.n {
                if as_c(x).is_some() && as_c(y).is_some() {
                    return ite(c, bin(k, x, b), bin(k, y, b));
                }
            }
            if let N::Ite(c, x, y) = nb.n {
                if as_c(x).is_some() && as_c(y).is_some() {
                    return ite(c, bin(k, a, x), bin(k, a, y));
                }
            }
            let (lo, hi) = match k {
                B::And => (0, na.hi.min(nb.hi)),
                B::Or => {
                    let t = na.hi | nb.hi;
                    (na.lo.max(nb.lo), if t == 0 { 0 } else { mask(64 - t.leading_zeros()) })
                }
                _ => {
                    let t = na.hi | nb.hi;
                    (0, if t == 0 { 0 } else { mask(64 - t.leading_zeros()) })
                }
            };
            return mk(N::Bin(k, a, b), w, lo, hi, None);
        }
        B::Shl => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u64 {
                    return con(0, w);
                }
                let mut out = vec![Seg { src: NONE, lo: 0, len: c as u8, k: 0 }];
                push_range(&mut out, &as_segs(a), 0, w - c as u32);
                let r = segs(out, w);
                // prefer the linear form when nothing is shifted out
                if na.hi <= m >> c {
                    return mulc(a, 1u64 << c);
                }
                return r;
            }
        }
        B::LShr => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u64 {
                    return con(0, w);
                }
                let mut out = vec![];
                push_range(&mut out, &as_segs(a), c as u32, w - c as u32);
                out.push(Seg { src: NONE, lo: 0, len: c as u8, k: 0 });
                return segs(out, w);
            }
        }
        B::AShr => {
            if na.slo >= 0 {
                return bin(B::LShr, a, b);
            }
            if let Some(c) = cb {
                let c = c.min(w as u64 - 1);
                if c == 0 {
                    return a;
                }
                // sign-extend the upper part
                return sext(extract(a, c as u32, w - c as u32), w);
            }
        }
    }
    mk(N::Bin(k, a, b), w, 0, m, None)
}

/// variable assignment
pub struct Model {
    pub id: u64,
    pub v: Vec<u64>,
}
impl Model {
    pub fn get(&self, i: u32) -> u64 {
        let i = cx().vars[i as usize].base;
        match self.v.get(i as usize) {
            Some(&x) if x != u64::MAX => x,
            _ => cx().vars[i as usize].lo,
        }
    }
}

pub fn eval(e: E, m: &Model) -> u64 {
    let c = cx();
    if c.eval_model != m.id {
        c.eval_model = m.id;
        c.eval_gen += 1;
    }
    ev(e, m)
}
fn ev(e: E, m: &Model) -> u64 {
    let c = cx();
    if c.eval_cache.len() < c.nodes.len() {
        c.eval_cache.resize(c.nodes.len() + 4096, (0, 0));
    }
    let (g, v) = c.eval_cache[e as usize];
    if g == c.eval_gen {
        return v;
    }
    let n = nd(e);
    let w = n.w as u32;
    let r = match &n.n {
        N::C(v) => return *v,
        N::Var(i) => m.get(*i),
        N::Pat(t, i) => pat_byte(*t, ev(*i, m)) as u64,
        N::Lin(k, t) => {
            let mut s = *k;
            for &(x, kk) in t.iter() {
                s = s.wrapping_add(ev(x, m).wrapping_mul(kk));
            }
            s & mask(w)
        }
        N::Bin(k, a, b) => cbin(*k, ev(*a, m), ev(*b, m), w),
        N::SExt(a) => sx(ev(*a, m), width(*a)) as u64 & mask(w),
        N::Segs(s) => {
            let mut p = 0;
            let mut r = 0u64;
            for x in s.iter() {
                let v = if x.src == NONE { x.k } else { (ev(x.src, m) >> x.lo) & mask(x.len as u32) };
                r |= v << p;
                p += x.len as u32;
            }
            r
        }
        N::Eq(a, b) => {
            // opaque bytes compare by identity
            if let (N::Pat(..), _) | (_, N::Pat(..)) = (&nd(*a).n, &nd(*b).n) {
                panic!("comparison of an opaque byte with something else");
            }
            (ev(*a, m) == ev(*b, m)) as u64
        }
        N::Ult(a, b) => (ev(*a, m) < ev(*b, m)) as u64,
        N::Slt(a, b) => (sx(ev(*a, m), width(*a)) < sx(ev(*b, m), width(*b))) as u64,
        N::Not(a) => 1 - ev(*a, m),
        N::Ite(c, a, b) => {
            if ev(*c, m) == 1 {
                ev(*a, m)
            } else {
                ev(*b, m)
            }
        }
    };
    let c = cx();
    c.eval_cache[e as usize] = (c.eval_gen, r);
    r
}

/// Some opaque byte below e
pub fn has_pat(e: E) -> bool {
    nd(e).pat
}

pub fn show(e: E) -> String {
    show_d(e, 6)
}
fn show_d(e: E, d: u32) -> String {
    if d == 0 {
        return format!("#{}", e);
    }
    let n = nd(e);
    match &n.n {
        N::C(v) => format!("{}", sx(*v, n.w as u32)),
        N::Var(i) => cx().vars[*i as usize].name.clone(),
        N::Pat(t, i) => format!("pat{}[{}]", t, show_d(*i, d - 1)),
        N::Lin(c, t) => {
            let mut s = format!("({}", sx(*c, n.w as u32));
            for (x, k) in t.iter() {
                s += &format!(" + {}*{}", sx(*k, n.w as u32), show_d(*x, d - 1));
            }
            s + ")"
        }
        N::Bin(k, a, b) => format!("{:?}({}, {})", k, show_d(*a, d - 1), show_d(*b, d - 1)),
        N::SExt(a) => format!("sext({})", show_d(*a, d - 1)),
        N::Segs(s) => {
            let v: Vec<String> = s
                .iter()
                .map(|x| if x.src == NONE { format!("{:#x}:{}", x.k, x.len) } else { format!("{}[{}+{}]", show_d(x.src, d - 1), x.lo, x.len) })
                .collect();
            format!("{{{}}}", v.join(","))
        }
        N::Eq(a, b) => format!("{} = {}", show_d(*a, d - 1), show_d(*b, d - 1)),
        N::Ult(a, b) => format!("{} <u {}", show_d(*a, d - 1), show_d(*b, d - 1)),
        N::Slt(a, b) => format!("{} <s {}", show_d(*a, d - 1), show_d(*b, d - 1)),
        N::Not(a) => format!("!({})", show_d(*a, d - 1)),
        N::Ite(c, a, b) => format!("({} ? {} : {})", show_d(*c, d - 1), show_d(*a, d - 1), show_d(*b, d - 1)),
    }
}
