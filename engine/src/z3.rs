//! Incremental SMT solving through the z3 C API (loaded with dlopen).
use crate::expr::*;
use std::ffi::{c_char, c_void, CStr, CString};

type A = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flags: i32) -> A;
    fn dlsym(h: A, n: *const c_char) -> A;
}

macro_rules! api {
    ($($n:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $($n: unsafe extern "C" fn($($a),*) $(-> $r)?),* }
        impl Api {
            unsafe fn load(h: A) -> Api {
                Api { $($n: {
                    let p = dlsym(h, concat!(stringify!($n), "\0").as_ptr() as *const c_char);
                    assert!(!p.is_null(), "missing {}", stringify!($n));
                    std::mem::transmute(p)
                }),* }
            }
        }
    };
}
api! {
    Z3_mk_config: fn() -> A;
    Z3_mk_context: fn(A) -> A;
    Z3_set_error_handler: fn(A, Option<unsafe extern "C" fn(A, u32)>);
    Z3_mk_string_symbol: fn(A, *const c_char) -> A;
    Z3_mk_solver_for_logic: fn(A, A) -> A;
    Z3_mk_simple_solver: fn(A) -> A;
    Z3_solver_inc_ref: fn(A, A);
    Z3_solver_reset: fn(A, A);
    Z3_mk_bool_sort: fn(A) -> A;
    Z3_mk_implies: fn(A, A, A) -> A;
    Z3_solver_assert: fn(A, A, A);
    Z3_solver_check_assumptions: fn(A, A, u32, *const A) -> i32;
    Z3_solver_get_model: fn(A, A) -> A;
    Z3_solver_to_string: fn(A, A) -> *const c_char;
    Z3_solver_get_reason_unknown: fn(A, A) -> *const c_char;
    Z3_mk_params: fn(A) -> A;
    Z3_params_inc_ref: fn(A, A);
    Z3_params_set_uint: fn(A, A, A, u32);
    Z3_solver_set_params: fn(A, A, A);
    Z3_model_inc_ref: fn(A, A);
    Z3_model_dec_ref: fn(A, A);
    Z3_model_eval: fn(A, A, A, bool, *mut A) -> bool;
    Z3_get_numeral_uint64: fn(A, A, *mut u64) -> bool;
    Z3_mk_bv_sort: fn(A, u32) -> A;
    Z3_mk_const: fn(A, A, A) -> A;
    Z3_mk_unsigned_int64: fn(A, u64, A) -> A;
    Z3_inc_ref: fn(A, A);
    Z3_mk_bvadd: fn(A, A, A) -> A;
    Z3_mk_bvmul: fn(A, A, A) -> A;
    Z3_mk_bvudiv: fn(A, A, A) -> A;
    Z3_mk_bvurem: fn(A, A, A) -> A;
    Z3_mk_bvsdiv: fn(A, A, A) -> A;
    Z3_mk_bvsrem: fn(A, A, A) -> A;
    Z3_mk_bvand: fn(A, A, A) -> A;
    Z3_mk_bvor: fn(A, A, A) -> A;
    Z3_mk_bvxor: fn(A, A, A) -> A;
    Z3_mk_bvshl: fn(A, A, A) -> A;
    Z3_mk_bvlshr: fn(A, A, A) -> A;
    Z3_mk_bvashr: fn(A, A, A) -> A;
    Z3_mk_bvult: fn(A, A, A) -> A;
    Z3_mk_bvule: fn(A, A, A) -> A;
    Z3_mk_bvslt: fn(A, A, A) -> A;
    Z3_mk_eq: fn(A, A, A) -> A;
    Z3_mk_not: fn(A, A) -> A;
    Z3_mk_ite: fn(A, A, A, A) -> A;
    Z3_mk_true: fn(A) -> A;
    Z3_mk_false: fn(A) -> A;
    Z3_mk_and: fn(A, u32, *const A) -> A;
    Z3_mk_or: fn(A, u32, *const A) -> A;
    Z3_mk_xor: fn(A, A, A) -> A;
    Z3_mk_concat: fn(A, A, A) -> A;
    Z3_mk_extract: fn(A, u32, u32, A) -> A;
    Z3_mk_sign_ext: fn(A, u32, A) -> A;
    Z3_mk_zero_ext: fn(A, u32, A) -> A;
    Z3_mk_int_sort: fn(A) -> A;
    Z3_mk_int64: fn(A, i64, A) -> A;
    Z3_mk_numeral: fn(A, *const c_char, A) -> A;
    Z3_mk_add: fn(A, u32, *const A) -> A;
    Z3_mk_mul: fn(A, u32, *const A) -> A;
    Z3_mk_div: fn(A, A, A) -> A;
    Z3_mk_mod: fn(A, A, A) -> A;
    Z3_mk_lt: fn(A, A, A) -> A;
    Z3_mk_le: fn(A, A, A) -> A;
    Z3_solver_push: fn(A, A);
    Z3_solver_pop: fn(A, A, u32);
    Z3_solver_check: fn(A, A) -> i32;
}

pub struct Solver {
    z: Api,
    c: A,
    s: A,
    bv: Vec<A>,
    bo: Vec<A>,
    /// literals standing for the constraints the solver knows
    lits: std::collections::HashMap<E, A>,
    fixed: std::collections::HashMap<(u32, u64), A>,
    /// variables whose range the solver knows
    declared: Vec<bool>,
    /// the solver over the integers
    li: A,
    iv: std::collections::HashMap<E, Option<A>>,
    ib: std::collections::HashMap<E, Option<A>>,
    pub lia: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
    next_model: u64,
    pub dump: Option<(std::path::PathBuf, u64, u64)>,
    seen: std::collections::HashMap<E, Vec<u32>>,
}

#[derive(Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

impl std::fmt::Debug for Model {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Model")
    }
}

unsafe extern "C" fn on_err(_c: A, code: u32) {
    eprintln!("z3 error {}", code);
    std::process::abort();
}

impl Solver {
    pub fn new(lib: &str, rlimit: u32) -> Solver {
        unsafe {
            let p = CString::new(lib).unwrap();
            let h = dlopen(p.as_ptr(), 2);
            assert!(!h.is_null(), "cannot load {}", lib);
            let z = Api::load(h);
            let c = (z.Z3_mk_context)((z.Z3_mk_config)());
            (z.Z3_set_error_handler)(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = (z.Z3_mk_solver_for_logic)(c, (z.Z3_mk_string_symbol)(c, l.as_ptr()));
            (z.Z3_solver_inc_ref)(c, s);
            if rlimit > 0 {
                let p = (z.Z3_mk_params)(c);
                (z.Z3_params_inc_ref)(c, p);
                let n = CString::new("rlimit").unwrap();
                (z.Z3_params_set_uint)(c, p, (z.Z3_mk_string_symbol)(c, n.as_ptr()), rlimit);
                (z.Z3_solver_set_params)(c, s, p);
            }
            let li = (z.Z3_mk_simple_solver)(c);
            (z.Z3_solver_inc_ref)(c, li);
            {
                let p = (z.Z3_mk_params)(c);
                (z.Z3_params_inc_ref)(c, p);
                let n = CString::new("rlimit").unwrap();
                (z.Z3_params_set_uint)(c, p, (z.Z3_mk_string_symbol)(c, n.as_ptr()), 2_000_000);
                (z.Z3_solver_set_params)(c, li, p);
            }
            Solver {
                li,
                iv: Default::default(),
                ib: Default::default(),
                lia: 0,
                z,
                c,
                s,
                bv: vec![],
                bo: vec![],
                lits: Default::default(),
                fixed: Default::default(),
                declared: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
                max_time: 0.0,
                next_model: 1,
                dump: None,
                seen: Default::default(),
            }
        }
    }

    fn keep(&mut self, a: A) -> A {
        unsafe { (self.z.Z3_inc_ref)(self.c, a) };
        a
    }

    fn bool_ast(&mut self, e: E) -> A {
        if self.bo.len() <= e as usize {
            self.bo.resize(cx().nodes.len() + 1024, std::ptr::null_mut());
        }
        if !self.bo[e as usize].is_null() {
            return self.bo[e as usize];
        }
        let n = nd(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match &n.n {
                N::C(0) => (self.z.Z3_mk_false)(c),
                N::C(_) => (self.z.Z3_mk_true)(c),
                N::Eq(a, b) => {
                    let (x, y) = (self.bv_ast(*a), self.bv_ast(*b));
                    (self.z.Z3_mk_eq)(c, x, y)
                }
                N::Ult(a, b) => {
                    let (x, y) = (self.bv_ast(*a), self.bv_ast(*b));
                    (self.z.Z3_mk_bvult)(c, x, y)
                }
                N::Slt(a, b) => {
                    let (x, y) = (self.bv_ast(*a), self.bv_ast(*b));
                    (self.z.Z3_mk_bvslt)(c, x, y)
                }
                N::Not(a) => {
                    let x = self.bool_ast(*a);
                    (self.z.Z3_mk_not)(c, x)
                }
                N::Bin(k, a, b) => {
                    let v = [self.bool_ast(*a), self.bool_ast(*b)];
                    match k {
                        B::And => (self.z.Z3_mk_and)(c, 2, v.as_ptr()),
                        B::Or => (self.z.Z3_mk_or)(c, 2, v.as_ptr()),
                        B::Xor => (self.z.Z3_mk_xor)(c, v[0], v[1]),
                        _ => panic!("1-bit {:?}", k),
                    }
                }
                N::Ite(k, a, b) => {
                    let (k, x, y) = (self.bool_ast(*k), self.bool_ast(*a), self.bool_ast(*b));
                    (self.z.Z3_mk_ite)(c, k, x, y)
                }
                _ => {
                    let x = self.bv_ast(e);
                    let s = (self.z.Z3_mk_bv_sort)(c, 1);
                    let one = (self.z.Z3_mk_unsigned_int64)(c, 1, s);
                    (self.z.Z3_mk_eq)(c, x, one)
                }
            }
        };
        let r = self.keep(r);
        self.bo[e as usize] = r;
        r
    }

    fn num(&mut self, v: u64, w: u32) -> A {
        unsafe {
            let s = (self.z.Z3_mk_bv_sort)(self.c, w);
            (self.z.Z3_mk_unsigned_int64)(self.c, v, s)
        }
    }

    fn bv_ast(&mut self, e: E) -> A {
        if self.bv.len() <= e as usize {
            self.bv.resize(cx().nodes.len() + 1024, std::ptr::null_mut());
        }
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let n = nd(e);
        let w = n.w as u32;
        let c = self.c;
        let r = unsafe {
            match &n.n {
                N::C(v) => self.num(*v, w),
                N::Var(i) => {
                    let i = &cx().vars[*i as usize].base;
                    let vi = &cx().vars[*i as usize];
                    if vi.e != e {
                        let r = self.bv_ast(vi.e);
                        self.bv[e as usize] = r;
                        return r;
                    }
                    // only as many bits as the range needs
                    let bits = (64 - vi.hi.leading_zeros()).max(1).min(w);
                    let nm = CString::new(format!("{}!{}", vi.name, i)).unwrap();
                    let s = (self.z.Z3_mk_bv_sort)(c, bits);
                    let x = (self.z.Z3_mk_const)(c, (self.z.Z3_mk_string_symbol)(c, nm.as_ptr()), s);
                    if bits < w {
                        (self.z.Z3_mk_zero_ext)(c, w - bits, x)
                    } else {
                        x
                    }
                }
                N::Pat(..) => panic!("opaque data byte reached the solver"),
                N::Lin(k, t) => {
                    let mut acc: Option<A> = None;
                    for &(x, kk) in t.iter() {
                        let a = self.bv_ast(x);
                        let term = if kk == 1 {
                            a
                        } else {
                            let k = self.num(kk, w);
                            (self.z.Z3_mk_bvmul)(c, k, a)
                        };
                        acc = Some(match acc {
                            None => term,
                            Some(p) => (self.z.Z3_mk_bvadd)(c, p, term),
                        });
                    }
                    let mut r = acc.unwrap();
                    if *k != 0 {
                        let k = self.num(*k, w);
                        r = (self.z.Z3_mk_bvadd)(c, r, k);
                    }
                    r
                }
                N::Bin(k, a, b) if w > 1 => {
                    let (x, y) = (self.bv_ast(*a), self.bv_ast(*b));
                    let f = match k {
                        B::Mul => self.z.Z3_mk_bvmul,
                        B::UDiv => self.z.Z3_mk_bvudiv,
                        B::URem => self.z.Z3_mk_bvurem,
                        B::SDiv => self.z.Z3_mk_bvsdiv,
                        B::SRem => self.z.Z3_mk_bvsrem,
                        B::And => self.z.Z3_mk_bvand,
                        B::Or => self.z.Z3_mk_bvor,
                        B::Xor => self.z.Z3_mk_bvxor,
                        B::Shl => self.z.Z3_mk_bvshl,
                        B::LShr => self.z.Z3_mk_bvlshr,
                        B::AShr => self.z.Z3_mk_bvashr,
                    };
                    f(c, x, y)
                }
                N::SExt(a) => {
                    let x = self.bv_ast(*a);
                    (self.z.Z3_mk_sign_ext)(c, w - width(*a), x)
                }
                N::Segs(s) => {
                    let mut acc: Option<A> = None;
                    for x in s.iter() {
                        let p = if x.src == NONE {
                            self.num(x.k, x.len as u32)
                        } else {
                            let a = self.bv_ast(x.src);
                            if x.lo == 0 && x.len as u32 == width(x.src) {
                                a
                            } else {
                                (self.z.Z3_mk_extract)(c, x.lo as u32 + x.len as u32 - 1, x.lo as u32, a)
                            }
                        };
                        acc = Some(match acc {
                            None => p,
                            Some(l) => (self.z.Z3_mk_concat)(c, p, l),
                        });
                    }
                    acc.unwrap()
                }
                N::Ite(k, a, b) if w > 1 => {
                    let (k, x, y) = (self.bool_ast(*k), self.bv_ast(*a), self.bv_ast(*b));
                    (self.z.Z3_mk_ite)(c, k, x, y)
                }
                _ => {
                    let b = self.bool_ast(e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    (self.z.Z3_mk_ite)(c, b, o, z)
                }
            }
        };
        let r = self.keep(r);
        self.bv[e as usize] = r;
        r
    }

    fn vars_of(&mut self, e: E) -> Vec<u32> {
        if let Some(v) = self.seen.get(&e) {
            return v.clone();
        }
        let mut v: Vec<u32> = match &nd(e).n {
            N::C(_) => vec![],
            N::Var(i) => vec![cx().vars[*i as usize].base],
            N::Pat(_, i) => self.vars_of(*i),
            N::Lin(_, t) => t.iter().flat_map(|x| self.vars_of(x.0)).collect(),
            N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => {
                let mut v = self.vars_of(*a);
                v.extend(self.vars_of(*b));
                v
            }
            N::SExt(a) | N::Not(a) => self.vars_of(*a),
            N::Segs(s) => s.iter().filter(|x| x.src != NONE).flat_map(|x| self.vars_of(x.src)).collect(),
            N::Ite(c, a, b) => {
                let mut v = self.vars_of(*c);
                v.extend(self.vars_of(*a));
                v.extend(self.vars_of(*b));
                v
            }
        };
        v.sort();
        v.dedup();
        self.seen.insert(e, v.clone());
        v
    }

    /// states the range of every variable of e
    fn declare(&mut self, e: E) {
        for v in self.vars_of(e) {
            if self.declared.len() <= v as usize {
                self.declared.resize(v as usize + 64, false);
            }
            if !self.declared[v as usize] {
                self.declared[v as usize] = true;
                let vi = &cx().vars[v as usize];
                let x = self.bv_ast(vi.e);
                let w = vi.w as u32;
                unsafe {
                    if vi.lo > 0 {
                        let k = self.num(vi.lo, w);
                        let a = (self.z.Z3_mk_bvule)(self.c, k, x);
                        (self.z.Z3_solver_assert)(self.c, self.s, a);
                    }
                    if vi.hi == 0 || (vi.hi != u64::MAX && (vi.hi + 1) & vi.hi != 0) {
                        let k = self.num(vi.hi, w);
                        let a = (self.z.Z3_mk_bvule)(self.c, x, k);
                        (self.z.Z3_solver_assert)(self.c, self.s, a);
                    }
                }
            }
        }
    }

    /// a literal that implies the range of a narrowed variable
    fn range_literal(&mut self, e: E) -> A {
        if let Some(l) = self.lits.get(&e) {
            return *l;
        }
        self.declare(e);
        let x = self.bv_ast(e);
        let (lo, hi, w) = (nd(e).lo, nd(e).hi, width(e));
        unsafe {
            let nm = CString::new(format!("r!{}", e)).unwrap();
            let s = (self.z.Z3_mk_bool_sort)(self.c);
            let l = (self.z.Z3_mk_const)(self.c, (self.z.Z3_mk_string_symbol)(self.c, nm.as_ptr()), s);
            let (a, b) = (self.num(lo, w), self.num(hi, w));
            for c in [(self.z.Z3_mk_bvule)(self.c, a, x), (self.z.Z3_mk_bvule)(self.c, x, b)] {
                let i = (self.z.Z3_mk_implies)(self.c, l, c);
                (self.z.Z3_solver_assert)(self.c, self.s, i);
            }
            self.lits.insert(e, l);
            l
        }
    }

    fn fixed_literal(&mut self, v: u32, k: u64) -> A {
        if let Some(l) = self.fixed.get(&(v, k)) {
            return *l;
        }
        let e = cx().vars[v as usize].e;
        self.declare(e);
        let x = self.bv_ast(e);
        unsafe {
            let nm = CString::new(format!("f!{}!{}", v, k)).unwrap();
            let s = (self.z.Z3_mk_bool_sort)(self.c);
            let l = (self.z.Z3_mk_const)(self.c, (self.z.Z3_mk_string_symbol)(self.c, nm.as_ptr()), s);
            let n = self.num(k, width(e));
            let q = (self.z.Z3_mk_eq)(self.c, x, n);
            let i = (self.z.Z3_mk_implies)(self.c, l, q);
            (self.z.Z3_solver_assert)(self.c, self.s, i);
            self.fixed.insert((v, k), l);
            l
        }
    }

    /// a literal that implies e
    fn literal(&mut self, e: E) -> A {
        if let Some(l) = self.lits.get(&e) {
            return *l;
        }
        self.declare(e);
        let a = self.bool_ast(e);
        unsafe {
            let nm = CString::new(format!("p!{}", e)).unwrap();
            let s = (self.z.Z3_mk_bool_sort)(self.c);
            let l = (self.z.Z3_mk_const)(self.c, (self.z.Z3_mk_string_symbol)(self.c, nm.as_ptr()), s);
            let i = (self.z.Z3_mk_implies)(self.c, l, a);
            (self.z.Z3_solver_assert)(self.c, self.s, i);
            self.lits.insert(e, l);
            l
        }
    }

    fn int(&mut self, v: i128) -> A {
        unsafe {
            let s = (self.z.Z3_mk_int_sort)(self.c);
            let n = CString::new(v.to_string()).unwrap();
            (self.z.Z3_mk_numeral)(self.c, n.as_ptr(), s)
        }
    }
    fn int_add(&mut self, v: Vec<A>) -> A {
        if v.len() == 1 {
            return v[0];
        }
        unsafe { (self.z.Z3_mk_add)(self.c, v.len() as u32, v.as_ptr()) }
    }
    fn int_mul(&mut self, k: i128, x: A) -> A {
        if k == 1 {
            return x;
        }
        let v = [self.int(k), x];
        unsafe { (self.z.Z3_mk_mul)(self.c, 2, v.as_ptr()) }
    }
    /// is the interval of irange(e) the unsigned one?
    fn is_u(e: E) -> bool {
        let n = nd(e);
        irange(e) == (n.lo as i128, n.hi as i128)
    }
    /// e as an integer, in the reading irange(e) gives
    fn ia(&mut self, e: E) -> Option<A> {
        if let Some(r) = self.iv.get(&e) {
            return *r;
        }
        let r = self.ia1(e);
        if let Some(a) = r {
            self.keep(a);
        }
        self.iv.insert(e, r);
        r
    }
    fn ia1(&mut self, e: E) -> Option<A> {
        let n = nd(e);
        let w = n.w as u32;
        if let N::C(v) = n.n {
            return Some(self.int(if Self::is_u(e) { v as i128 } else { sx(v, w) as i128 }));
        }
        if let N::Var(i) = n.n {
            let i = cx().vars[i as usize].base;
            if !Self::is_u(e) {
                return None;
            }
            let vi = &cx().vars[i as usize];
            if vi.e != e {
                return self.ia(vi.e);
            }
            unsafe {
                let s = (self.z.Z3_mk_int_sort)(self.c);
                let nm = CString::new(format!("{}!{}", vi.name, i)).unwrap();
                return Some((self.z.Z3_mk_const)(self.c, (self.z.Z3_mk_string_symbol)(self.c, nm.as_ptr()), s));
            }
        }
        if w == 1 && !matches!(n.n, N::Segs(_) | N::SExt(_) | N::Lin(..)) {
            let b = self.ibool(e)?;
            let (o, z) = (self.int(1), self.int(0));
            if !Self::is_u(e) {
                return None;
            }
            return Some(unsafe { (self.z.Z3_mk_ite)(self.c, b, o, z) });
        }
        let full = 1i128 << w;
        // a value in the unsigned reading, brought to the reading of e
        match &n.n {
            N::Lin(c, t) => {
                let l = Lf { c: *c, t: t.to_vec() };
                let (a, b) = l.range(w);
                let (tmin, tmax) = if Self::is_u(e) { (0, full - 1) } else { (-(full / 2), full / 2 - 1) };
                let base = (a - tmin).div_euclid(full) * full;
                if a - base < tmin || b - base > tmax {
                    return None;
                }
                let mut v = vec![];
                for &(x, k) in t.iter() {
                    let y = self.ia(x)?;
                    v.push(self.int_mul(sx(k, w) as i128, y));
                }
                let k = sx(*c, w) as i128 - base;
                if k != 0 {
                    v.push(self.int(k));
                }
                Some(self.int_add(v))
            }
            N::Segs(s) => {
                if !Self::is_u(e) {
                    return None;
                }
                let mut v = vec![];
                let mut p = 0u32;
                for x in s.iter() {
                    let k = 1i128 << p;
                    p += x.len as u32;
                    if x.src == NONE {
                        if x.k != 0 {
                            v.push(self.int(x.k as i128 * k));
                        }
                        continue;
                    }
                    let mut y = self.ua(x.src)?;
                    let mut hi = nd(x.src).hi as i128;
                    if x.lo > 0 {
                        let d = self.int(1i128 << x.lo);
                        y = unsafe { (self.z.Z3_mk_div)(self.c, y, d) };
                        hi >>= x.lo;
                    }
                    if hi >= 1i128 << x.len {
                        let d = self.int(1i128 << x.len);
                        y = unsafe { (self.z.Z3_mk_mod)(self.c, y, d) };
                    }
                    v.push(self.int_mul(k, y));
                }
                if v.is_empty() {
                    v.push(self.int(0));
                }
                Some(self.int_add(v))
            }
            N::SExt(a) => {
                let x = self.sa(*a)?;
                if !Self::is_u(e) {
                    return Some(x);
                }
                if n.slo >= 0 {
                    return Some(x);
                }
                None
            }
            N::Bin(k, a, b) => {
                let kb = as_c(*b)?;
                if kb == 0 || !Self::is_u(e) {
                    return None;
                }
                let x = self.ua(*a)?;
                let d = self.int(kb as i128);
                match k {
                    B::UDiv => Some(unsafe { (self.z.Z3_mk_div)(self.c, x, d) }),
                    B::URem => Some(unsafe { (self.z.Z3_mk_mod)(self.c, x, d) }),
                    _ => None,
                }
            }
            N::Ite(c, a, b) => {
                let c = self.ibool(*c)?;
                let (x, y) = if Self::is_u(e) { (self.ua(*a)?, self.ua(*b)?) } else { (self.sa(*a)?, self.sa(*b)?) };
                Some(unsafe { (self.z.Z3_mk_ite)(self.c, c, x, y) })
            }
            _ => None,
        }
    }
    fn ua(&mut self, e: E) -> Option<A> {
        let x = self.ia(e)?;
        if Self::is_u(e) || irange(e).0 >= 0 {
            return Some(x);
        }
        let (z, f) = (self.int(0), self.int(1i128 << width(e)));
        let neg = unsafe { (self.z.Z3_mk_lt)(self.c, x, z) };
        let y = self.int_add(vec![x, f]);
        Some(unsafe { (self.z.Z3_mk_ite)(self.c, neg, y, x) })
    }
    fn sa(&mut self, e: E) -> Option<A> {
        let x = self.ia(e)?;
        let half = 1i128 << (width(e) - 1);
        if !Self::is_u(e) || irange(e).1 < half {
            return Some(x);
        }
        let (h, f) = (self.int(half), self.int(-2 * half));
        let small = unsafe { (self.z.Z3_mk_lt)(self.c, x, h) };
        let y = self.int_add(vec![x, f]);
        Some(unsafe { (self.z.Z3_mk_ite)(self.c, small, x, y) })
    }
    fn ibool(&mut self, e: E) -> Option<A> {
        if let Some(r) = self.ib.get(&e) {
            return *r;
        }
        let r = self.ibool1(e);
        if let Some(a) = r {
            self.keep(a);
        }
        self.ib.insert(e, r);
        r
    }
    fn ibool1(&mut self, e: E) -> Option<A> {
        let n = nd(e);
        if n.w != 1 {
            return None;
        }
        let c = self.c;
        match &n.n {
            N::C(0) => Some(unsafe { (self.z.Z3_mk_false)(c) }),
            N::C(_) => Some(unsafe { (self.z.Z3_mk_true)(c) }),
            N::Eq(a, b) => {
                if nd(*a).pat || nd(*b).pat {
                    return None;
                }
                let (x, y) = if Self::is_u(*a) == Self::is_u(*b) { (self.ia(*a)?, self.ia(*b)?) } else { (self.ua(*a)?, self.ua(*b)?) };
                Some(unsafe { (self.z.Z3_mk_eq)(c, x, y) })
            }
            N::Ult(a, b) => {
                let (x, y) = (self.ua(*a)?, self.ua(*b)?);
                Some(unsafe { (self.z.Z3_mk_lt)(c, x, y) })
            }
            N::Slt(a, b) => {
                let (x, y) = (self.sa(*a)?, self.sa(*b)?);
                Some(unsafe { (self.z.Z3_mk_lt)(c, x, y) })
            }
            N::Not(a) => {
                let x = self.ibool(*a)?;
                Some(unsafe { (self.z.Z3_mk_not)(c, x) })
            }
            N::Bin(k, a, b) => {
                let v = [self.ibool(*a)?, self.ibool(*b)?];
                unsafe {
                    Some(match k {
                        B::And => (self.z.Z3_mk_and)(c, 2, v.as_ptr()),
                        B::Or => (self.z.Z3_mk_or)(c, 2, v.as_ptr()),
                        B::Xor => (self.z.Z3_mk_xor)(c, v[0], v[1]),
                        _ => return None,
                    })
                }
            }
            N::Ite(k, a, b) => {
                let (k, x, y) = (self.ibool(*k)?, self.ibool(*a)?, self.ibool(*b)?);
                Some(unsafe { (self.z.Z3_mk_ite)(c, k, x, y) })
            }
            _ => {
                let x = self.ua(e)?;
                let o = self.int(1);
                Some(unsafe { (self.z.Z3_mk_eq)(c, x, o) })
            }
        }
    }

    /// path ∧ extra over the integers. None: not decided here
    fn check_int(&mut self, path: &[E], ranges: &[(u32, u64, u64)], extra: E, vars: &[u32], old: &Model) -> Option<Res> {
        let ex = self.ibool(extra)?;
        unsafe {
            (self.z.Z3_solver_push)(self.c, self.li);
            (self.z.Z3_solver_assert)(self.c, self.li, ex);
            for &v in vars {
                let vi = &cx().vars[v as usize];
                let (lo, hi) = match ranges.iter().find(|r| r.0 == v) {
                    Some(r) => (r.1, r.2),
                    None => (vi.lo, vi.hi),
                };
                let Some(x) = self.ia(vi.e) else { continue };
                let (l, h) = (self.int(lo as i128), self.int(hi as i128));
                let a = (self.z.Z3_mk_le)(self.c, l, x);
                (self.z.Z3_solver_assert)(self.c, self.li, a);
                let a = (self.z.Z3_mk_le)(self.c, x, h);
                (self.z.Z3_solver_assert)(self.c, self.li, a);
            }
            for &p in path {
                if let Some(a) = self.ibool(p) {
                    (self.z.Z3_solver_assert)(self.c, self.li, a);
                }
            }
            let r = (self.z.Z3_solver_check)(self.c, self.li);
            let res = match r {
                -1 => Some(Res::Unsat),
                1 => {
                    let m = (self.z.Z3_solver_get_model)(self.c, self.li);
                    (self.z.Z3_model_inc_ref)(self.c, m);
                    let mut v = old.v.clone();
                    v.resize(cx().vars.len(), u64::MAX);
                    for &i in vars {
                        if let Some(x) = self.ia(cx().vars[i as usize].e) {
                            let mut o: A = std::ptr::null_mut();
                            if (self.z.Z3_model_eval)(self.c, m, x, true, &mut o) {
                                (self.z.Z3_inc_ref)(self.c, o);
                                let mut n = 0u64;
                                if (self.z.Z3_get_numeral_uint64)(self.c, o, &mut n) {
                                    v[i as usize] = n;
                                }
                            }
                        }
                    }
                    (self.z.Z3_model_dec_ref)(self.c, m);
                    self.next_model += 1;
                    let m = Model { id: self.next_model, v };
                    let ok = eval(extra, &m) == 1
                        && path.iter().all(|p| eval(*p, &m) == 1)
                        && vars.iter().all(|&v| {
                            let x = m.get(v);
                            match ranges.iter().find(|r| r.0 == v) {
                                Some(r) => r.1 <= x && x <= r.2,
                                None => true,
                            }
                        });
                    if ok {
                        Some(Res::Sat(m))
                    } else {
                        None
                    }
                }
                _ => None,
            };
            self.maybe_dump(self.li, r, None);
            (self.z.Z3_solver_pop)(self.c, self.li, 1);
            res
        }
    }

    fn maybe_dump(&mut self, s: A, r: i32, tail: Option<String>) {
        if let Some((dir, every, left)) = &mut self.dump {
            if *left > 0 && self.queries % *every == 0 {
                *left -= 1;
                let t = unsafe { CStr::from_ptr((self.z.Z3_solver_to_string)(self.c, s)) }.to_string_lossy().into_owned();
                let f = dir.join(format!("q-{}-{}.smt2", std::process::id(), self.queries));
                let exp = match r {
                    1 => "sat",
                    -1 => "unsat",
                    _ => "unknown",
                };
                let logic = if tail.is_some() { "QF_BV" } else { "ALL" };
                let _ = std::fs::write(f, format!("(set-logic {})\n; expect {}\n{}\n{}(check-sat)\n", logic, exp, t, tail.unwrap_or_default()));
            }
        }
    }

    /// Is path ∧ ranges ∧ extra satisfiable? (old satisfies path ∧ ranges)
    pub fn check(&mut self, path: &[E], ranges: &[(u32, u64, u64)], extra: E, old: &Model) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        // only what is connected to extra matters: the rest is satisfied by old
        let mut vars = self.vars_of(extra);
        let mut rest: Vec<E> = path.to_vec();
        let mut used: Vec<E> = vec![];
        loop {
            let n = used.len();
            let mut left = vec![];
            for e in rest {
                let v = self.vars_of(e);
                if v.iter().any(|x| vars.binary_search(x).is_ok()) {
                    vars.extend(v);
                    vars.sort();
                    vars.dedup();
                    used.push(e);
                } else {
                    left.push(e);
                }
            }
            rest = left;
            if used.len() == n {
                break;
            }
        }
        let rs: Vec<(u32, u64, u64)> = ranges.iter().filter(|r| vars.binary_search(&r.0).is_ok()).copied().collect();
        let res = match self.check_int(&used, &rs, extra, &vars, old) {
            Some(r) => {
                self.lia += 1;
                r
            }
            None => self.check_bv(&used, &rs, extra, &vars, old),
        };
        match res {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            _ => {}
        }
        let dt = t0.elapsed().as_secs_f64();
        if dt > 0.3 && std::env::var("PSYM_SLOW").is_ok() {
            eprintln!("SLOW {:.2} {} :: {}", dt, show(extra), used.iter().map(|e| show(*e)).collect::<Vec<_>>().join(" ; "));
        }
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        res
    }

    fn check_bv(&mut self, path: &[E], ranges: &[(u32, u64, u64)], extra: E, vars: &[u32], old: &Model) -> Res {
        if self.lits.len() > 4000 {
            // keep the instance small
            unsafe { (self.z.Z3_solver_reset)(self.c, self.s) };
            self.lits.clear();
            self.fixed.clear();
            self.declared.clear();
        }
        let mut ls: Vec<A> = Vec::with_capacity(path.len() + 1);
        for &e in path {
            ls.push(self.literal(e));
        }
        for &(v, lo, hi) in ranges {
            let e = alias(v, lo, hi);
            if as_c(e).is_some() {
                // (a fixed variable: an equation)
                let l = self.fixed_literal(v, lo);
                ls.push(l);
            } else {
                ls.push(self.range_literal(e));
            }
        }
        ls.push(self.literal(extra));
        let r = unsafe { (self.z.Z3_solver_check_assumptions)(self.c, self.s, ls.len() as u32, ls.as_ptr()) };
        if self.dump.is_some() {
            let tail = path.iter().chain([&extra]).map(|e| format!("(assert p!{})\n", e)).chain(ranges.iter().map(|&(v, lo, hi)| if lo == hi { format!("(assert f!{}!{})\n", v, lo) } else { format!("(assert r!{})\n", alias(v, lo, hi)) })).collect::<String>();
            self.maybe_dump(self.s, r, Some(tail));
        }
        match r {
            1 => unsafe {
                let m = (self.z.Z3_solver_get_model)(self.c, self.s);
                (self.z.Z3_model_inc_ref)(self.c, m);
                let mut v = old.v.clone();
                v.resize(cx().vars.len(), u64::MAX);
                for &i in vars {
                    let i = i as usize;
                    if i < self.declared.len() && self.declared[i] {
                        let x = self.bv_ast(cx().vars[i].e);
                        let mut o: A = std::ptr::null_mut();
                        if (self.z.Z3_model_eval)(self.c, m, x, true, &mut o) {
                            (self.z.Z3_inc_ref)(self.c, o);
                            let mut n = 0u64;
                            if (self.z.Z3_get_numeral_uint64)(self.c, o, &mut n) {
                                v[i] = n;
                            }
                        }
                    }
                }
                (self.z.Z3_model_dec_ref)(self.c, m);
                self.next_model += 1;
                let m = Model { id: self.next_model, v };
                if eval(extra, &m) != 1 || path.iter().any(|p| eval(*p, &m) != 1) {
                    return Res::Unknown("the model does not satisfy the query".into());
                }
                Res::Sat(m)
            },
            -1 => Res::Unsat,
            _ => Res::Unknown(unsafe { CStr::from_ptr((self.z.Z3_solver_get_reason_unknown)(self.c, self.s)) }.to_string_lossy().into_owned()),
        }
    }
    pub fn fresh_model_id(&mut self) -> u64 {
        self.next_model += 1;
        self.next_model
    }
}
