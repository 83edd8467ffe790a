//! LLVM textual IR: types, lazily parsed functions, globals.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Int(u16),
    Ptr,
    F32,
    F64,
    X87,
    Void,
    Label,
    Meta,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Named(String),
    Opaque,
    Fn,
}

/// A runtime value.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(crate::expr::E),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::C(a), V::C(b)) => a == b,
            (V::S(a), V::S(b)) => a == b,
            (V::W(a), V::W(b)) => a == b,
            (V::A(a), V::A(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinK {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred {
    False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt, PtrToInt, IntToPtr, BitCast,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwK {
    Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin,
}

#[derive(Debug)]
pub struct Edge {
    pub to: u32,
    pub moves: Box<[(u32, Op)]>,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Ind(Op),
    Asm(String),
}

#[derive(Debug)]
pub enum I {
    /// w: 1..=64
    Bin { k: BinK, w: u8, d: u32, a: Op, b: Op },
    BinT { k: BinK, ty: TyId, d: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u8, d: u32, a: Op, b: Op },
    IcmpT { p: Pred, ty: TyId, d: u32, a: Op, b: Op },
    Fcmp { p: FPred, dbl: bool, d: u32, a: Op, b: Op },
    FNeg { dbl: bool, d: u32, a: Op },
    /// w bits scalar load
    Load { w: u8, d: u32, p: Op },
    LoadT { ty: TyId, d: u32, p: Op },
    Store { w: u8, v: Op, p: Op },
    StoreT { ty: TyId, v: Op, p: Op },
    Gep { d: u32, base: Op, off: u64, idx: Box<[(Op, u8, u64)]> },
    GepV { d: u32, ty: TyId, base: Op, idx: Op, scale: u64 },
    Alloca { d: u32, size: u64, n: Op, align: u64 },
    Cast { k: CastK, d: u32, from: TyId, to: TyId, a: Op },
    /// fast casts between ints <= 64 bits
    CastI { k: CastK, d: u32, fw: u8, tw: u8, a: Op },
    Select { d: u32, ty: TyId, c: Op, a: Op, b: Op, vec: bool },
    Extract { d: u32, a: Op, idx: Box<[u32]> },
    Insert { d: u32, a: Op, v: Op, idx: Box<[u32]> },
    ExtElt { d: u32, a: Op, i: Op },
    InsElt { d: u32, a: Op, v: Op, i: Op },
    Shuffle { d: u32, a: Op, b: Op, n: u32, mask: Box<[i32]> },
    Rmw { k: RmwK, w: u8, d: u32, p: Op, v: Op },
    Cmpxchg { w: u8, d: u32, p: Op, c: Op, n: Op },
    Call { d: u32, ret: TyId, f: Callee, args: Box<[(TyId, Op)]>, nfixed: u32 },
    Mov { d: u32, a: Op },
    Br(Edge),
    CondBr { c: Op, t: Edge, f: Edge },
    Switch { w: u8, v: Op, cases: Box<[(u128, Edge)]>, def: Edge },
    Ret(Option<Op>),
    Unreachable,
    Nop,
}

pub const NOREG: u32 = u32::MAX;

pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<I>,
    pub vararg: bool,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<(usize, usize)>, // text range
    pub tls: bool,
    pub constant: bool,
    pub addr: u64, // for tls: offset
    pub size: u64,
    pub external: bool,
}

pub struct FnDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // text range of the whole define
    pub parsed: Option<&'static Func>,
}

pub struct Module {
    pub text: &'static [u8],
    pub tys: Vec<Ty>,
    pub tymap: HashMap<Ty, TyId>,
    pub named: HashMap<String, (usize, usize)>,
    pub named_ty: HashMap<String, TyId>,
    pub sizes: Vec<Option<(u64, u64)>>,
    pub funcs: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gl_by_name: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub tls_size: u64,
    pub i1: TyId,
    pub i8: TyId,
    pub i32: TyId,
    pub i64: TyId,
    pub ptr: TyId,
    pub void: TyId,
}

pub const FN_BASE: u64 = 0x0800_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

pub struct P<'a> {
    pub t: &'a [u8],
    pub p: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    pub fn ws(&mut self) {
        while self.p < self.t.len() {
            let c = self.t[self.p];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.p += 1;
            } else if c == b';' {
                while self.p < self.t.len() && self.t[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.t.len() { self.t[self.p] } else { 0 }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected {:?}", c as char));
        }
    }
    pub fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(200);
        let b = (self.p + 100).min(self.t.len());
        panic!("parse error: {} at <<{}>>HERE<<{}>>", m, String::from_utf8_lossy(&self.t[a..self.p]), String::from_utf8_lossy(&self.t[self.p..b]));
    }
    /// identifier-like word without sigil
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let s = self.p;
        while self.p < self.t.len() && is_id(self.t[self.p]) {
            self.p += 1;
        }
        std::str::from_utf8(&self.t[s..self.p]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        let s = self.p;
        let w = self.word();
        self.p = s;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let s = self.p;
        if self.word() == w {
            true
        } else {
            self.p = s;
            false
        }
    }
    /// name after a sigil
    pub fn name(&mut self) -> String {
        if self.p < self.t.len() && self.t[self.p] == b'"' {
            let b = self.string();
            String::from_utf8_lossy(&b).into_owned()
        } else {
            let s = self.p;
            while self.p < self.t.len() && is_id(self.t[self.p]) {
                self.p += 1;
            }
            String::from_utf8_lossy(&self.t[s..self.p]).into_owned()
        }
    }
    pub fn string(&mut self) -> Vec<u8> {
        assert_eq!(self.t[self.p], b'"');
        self.p += 1;
        let mut out = vec![];
        loop {
            let c = self.t[self.p];
            self.p += 1;
            match c {
                b'"' => return out,
                b'\\' => {
                    if self.t[self.p] == b'\\' {
                        out.push(b'\\');
                        self.p += 1;
                    } else {
                        let h = std::str::from_utf8(&self.t[self.p..self.p + 2]).unwrap();
                        out.push(u8::from_str_radix(h, 16).unwrap());
                        self.p += 2;
                    }
                }
                c => out.push(c),
            }
        }
    }
    pub fn skip_group(&mut self) {
        // at an opening bracket: skip the balanced group
        let o = self.t[self.p];
        let c = match o {
            b'(' => b')',
            b'[' => b']',
            b'{' => b'}',
            b'<' => b'>',
            _ => self.fail("skip_group"),
        };
        let mut depth = 0;
        while self.p < self.t.len() {
            let x = self.t[self.p];
            if x == b'"' {
                self.string();
                continue;
            }
            if x == o {
                depth += 1;
            } else if x == c {
                depth -= 1;
                if depth == 0 {
                    self.p += 1;
                    return;
                }
            }
            self.p += 1;
        }
        self.fail("unbalanced")
    }
    pub fn eol(&mut self) {
        while self.p < self.t.len() && self.t[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn uint(&mut self) -> u64 {
        self.ws();
        let s = self.p;
        while self.p < self.t.len() && self.t[self.p].is_ascii_digit() {
            self.p += 1;
        }
        if s == self.p {
            self.fail("number");
        }
        std::str::from_utf8(&self.t[s..self.p]).unwrap().parse().unwrap()
    }
    /// skips attributes that may stand between a type and its value
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.string();
                if self.peek() == b'=' {
                    self.p += 1;
                    self.ws();
                    self.string();
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            let s = self.p;
            let w = self.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "c" | "splat" | "getelementptr" | "ptrtoint"
                | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "mul" | "shl" | "blockaddress" | "asm" | "metadata" | "dso_local_equivalent"
                | "addrspacecast" | "no_cfi" | "ptrtoaddr" => {
                    self.p = s;
                    return;
                }
                "align" => {
                    if self.peek() == b'(' {
                        self.skip_group();
                    } else {
                        self.uint();
                    }
                }
                _ => {
                    if w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") {
                        self.p = s;
                        return;
                    }
                    if self.p < self.t.len() && self.t[self.p] == b'(' {
                        self.skip_group();
                    }
                }
            }
        }
    }
}

pub(crate) fn imask(w: u32) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.sizes.push(None);
        self.tymap.insert(t, i);
        i
    }

    pub fn resolve(&mut self, t: TyId) -> TyId {
        if let Ty::Named(n) = &self.tys[t as usize] {
            let n = n.clone();
            if let Some(&r) = self.named_ty.get(&n) {
                return r;
            }
            let r = match self.named.get(&n).copied() {
                None => self.ty(Ty::Opaque),
                Some((a, b)) => {
                    let text = self.text;
                    let mut p = P { t: &text[..b], p: a };
                    self.parse_ty(&mut p)
                }
            };
            self.named_ty.insert(n, r);
            return r;
        }
        t
    }

    /// (size in bytes (alloc size), align)
    pub fn size_align(&mut self, t: TyId) -> (u64, u64) {
        if let Some(r) = self.sizes[t as usize] {
            return r;
        }
        let r = match self.tys[t as usize].clone() {
            Ty::Int(w) => {
                let b = (w as u64).div_ceil(8);
                let a = match b {
                    1 => 1,
                    2 => 2,
                    3..=4 => 4,
                    5..=8 => 8,
                    _ => 16,
                };
                (b.div_ceil(a) * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::F32 => (4, 4),
            Ty::F64 => (8, 8),
            Ty::X87 => (16, 16),
            Ty::Arr(n, e) => {
                let (s, a) = self.size_align(e);
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let bits = match self.tys[e as usize] {
                    Ty::Int(w) => w as u64,
                    _ => self.size_align(e).0 * 8,
                };
                let b = (bits * n as u64).div_ceil(8);
                let b = b.next_power_of_two();
                (b, b)
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                let mut al = 1;
                for f in fs {
                    let (s, a) = self.size_align(f);
                    let a = if packed { 1 } else { a };
                    off = off.div_ceil(a) * a + s;
                    al = al.max(a);
                }
                (off.div_ceil(al) * al, al)
            }
            Ty::Named(_) => {
                let r = self.resolve(t);
                self.size_align(r)
            }
            x => panic!("size of {:?}", x),
        };
        self.sizes[t as usize] = Some(r);
        r
    }

    pub fn field_off(&mut self, fs: &[TyId], packed: bool, i: usize) -> u64 {
        let mut off = 0u64;
        for (k, &f) in fs.iter().enumerate() {
            let (s, a) = self.size_align(f);
            let a = if packed { 1 } else { a };
            off = off.div_ceil(a) * a;
            if k == i {
                return off;
            }
            off += s;
        }
        off
    }

    pub fn scalar_bits(&mut self, t: TyId) -> Option<u32> {
        match self.tys[t as usize] {
            Ty::Int(w) => Some(w as u32),
            Ty::Ptr | Ty::F64 | Ty::X87 => Some(64),
            Ty::F32 => Some(32),
            _ => None,
        }
    }

    pub fn parse_ty(&mut self, p: &mut P) -> TyId {
        let c = p.peek();
        let mut t = match c {
            b'%' => {
                p.p += 1;
                let n = p.name();
                let t = self.ty(Ty::Named(n));
                self.resolve(t)
            }
            b'[' => {
                p.p += 1;
                let n = p.uint();
                if !p.eat_word("x") {
                    p.fail("x");
                }
                let e = self.parse_ty(p);
                p.expect(b']');
                self.ty(Ty::Arr(n, e))
            }
            b'{' => {
                p.p += 1;
                let mut fs = vec![];
                while !p.eat(b'}') {
                    fs.push(self.parse_ty(p));
                    p.eat(b',');
                }
                self.ty(Ty::Struct(fs, false))
            }
            b'<' => {
                p.p += 1;
                if p.eat(b'{') {
                    let mut fs = vec![];
                    while !p.eat(b'}') {
                        fs.push(self.parse_ty(p));
                        p.eat(b',');
                    }
                    p.expect(b'>');
                    self.ty(Ty::Struct(fs, true))
                } else {
                    let n = p.uint();
                    if !p.eat_word("x") {
                        p.fail("x");
                    }
                    let e = self.parse_ty(p);
                    p.expect(b'>');
                    self.ty(Ty::Vec(n as u32, e))
                }
            }
            _ => {
                let s = p.p;
                let w = p.word();
                let t = match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "x86_fp80" => Ty::X87,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "opaque" => Ty::Opaque,
                    _ if w.starts_with('i') && w.len() > 1 => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => {
                            p.p = s;
                            p.fail("type")
                        }
                    },
                    _ => {
                        p.p = s;
                        p.fail("type")
                    }
                };
                self.ty(t)
            }
        };
        // function type?  ret (args...)
        if p.peek() == b'(' && p.p < p.t.len() {
            // only in call instructions with vararg types; handled by caller
            let _ = &mut t;
        }
        t
    }

    pub fn load(text: &'static [u8]) -> Module {
        let mut m = Module {
            text,
            tys: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            named_ty: HashMap::new(),
            sizes: vec![],
            funcs: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            gl_by_name: HashMap::new(),
            aliases: HashMap::new(),
            tls_size: 0,
            i1: 0,
            i8: 0,
            i32: 0,
            i64: 0,
            ptr: 0,
            void: 0,
        };
        m.i1 = m.ty(Ty::Int(1));
        m.i8 = m.ty(Ty::Int(8));
        m.i32 = m.ty(Ty::Int(32));
        m.i64 = m.ty(Ty::Int(64));
        m.ptr = m.ty(Ty::Ptr);
        m.void = m.ty(Ty::Void);
        let mut i = 0;
        let n = text.len();
        while i < n {
            let e = memchr(text, i, b'\n');
            let line = &text[i..e];
            if line.starts_with(b"define ") {
                let mut j = e;
                loop {
                    if text[j + 1] == b'}' {
                        j += 2;
                        break;
                    }
                    j = memchr(text, j + 1, b'\n');
                }
                let name = fn_name(line);
                let id = m.funcs.len() as u32;
                m.fn_by_name.insert(name.clone(), id);
                m.funcs.push(FnDecl { name, body: Some((i, j)), parsed: None });
                i = j + 1;
                continue;
            } else if line.starts_with(b"declare ") {
                let name = fn_name(line);
                let id = m.funcs.len() as u32;
                m.fn_by_name.insert(name.clone(), id);
                m.funcs.push(FnDecl { name, body: None, parsed: None });
            } else if line.starts_with(b"%") {
                let mut p = P { t: &text[..e], p: i + 1 };
                let name = p.name();
                p.expect(b'=');
                if !p.eat_word("type") {
                    p.fail("type");
                }
                m.named.insert(name, (p.p, e));
            } else if line.starts_with(b"@") {
                let mut p = P { t: &text[..e], p: i + 1 };
                let name = p.name();
                p.expect(b'=');
                let mut external = false;
                let mut tls = false;
                let mut alias = false;
                let constant;
                loop {
                    let w = p.word();
                    if p.p < text.len() && text[p.p] == b'(' {
                        p.skip_group();
                    }
                    match w {
                        "external" | "extern_weak" => external = true,
                        "thread_local" => tls = true,
                        "global" => {
                            constant = false;
                            break;
                        }
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "alias" => {
                            alias = true;
                            constant = false;
                            break;
                        }
                        "" => p.fail("global"),
                        _ => {}
                    }
                }
                let t = m.parse_ty(&mut p);
                if alias {
                    p.eat(b'(');
                    while p.peek() != b'@' {
                        p.p += 1;
                    }
                    p.p += 1;
                    let tgt = p.name();
                    m.aliases.insert(name, tgt);
                } else if !name.starts_with("llvm.") {
                    let init = if external { None } else { Some((p.p, e)) };
                    let id = m.globals.len() as u32;
                    m.gl_by_name.insert(name.clone(), id);
                    m.globals.push(Global { name, ty: t, init, tls, constant, addr: 0, size: 0, external });
                }
            }
            i = e + 1;
        }
        // lay out
        let mut addr = GLOBAL_BASE;
        let mut tls = 16u64;
        for k in 0..m.globals.len() {
            let t = m.globals[k].ty;
            let (s, _) = if matches!(m.tys[t as usize], Ty::Opaque | Ty::Fn) { (8, 8) } else { m.size_align(t) };
            m.globals[k].size = s;
            if m.globals[k].tls {
                tls = tls.div_ceil(64) * 64;
                m.globals[k].addr = tls;
                tls += s;
            } else {
                addr = addr.div_ceil(64) * 64;
                m.globals[k].addr = addr;
                addr += s.max(1) + 16;
            }
        }
        m.tls_size = tls.div_ceil(64) * 64;
        m
    }

    pub fn sym_addr(&self, name: &str) -> Option<u64> {
        if let Some(&g) = self.gl_by_name.get(name) {
            return Some(self.globals[g as usize].addr);
        }
        if let Some(&f) = self.fn_by_name.get(name) {
            return Some(FN_BASE + f as u64 * 16);
        }
        if let Some(a) = self.aliases.get(name) {
            return self.sym_addr(&a.clone());
        }
        None
    }

    fn zero_of(&mut self, t: TyId) -> V {
        match self.tys[t as usize].clone() {
            Ty::Int(w) if w > 64 => V::W(Rc::new(0)),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => V::C(0),
            Ty::X87 => V::C(0),
            Ty::Arr(n, e) => {
                let z = self.zero_of(e);
                V::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Vec(n, e) => {
                let z = self.zero_of(e);
                V::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|&f| self.zero_of(f)).collect())),
            x => panic!("zero of {:?}", x),
        }
    }

    /// constant of type t at p
    pub fn parse_const(&mut self, p: &mut P, t: TyId) -> V {
        let c = p.peek();
        match c {
            b'@' => {
                p.p += 1;
                let n = p.name();
                match self.sym_addr(&n) {
                    Some(a) => V::C(a),
                    None => p.fail(&format!("unknown symbol {}", n)),
                }
            }
            b'+' | b'-' if p.t[p.p + 1..].starts_with(b"inf") || p.t[p.p + 1..].starts_with(b"nan") => {
                p.p += 1;
                let w = p.word();
                let f = if w == "inf" { f64::INFINITY } else { f64::NAN };
                let f = if c == b'-' { -f } else { f };
                V::C(if self.tys[t as usize] == Ty::F32 { (f as f32).to_bits() as u64 } else { f.to_bits() })
            }
            b'-' | b'0'..=b'9' => {
                if p.t[p.p..].starts_with(b"0x") {
                    let s = p.p + 2;
                    p.p += 2;
                    p.word();
                    let v = u64::from_str_radix(std::str::from_utf8(&p.t[s..p.p]).unwrap(), 16).unwrap();
                    return match self.tys[t as usize] {
                        Ty::F32 => V::C((f64::from_bits(v) as f32).to_bits() as u64),
                        _ => V::C(v),
                    };
                }
                let s = p.p;
                p.p += 1;
                while p.p < p.t.len() && (p.t[p.p].is_ascii_digit() || p.t[p.p] == b'.' || p.t[p.p] == b'e' || p.t[p.p] == b'+' || p.t[p.p] == b'-') {
                    p.p += 1;
                }
                let txt = std::str::from_utf8(&p.t[s..p.p]).unwrap();
                match self.tys[t as usize] {
                    Ty::F64 | Ty::X87 => V::C(txt.parse::<f64>().unwrap().to_bits()),
                    Ty::F32 => V::C((txt.parse::<f64>().unwrap() as f32).to_bits() as u64),
                    Ty::Int(w) if w <= 64 => {
                        let v: i128 = txt.parse().unwrap();
                        V::C(v as u64 & imask(w as u32))
                    }
                    Ty::Int(w) => {
                        let v: u128 = if let Some(x) = txt.strip_prefix('-') { x.parse::<u128>().unwrap().wrapping_neg() } else { txt.parse().unwrap() };
                        V::W(Rc::new(if w < 128 { v & ((1 << w) - 1) } else { v }))
                    }
                    _ => p.fail("number for type"),
                }
            }
            b'{' => {
                p.p += 1;
                self.parse_elems(p, b'}')
            }
            b'[' => {
                p.p += 1;
                self.parse_elems(p, b']')
            }
            b'<' => {
                p.p += 1;
                if p.eat(b'{') {
                    let v = self.parse_elems(p, b'}');
                    p.expect(b'>');
                    v
                } else {
                    self.parse_elems(p, b'>')
                }
            }
            _ => {
                let w = p.word();
                match w {
                    "c" => {
                        let b = p.string();
                        V::A(Rc::new(b.into_iter().map(|x| V::C(x as u64)).collect()))
                    }
                    "true" => V::C(1),
                    "false" => V::C(0),
                    "null" => V::C(0),
                    "undef" | "poison" | "zeroinitializer" => self.zero_of(t),
                    "splat" => {
                        p.expect(b'(');
                        let et = self.parse_ty(p);
                        let v = self.parse_const(p, et);
                        p.expect(b')');
                        let n = match self.tys[t as usize] {
                            Ty::Vec(n, _) => n,
                            _ => p.fail("splat"),
                        };
                        V::A(Rc::new(vec![v; n as usize]))
                    }
                    "getelementptr" => {
                        while p.peek() != b'(' {
                            p.word();
                            if p.peek() == b'(' && p.t[..p.p].ends_with(b"inrange") {
                                p.skip_group();
                            }
                        }
                        p.expect(b'(');
                        let et = self.parse_ty(p);
                        p.expect(b',');
                        let pt = self.parse_ty(p);
                        let base = self.parse_const(p, pt);
                        let mut idx = vec![];
                        while p.eat(b',') {
                            let it = self.parse_ty(p);
                            let v = self.parse_const(p, it);
                            let w = self.scalar_bits(it).unwrap();
                            let V::C(x) = v else { p.fail("idx") };
                            idx.push(isext(x, w) as i64);
                        }
                        p.expect(b')');
                        let V::C(mut a) = base else { p.fail("base") };
                        let mut cur = et;
                        for (k, &i) in idx.iter().enumerate() {
                            if k == 0 {
                                a = a.wrapping_add((self.size_align(cur).0 as i64).wrapping_mul(i) as u64);
                            } else {
                                match self.tys[cur as usize].clone() {
                                    Ty::Struct(fs, pk) => {
                                        a = a.wrapping_add(self.field_off(&fs, pk, i as usize));
                                        cur = fs[i as usize];
                                    }
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                        a = a.wrapping_add((self.size_align(e).0 as i64).wrapping_mul(i) as u64);
                                        cur = e;
                                    }
                                    _ => p.fail("gep type"),
                                }
                            }
                        }
                        V::C(a)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                        p.expect(b'(');
                        let ft = self.parse_ty(p);
                        let v = self.parse_const(p, ft);
                        if !p.eat_word("to") {
                            p.fail("to");
                        }
                        let tt = self.parse_ty(p);
                        p.expect(b')');
                        match v {
                            V::C(x) => V::C(x & imask(self.scalar_bits(tt).unwrap_or(64))),
                            v => v,
                        }
                    }
                    "add" | "sub" | "xor" | "mul" | "shl" => {
                        while p.peek() != b'(' {
                            p.word();
                        }
                        p.expect(b'(');
                        let ta = self.parse_ty(p);
                        let a = self.parse_const(p, ta);
                        p.expect(b',');
                        let tb = self.parse_ty(p);
                        let b = self.parse_const(p, tb);
                        p.expect(b')');
                        let (V::C(a), V::C(b)) = (a, b) else { p.fail("const bin") };
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            "shl" => a << b,
                            _ => a ^ b,
                        };
                        V::C(r & imask(self.scalar_bits(ta).unwrap()))
                    }
                    "dso_local_equivalent" | "no_cfi" => self.parse_const(p, t),
                    _ if w.starts_with("f0x") => {
                        if w.len() > 19 {
                            // x87: treated as a double
                            let v = u128::from_str_radix(&w[3..], 16).unwrap();
                            let (sg, ex, man) = ((v >> 79) as u64 & 1, (v >> 64) as u64 & 0x7fff, v as u64);
                            let f = if ex == 0x7fff {
                                if man << 1 == 0 { f64::INFINITY } else { f64::NAN }
                            } else {
                                man as f64 * 2f64.powi(ex as i32 - 16383 - 63)
                            };
                            return V::C(f.to_bits() | sg << 63);
                        }
                        let v = u64::from_str_radix(&w[3..], 16).unwrap();
                        V::C(v)
                    }
                    _ => p.fail(&format!("constant {:?}", w)),
                }
            }
        }
    }

    fn parse_elems(&mut self, p: &mut P, close: u8) -> V {
        let mut v = vec![];
        while !p.eat(close) {
            let t = self.parse_ty(p);
            v.push(self.parse_const(p, t));
            p.eat(b',');
        }
        V::A(Rc::new(v))
    }

    pub fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize].parsed {
            return f;
        }
        let (a, b) = self.funcs[id as usize].body.unwrap_or_else(|| panic!("no body: {}", self.funcs[id as usize].name));
        let f = self.parse_func(id, a, b);
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[id as usize].parsed = Some(f);
        f
    }

    fn parse_func(&mut self, id: u32, a: usize, b: usize) -> Func {
        let text = self.text;
        let name = self.funcs[id as usize].name.clone();
        let mut p = P { t: &text[..b], p: a };
        // header: find the @name then (
        loop {
            let c = p.t[p.p];
            if c == b'"' {
                p.string();
            } else if c == b'@' {
                break;
            } else if c == b'(' {
                p.skip_group();
            } else {
                p.p += 1;
            }
        }
        p.p += 1;
        p.name();
        p.expect(b'(');
        let mut fp = FP { regs: HashMap::new(), nregs: 0 };
        let mut vararg = false;
        let mut nparams = 0;
        let mut unnamed = 0;
        while !p.eat(b')') {
            if p.peek() == b'.' {
                p.p += 3;
                vararg = true;
                continue;
            }
            self.parse_ty(&mut p);
            p.skip_attrs();
            if p.peek() == b'%' {
                p.p += 1;
                let n = p.name();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = fp.reg(n);
                assert_eq!(r, nparams);
            } else {
                unnamed += 1;
                let r = fp.reg(format!("{}", nparams));
                assert_eq!(r, nparams);
            }
            nparams += 1;
            p.eat(b',');
        }
        // skip to the line end with {
        p.eol();
        p.p += 1;
        // Pass 1: split into blocks & parse instructions; phis collected.
        struct Blk {
            code: Vec<PI>,
            phis: Vec<(u32, Vec<(Op, String)>)>,
            name: String,
        }
        enum PI {
            I(I),
            Br(String),
            Cond(Op, String, String),
            Sw(u8, Op, Vec<(u128, String)>, String),
        }
        let mut blocks: Vec<Blk> = vec![];
        let mut cur = Blk { code: vec![], phis: vec![], name: String::new() };
        let mut first = true;
        while p.p < b {
            // line start
            let e = memchr(text, p.p, b'\n').min(b);
            let line = &text[p.p..e];
            if line.is_empty() || line == b"}" {
                p.p = e + 1;
                continue;
            }
            if line[0] != b' ' {
                // label
                let mut q = P { t: &text[..e], p: p.p };
                let nm = if line[0] == b'"' { String::from_utf8_lossy(&q.string()).into_owned() } else { q.name() };
                if !(first && cur.code.is_empty() && cur.phis.is_empty()) {
                    blocks.push(cur);
                }
                first = false;
                cur = Blk { code: vec![], phis: vec![], name: nm };
                p.p = e + 1;
                continue;
            }
            if first {
                // implicit entry label: number = nparams
                cur.name = format!("{}", unnamed);
                first = false;
            }
            let mut d = NOREG;
            if line.starts_with(b"  #dbg") {
                p.p = e + 1;
                continue;
            }
            if p.peek() == b'%' {
                p.p += 1;
                let n = p.name();
                d = fp.reg(n);
                p.expect(b'=');
            }
            let w = p.word();
            // everything but a switch is on one line
            let multi = w == "switch";
            if !multi {
                p.t = &text[..e];
            }
            match w {
                "br" => {
                    if p.eat_word("label") {
                        p.expect(b'%');
                        let l = p.name();
                        cur.code.push(PI::Br(l));
                    } else {
                        let t = self.parse_ty(&mut p);
                        let c = self.operand(&mut p, t, &mut fp);
                        p.expect(b',');
                        p.eat_word("label");
                        p.expect(b'%');
                        let l1 = p.name();
                        p.expect(b',');
                        p.eat_word("label");
                        p.expect(b'%');
                        let l2 = p.name();
                        cur.code.push(PI::Cond(c, l1, l2));
                    }
                }
                "switch" => {
                    let t = self.parse_ty(&mut p);
                    let bits = self.scalar_bits(t).unwrap();
                    let v = self.operand(&mut p, t, &mut fp);
                    p.expect(b',');
                    p.eat_word("label");
                    p.expect(b'%');
                    let def = p.name();
                    p.expect(b'[');
                    let mut cases = vec![];
                    while !p.eat(b']') {
                        let ct = self.parse_ty(&mut p);
                        let c = match self.parse_const(&mut p, ct) {
                            V::C(c) => c as u128,
                            V::W(w) => *w,
                            _ => p.fail("case"),
                        };
                        p.expect(b',');
                        p.eat_word("label");
                        p.expect(b'%');
                        cases.push((c, p.name()));
                    }
                    cases.sort();
                    cur.code.push(PI::Sw(bits as u8, v, cases, def));
                }
                "phi" => {
                    p.skip_fmf();
                    let t = self.parse_ty(&mut p);
                    let mut inc = vec![];
                    loop {
                        p.expect(b'[');
                        let v = self.operand(&mut p, t, &mut fp);
                        p.expect(b',');
                        p.expect(b'%');
                        inc.push((v, p.name()));
                        p.expect(b']');
                        if !p.eat(b',') || p.peek() != b'[' {
                            break;
                        }
                    }
                    cur.phis.push((d, inc));
                }
                _ => {
                    let i = self.parse_inst(w, d, &mut p, &mut fp);
                    cur.code.push(PI::I(i));
                }
            }
            if multi {
                p.eol();
                p.p += 1;
            } else {
                p.t = &text[..b];
                p.p = e + 1;
            }
        }
        blocks.push(cur);
        // layout
        let mut start = HashMap::new();
        let mut n = 0u32;
        for (k, bl) in blocks.iter().enumerate() {
            start.insert(bl.name.clone(), (n, k));
            n += bl.code.len() as u32;
        }
        let mut phis: Vec<Vec<(u32, Vec<(Op, String)>)>> = vec![];
        let mut names = vec![];
        let mut codes = vec![];
        for bl in blocks {
            phis.push(bl.phis);
            names.push(bl.name);
            codes.push(bl.code);
        }
        let edge = |from: &str, to: &str| -> Edge {
            let (pc, k) = match start.get(to) {
                Some(x) => *x,
                None => panic!("no label {} in {}", to, name),
            };
            let mut mv = vec![];
            for (d, inc) in &phis[k] {
                let (v, _) = inc.iter().find(|(_, l)| l == from).unwrap_or_else(|| panic!("phi {} <- {} in {}", to, from, name));
                mv.push((*d, v.clone()));
            }
            Edge { to: pc, moves: mv.into_boxed_slice() }
        };
        let mut code = vec![];
        for (k, bl) in codes.into_iter().enumerate() {
            let from = names[k].clone();
            for pi in bl {
                code.push(match pi {
                    PI::I(i) => i,
                    PI::Br(l) => I::Br(edge(&from, &l)),
                    PI::Cond(c, a, b) => I::CondBr { c, t: edge(&from, &a), f: edge(&from, &b) },
                    PI::Sw(w, v, cs, d) => I::Switch { w, v, cases: cs.iter().map(|(c, l)| (*c, edge(&from, l))).collect(), def: edge(&from, &d) },
                });
            }
        }
        Func { id, name, nregs: fp.nregs, nparams, code, vararg }
    }

    fn operand(&mut self, p: &mut P, t: TyId, fp: &mut FP) -> Op {
        p.skip_attrs();
        if p.peek() == b'%' {
            p.p += 1;
            let n = p.name();
            Op::R(fp.reg(n))
        } else {
            Op::C(self.parse_const(p, t))
        }
    }

    fn ty_operand(&mut self, p: &mut P, fp: &mut FP) -> (TyId, Op) {
        let t = self.parse_ty(p);
        let o = self.operand(p, t, fp);
        (t, o)
    }

    fn is_small(&mut self, t: TyId) -> Option<u8> {
        match self.scalar_bits(t) {
            Some(b) if b <= 64 => Some(b as u8),
            _ => None,
        }
    }

    fn parse_inst(&mut self, w: &str, d: u32, p: &mut P, fp: &mut FP) -> I {
        match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul"
            | "fdiv" | "frem" => {
                let k = match w {
                    "add" => BinK::Add,
                    "sub" => BinK::Sub,
                    "mul" => BinK::Mul,
                    "udiv" => BinK::UDiv,
                    "sdiv" => BinK::SDiv,
                    "urem" => BinK::URem,
                    "srem" => BinK::SRem,
                    "shl" => BinK::Shl,
                    "lshr" => BinK::LShr,
                    "ashr" => BinK::AShr,
                    "and" => BinK::And,
                    "or" => BinK::Or,
                    "xor" => BinK::Xor,
                    "fadd" => BinK::FAdd,
                    "fsub" => BinK::FSub,
                    "fmul" => BinK::FMul,
                    "fdiv" => BinK::FDiv,
                    _ => BinK::FRem,
                };
                p.skip_fmf();
                let (t, a) = self.ty_operand(p, fp);
                p.expect(b',');
                let b = self.operand(p, t, fp);
                match self.tys[t as usize] {
                    Ty::Int(n) if n <= 64 => I::Bin { k, w: n as u8, d, a, b },
                    _ => I::BinT { k, ty: t, d, a, b },
                }
            }
            "fneg" => {
                p.skip_fmf();
                let (t, a) = self.ty_operand(p, fp);
                I::FNeg { dbl: t != self.ty(Ty::F32), d, a }
            }
            "icmp" => {
                p.eat_word("samesign");
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => p.fail("pred"),
                };
                let (t, a) = self.ty_operand(p, fp);
                p.expect(b',');
                let b = self.operand(p, t, fp);
                match self.is_small(t) {
                    Some(w) => I::Icmp { p: pr, w, d, a, b },
                    None => I::IcmpT { p: pr, ty: t, d, a, b },
                }
            }
            "fcmp" => {
                let mut pr = None;
                while pr.is_none() {
                    pr = match p.word() {
                        "false" => Some(FPred::False),
                        "oeq" => Some(FPred::Oeq),
                        "ogt" => Some(FPred::Ogt),
                        "oge" => Some(FPred::Oge),
                        "olt" => Some(FPred::Olt),
                        "ole" => Some(FPred::Ole),
                        "one" => Some(FPred::One),
                        "ord" => Some(FPred::Ord),
                        "ueq" => Some(FPred::Ueq),
                        "ugt" => Some(FPred::Ugt),
                        "uge" => Some(FPred::Uge),
                        "ult" => Some(FPred::Ult),
                        "ule" => Some(FPred::Ule),
                        "une" => Some(FPred::Une),
                        "uno" => Some(FPred::Uno),
                        "true" => Some(FPred::True),
                        "" => p.fail("fpred"),
                        _ => None,
                    };
                }
                let (t, a) = self.ty_operand(p, fp);
                p.expect(b',');
                let b = self.operand(p, t, fp);
                I::Fcmp { p: pr.unwrap(), dbl: t != self.ty(Ty::F32), d, a, b }
            }
            "load" => {
                p.eat_word("atomic");
                p.eat_word("volatile");
                let t = self.parse_ty(p);
                p.expect(b',');
                let (_, a) = self.ty_operand(p, fp);
                match self.is_small(t) {
                    Some(w) => I::Load { w, d, p: a },
                    None => I::LoadT { ty: t, d, p: a },
                }
            }
            "store" => {
                p.eat_word("atomic");
                p.eat_word("volatile");
                let (t, v) = self.ty_operand(p, fp);
                p.expect(b',');
                let (_, a) = self.ty_operand(p, fp);
                match self.is_small(t) {
                    Some(w) => I::Store { w, v, p: a },
                    None => I::StoreT { ty: t, v, p: a },
                }
            }
            "getelementptr" => {
                loop {
                    let s = p.p;
                    let x = p.word();
                    match x {
                        "inbounds" | "nuw" | "nusw" => {}
                        "inrange" => {
                            if p.peek() == b'(' {
                                p.skip_group()
                            }
                        }
                        _ => {
                            p.p = s;
                            break;
                        }
                    }
                }
                let et = self.parse_ty(p);
                p.expect(b',');
                let (bt, base) = self.ty_operand(p, fp);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = et;
                let mut k = 0;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, o) = self.ty_operand(p, fp);
                    if let Ty::Vec(..) = self.tys[it as usize] {
                        let sc = self.size_align(cur).0;
                        return I::GepV { d, ty: it, base, idx: o, scale: sc };
                    }
                    let iw = self.scalar_bits(it).unwrap();
                    let mut scale = 0;
                    if k == 0 {
                        scale = self.size_align(cur).0;
                    } else {
                        match self.tys[cur as usize].clone() {
                            Ty::Struct(fs, pk) => {
                                let Op::C(V::C(i)) = o else { p.fail("struct idx") };
                                off = off.wrapping_add(self.field_off(&fs, pk, i as usize));
                                cur = fs[i as usize];
                                k += 1;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = self.size_align(e).0;
                                cur = e;
                            }
                            _ => p.fail("gep"),
                        }
                    }
                    k += 1;
                    match o {
                        Op::C(V::C(i)) => off = off.wrapping_add((isext(i, iw) as i64).wrapping_mul(scale as i64) as u64),
                        o => idx.push((o, iw as u8, scale)),
                    }
                }
                if let Ty::Vec(..) = self.tys[bt as usize] {
                    p.fail("vector gep base");
                }
                I::Gep { d, base, off, idx: idx.into_boxed_slice() }
            }
            "alloca" => {
                p.eat_word("inalloca");
                let t = self.parse_ty(p);
                let size = self.size_align(t).0;
                let mut n = Op::C(V::C(1));
                let mut align = 16;
                while p.eat(b',') {
                    if p.eat_word("align") {
                        align = p.uint();
                    } else if p.peek() == b'!' {
                        break;
                    } else {
                        let (_, o) = self.ty_operand(p, fp);
                        n = o;
                    }
                }
                I::Alloca { d, size, n, align }
            }
            "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoint" | "inttoptr" | "bitcast"
            | "ptrtoaddr" => {
                let k = match w {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fptrunc" => CastK::FpTrunc,
                    "fpext" => CastK::FpExt,
                    "ptrtoint" | "ptrtoaddr" => CastK::PtrToInt,
                    "inttoptr" => CastK::IntToPtr,
                    _ => CastK::BitCast,
                };
                p.skip_fmf();
                let (from, a) = self.ty_operand(p, fp);
                if !p.eat_word("to") {
                    p.fail("to");
                }
                let to = self.parse_ty(p);
                if matches!(k, CastK::Trunc | CastK::ZExt | CastK::SExt | CastK::PtrToInt | CastK::IntToPtr) {
                    if let (Some(fw), Some(tw)) = (self.is_small(from), self.is_small(to)) {
                        return I::CastI { k, d, fw, tw, a };
                    }
                }
                I::Cast { k, d, from, to, a }
            }
            "select" => {
                p.skip_fmf();
                let (ct, c) = self.ty_operand(p, fp);
                p.expect(b',');
                let (t, a) = self.ty_operand(p, fp);
                p.expect(b',');
                let (_, b) = self.ty_operand(p, fp);
                let vec = matches!(self.tys[ct as usize], Ty::Vec(..));
                I::Select { d, ty: t, c, a, b, vec }
            }
            "extractvalue" => {
                let (_, a) = self.ty_operand(p, fp);
                let mut idx = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.uint() as u32);
                }
                I::Extract { d, a, idx: idx.into_boxed_slice() }
            }
            "insertvalue" => {
                let (_, a) = self.ty_operand(p, fp);
                p.expect(b',');
                let (_, v) = self.ty_operand(p, fp);
                let mut idx = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.uint() as u32);
                }
                I::Insert { d, a, v, idx: idx.into_boxed_slice() }
            }
            "extractelement" => {
                let (_, a) = self.ty_operand(p, fp);
                p.expect(b',');
                let (_, i) = self.ty_operand(p, fp);
                I::ExtElt { d, a, i }
            }
            "insertelement" => {
                let (_, a) = self.ty_operand(p, fp);
                p.expect(b',');
                let (_, v) = self.ty_operand(p, fp);
                p.expect(b',');
                let (_, i) = self.ty_operand(p, fp);
                I::InsElt { d, a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.ty_operand(p, fp);
                p.expect(b',');
                let (_, b) = self.ty_operand(p, fp);
                p.expect(b',');
                let mt = self.parse_ty(p);
                let V::A(m) = self.parse_const(p, mt) else { p.fail("mask") };
                let n = match self.tys[t as usize] {
                    Ty::Vec(n, _) => n,
                    _ => p.fail("shuffle"),
                };
                I::Shuffle { d, a, b, n, mask: m.iter().map(|v| if let V::C(x) = v { *x as u32 as i32 } else { 0 }).collect() }
            }
            "atomicrmw" => {
                p.eat_word("volatile");
                let k = match p.word() {
                    "xchg" => RmwK::Xchg,
                    "add" => RmwK::Add,
                    "sub" => RmwK::Sub,
                    "and" => RmwK::And,
                    "nand" => RmwK::Nand,
                    "or" => RmwK::Or,
                    "xor" => RmwK::Xor,
                    "max" => RmwK::Max,
                    "min" => RmwK::Min,
                    "umax" => RmwK::UMax,
                    "umin" => RmwK::UMin,
                    _ => p.fail("rmw"),
                };
                let (_, a) = self.ty_operand(p, fp);
                p.expect(b',');
                let (t, v) = self.ty_operand(p, fp);
                let w = self.is_small(t).unwrap_or_else(|| p.fail("rmw type"));
                I::Rmw { k, w, d, p: a, v }
            }
            "cmpxchg" => {
                p.eat_word("weak");
                p.eat_word("volatile");
                let (_, a) = self.ty_operand(p, fp);
                p.expect(b',');
                let (t, c) = self.ty_operand(p, fp);
                p.expect(b',');
                let (_, n) = self.ty_operand(p, fp);
                let w = self.is_small(t).unwrap_or_else(|| p.fail("cmpxchg type"));
                I::Cmpxchg { w, d, p: a, c, n }
            }
            "fence" => I::Nop,
            "freeze" => {
                let (_, a) = self.ty_operand(p, fp);
                I::Mov { d, a }
            }
            "unreachable" | "resume" => I::Unreachable,
            "landingpad" => {
                p.eol();
                // clause lines follow; they start with more spaces
                loop {
                    let s = p.p + 1;
                    if p.t[s..].starts_with(b"          ") {
                        p.p = s;
                        p.eol();
                    } else {
                        break;
                    }
                }
                I::Unreachable
            }
            "ret" => {
                if p.eat_word("void") {
                    I::Ret(None)
                } else {
                    let (_, a) = self.ty_operand(p, fp);
                    I::Ret(Some(a))
                }
            }
            "tail" | "musttail" | "notail" | "call" => {
                if w != "call" {
                    p.word();
                }
                self.parse_call(d, p, fp)
            }
            _ => p.fail(&format!("instruction {:?}", w)),
        }
    }

    fn parse_call(&mut self, d: u32, p: &mut P, fp: &mut FP) -> I {
        // cconv, attributes, fmf
        loop {
            let c = p.peek();
            if c == b'%' || c == b'[' || c == b'{' || c == b'<' {
                break;
            }
            let s = p.p;
            let x = p.word();
            let is_ty = matches!(x, "ptr" | "void" | "float" | "double" | "x86_fp80") || (x.starts_with('i') && x.len() > 1 && x[1..].bytes().all(|b| b.is_ascii_digit()));
            if is_ty {
                p.p = s;
                break;
            }
            if x.is_empty() {
                p.fail("call");
            }
            if x == "align" || x == "cc" {
                p.uint();
            } else if p.p < p.t.len() && p.t[p.p] == b'(' {
                p.skip_group();
            }
        }
        let ret = self.parse_ty(p);
        let mut nfixed = u32::MAX;
        if p.peek() == b'(' {
            // function type
            p.p += 1;
            let mut n = 0;
            while !p.eat(b')') {
                if p.peek() == b'.' {
                    p.p += 3;
                    nfixed = n;
                } else {
                    self.parse_ty(p);
                    n += 1;
                }
                p.eat(b',');
            }
        }
        let f = match p.peek() {
            b'@' => {
                p.p += 1;
                let mut n = p.name();
                if let Some(a) = self.aliases.get(&n) {
                    n = a.clone();
                }
                let id = *self.fn_by_name.get(&n).unwrap_or_else(|| p.fail("callee"));
                if self.funcs[id as usize].body.is_some() {
                    Callee::Fn(id)
                } else {
                    Callee::Ext(id)
                }
            }
            b'%' => {
                p.p += 1;
                let n = p.name();
                Callee::Ind(Op::R(fp.reg(n)))
            }
            _ => {
                if p.eat_word("asm") {
                    while p.peek() != b'"' {
                        p.word();
                    }
                    let s = p.string();
                    p.expect(b',');
                    p.ws();
                    p.string();
                    Callee::Asm(String::from_utf8_lossy(&s).into_owned())
                } else {
                    let t = self.ptr;
                    let v = self.parse_const(p, t);
                    Callee::Ind(Op::C(v))
                }
            }
        };
        p.expect(b'(');
        let mut args = vec![];
        while !p.eat(b')') {
            let t = self.parse_ty(p);
            if let Ty::Meta = self.tys[t as usize] {
                // metadata argument: skip to , or )
                let mut depth = 0;
                loop {
                    let c = p.t[p.p];
                    if c == b'(' {
                        depth += 1;
                    } else if c == b')' {
                        if depth == 0 {
                            break;
                        }
                        depth -= 1;
                    } else if c == b',' && depth == 0 {
                        break;
                    }
                    p.p += 1;
                }
            } else {
                let o = self.operand(p, t, fp);
                args.push((t, o));
            }
            p.eat(b',');
        }
        I::Call { d, ret, f, args: args.into_boxed_slice(), nfixed }
    }
}

impl<'a> P<'a> {
    fn skip_fmf(&mut self) {
        loop {
            let s = self.p;
            match self.word() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => {}
                _ => {
                    self.p = s;
                    return;
                }
            }
        }
    }
}

struct FP {
    regs: HashMap<String, u32>,
    nregs: u32,
}
impl FP {
    fn reg(&mut self, n: String) -> u32 {
        let nr = &mut self.nregs;
        *self.regs.entry(n).or_insert_with(|| {
            *nr += 1;
            *nr - 1
        })
    }
}

fn isext(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        (((v << (64 - w)) as i64) >> (64 - w)) as u64
    }
}

fn memchr(t: &[u8], from: usize, c: u8) -> usize {
    match t[from.min(t.len())..].iter().position(|&x| x == c) {
        Some(k) => from + k,
        None => t.len(),
    }
}

fn fn_name(line: &[u8]) -> String {
    let mut p = P { t: line, p: 0 };
    loop {
        let c = p.t[p.p];
        if c == b'"' {
            p.string();
        } else if c == b'@' {
            p.p += 1;
            return p.name();
        } else if c == b'(' {
            p.skip_group();
        } else {
            p.p += 1;
        }
    }
}
