//! Parser and lowering for textual LLVM IR (the subset rustc + opt emit).
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Fp(u32), Vec(u64, Box<Ty>), Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Other }

impl Ty {
    pub fn size_align(&self) -> (u64, u64) {
        match self {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); let b = if *w > 64 { (*w as u64 + 63) / 64 * 8 } else { b }; (b, if *w > 64 { 16 } else { b }) }
            Ty::Ptr => (8, 8),
            Ty::Fp(w) => { let b = (*w as u64) / 8; (b, b) }
            Ty::Vec(n, t) => {
                let bits = match **t { Ty::Int(w) => w as u64, Ty::Fp(w) => w as u64, _ => 64 };
                let b = ((n * bits + 7) / 8).next_power_of_two();
                (b, b)
            }
            Ty::Arr(n, t) => { let (s, a) = t.size_align(); (s * n, a) }
            Ty::Struct(f, packed) => {
                let (mut o, mut al) = (0, 1);
                for t in f { let (s, a) = t.size_align(); if !packed { o = (o + a - 1) / a * a; al = al.max(a); } o += s; }
                if !packed { o = (o + al - 1) / al * al; }
                (o, al)
            }
        }
    }
    pub fn leaves(&self, off: u64, out: &mut Vec<(u64, u8)>) {
        match self {
            Ty::Void | Ty::Other => {}
            Ty::Int(w) if *w <= 64 => out.push((off, *w as u8)),
            Ty::Int(w) => { let mut left = *w; let mut o = off; while left > 0 { let k = left.min(64); out.push((o, k as u8)); left -= k; o += 8; } }
            Ty::Fp(w) if *w <= 64 => out.push((off, *w as u8)),
            Ty::Fp(_) => { out.push((off, 64)); out.push((off + 8, 64)); }
            Ty::Ptr => out.push((off, 64)),
            Ty::Vec(n, t) | Ty::Arr(n, t) => { let (s, _) = t.size_align(); for i in 0..*n { t.leaves(off + i * s, out); } }
            Ty::Struct(f, packed) => {
                let mut o = off;
                let base = off;
                for t in f {
                    let (s, a) = t.size_align();
                    if !packed { o = base + (o - base + a - 1) / a * a; }
                    t.leaves(o, out);
                    o += s;
                }
            }
        }
    }
    pub fn lanes(&self) -> usize {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => ((*w as usize + 63) / 64).max(1),
            Ty::Fp(w) => if *w <= 64 { 1 } else { 2 },
            Ty::Ptr => 1,
            Ty::Vec(n, t) | Ty::Arr(n, t) => *n as usize * t.lanes(),
            Ty::Struct(f, _) => f.iter().map(|t| t.lanes()).sum(),
        }
    }
    fn field(&self, i: u64) -> (&Ty, u64, usize) {
        // element type, byte offset, lane offset
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => { let (s, _) = t.size_align(); (t, s * i, t.lanes() * i as usize) }
            Ty::Struct(f, packed) => {
                let (mut o, mut l) = (0, 0);
                for (j, t) in f.iter().enumerate() {
                    let (s, a) = t.size_align();
                    if !packed { o = (o + a - 1) / a * a; }
                    if j as u64 == i { return (t, o, l); }
                    o += s;
                    l += t.lanes();
                }
                panic!("field")
            }
            _ => panic!("field of {self:?}"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> { W(&'a str), L(&'a str), G(&'a str), N(&'a str), S(&'a str), CS(&'a str), P(u8) }

pub fn tokenize<'a>(s: &'a str, out: &mut Vec<Tok<'a>>) {
    let b = s.as_bytes();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let st;
                let en;
                if b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' { j += 1; }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && idc(b[j]) { j += 1; }
                    en = j;
                    i = j;
                }
                out.push(if c == b'%' { Tok::L(&s[st..en]) } else { Tok::G(&s[st..en]) });
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' { j += 1; }
                out.push(Tok::S(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' { j += 1; }
                out.push(Tok::CS(&s[st..j]));
                i = j + 1;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+') { i += 1; }
                out.push(Tok::N(&s[st..i]));
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && (idc(b[i])) { i += 1; }
                out.push(Tok::W(&s[st..i]));
            }
            _ => { out.push(Tok::P(c)); i += 1; }
        }
    }
}

pub type Op = i32;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    Nop, Memcpy, Memmove, Memset, Bswap, BitRev, Ctlz, Cttz, Ctpop, Fshl, Fshr,
    UAddO, SAddO, USubO, SSubO, UMulO, SMulO, UAddSat, USubSat, SAddSat, SSubSat,
    UMax, UMin, SMax, SMin, Abs, Trap, Tls, Scmp, Ucmp, Expect, VReduceOr, VReduceAnd, VReduceAdd, PtrMask,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Bcmp, Strlen, Getenv, Abort, RetZero, RandomKeys,
    FmtWrite, PanicFmt, PanicNounwind, ErrnoLoc,
    SymByte, SymRange, SymAssume, SymCheck, SymObs, SymHash, SymReach, SymFork,
}

#[derive(Debug)]
pub struct Edge { pub pc: u32, pub moves: Box<[(u32, Op)]> }

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u8, n: u16, dst: u32, a: Op, b: Op },
    Bin128 { op: BinOp, dst: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u8, n: u16, dst: u32, a: Op, b: Op },
    Icmp128 { p: Pred, dst: u32, a: Op, b: Op },
    Zext { f: u8, t: u8, n: u16, dst: u32, a: Op },
    Sext { f: u8, t: u8, n: u16, dst: u32, a: Op },
    Trunc { f: u8, t: u8, n: u16, dst: u32, a: Op },
    Cast128 { kind: u8, f: u8, t: u8, dst: u32, a: Op }, // 0 zext->128, 1 sext->128, 2 trunc from 128
    Bitcast { n1: u16, w1: u8, n2: u16, w2: u8, dst: u32, a: Op },
    Copy { n: u32, dst: u32, a: Op },
    Load1 { w: u8, dst: u32, p: Op },
    Load { l: Box<[(u64, u8)]>, dst: u32, p: Op },
    Store1 { w: u8, v: Op, p: Op },
    StoreBits { n: u16, v: Op, p: Op },
    LoadBits { n: u16, dst: u32, p: Op },
    Store { l: Box<[(u64, u8)]>, v: Op, p: Op },
    Gep { dst: u32, base: Op, off: u64, idx: Box<[(Op, u8, u64)]> },
    Select { dst: u32, c: Op, cn: u16, a: Op, b: Op, l: Box<[u8]> },
    Alloca { dst: u32, size: u64, align: u64 },
    Call { f: u32, args: Box<[(Op, u16)]>, dst: u32, inv: Option<Box<Edge>> },
    CallInd { p: Op, args: Box<[(Op, u16)]>, dst: u32, inv: Option<Box<Edge>> },
    CallExt { x: Ext, args: Box<[Op]>, dst: u32, inv: Option<Box<Edge>> },
    CallUnknown { name: String },
    Intrin { k: In, w: u8, n: u16, args: Box<[Op]>, dst: u32 },
    ExtractEl { dst: u32, v: Op, n: u16, idx: Op },
    InsertEl { dst: u32, v: Op, n: u16, x: Op, idx: Op },
    Shuffle { dst: u32, a: Op, b: Op, n: u16, mask: Box<[i32]> },
    Insert { dst: u32, v: Op, n: u32, x: Op, off: u32, m: u32 },
    Rmw { op: RmwOp, w: u8, dst: u32, p: Op, v: Op },
    CmpXchg { w: u8, dst: u32, p: Op, c: Op, v: Op },
    Br(Box<Edge>),
    CondBr { c: Op, t: Box<Edge>, e: Box<Edge> },
    Switch { v: Op, w: u8, cases: Box<[(u64, u32)]>, edges: Box<[Edge]> }, // edges[0] default; case index into edges
    Ret { v: Op, n: u32 },
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Func { pub code: Vec<Inst>, pub consts: Vec<u64>, pub nregs: u32, pub params: Vec<u16> }

pub struct FnDecl { pub name: String, pub text: Option<(usize, usize)>, pub lowered: OnceLock<Func> }

pub struct Program {
    pub text: String,
    pub fns: Vec<FnDecl>,
    pub fn_ids: HashMap<String, u32>,
    pub globals: HashMap<String, u64>,
    pub image: Vec<u8>, // initial globals image, base GLOBAL_BASE
    pub mutable_ranges: Vec<(u64, u64)>,
}
pub const GLOBAL_BASE: u64 = 0x10000;
pub const FN_BASE: u64 = 0x7000_0000_0000;

struct Ps<'a, 'p> { t: &'a [Tok<'a>], i: usize, prog: &'p Program }

fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().unwrap()).wrapping_neg() }
    else if s.starts_with("0x") { u128::from_str_radix(s.trim_start_matches("0x").trim_start_matches(|c| c == 'K' || c == 'H' || c == 'L'), 16).unwrap_or(0) }
    else { s.parse::<u128>().unwrap_or(0) }
}
fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; continue; }
            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else { v.push(b[i]); i += 1; }
    }
    v
}

impl<'a, 'p> Ps<'a, 'p> {
    fn peek(&self) -> Option<Tok<'a>> { self.t.get(self.i).copied() }
    fn next(&mut self) -> Tok<'a> { let t = self.t[self.i]; self.i += 1; t }
    fn is(&self, c: u8) -> bool { self.peek() == Some(Tok::P(c)) }
    fn eat(&mut self, c: u8) -> bool { if self.is(c) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: u8) { if !self.eat(c) { panic!("expected {:?} at {:?} in {:?}", c as char, self.i, &self.t[..self.t.len().min(60)]); } }
    fn skip_parens(&mut self) {
        if !self.eat(b'(') { return; }
        let mut d = 1;
        while d > 0 { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, _ => {} } }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => is_ty_word(w),
            Some(Tok::P(b'{')) | Some(Tok::P(b'[')) | Some(Tok::P(b'<')) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::W("void") => Ty::Void,
            Tok::W("ptr") => {
                if self.peek() == Some(Tok::W("addrspace")) { self.next(); self.skip_parens(); }
                Ty::Ptr
            }
            Tok::W("double") => Ty::Fp(64),
            Tok::W("float") => Ty::Fp(32),
            Tok::W("half") => Ty::Fp(16),
            Tok::W("x86_fp80") | Tok::W("fp128") => Ty::Fp(128),
            Tok::W("label") | Tok::W("metadata") | Tok::W("token") => Ty::Other,
            Tok::W(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
            Tok::P(b'[') => { let n = self.num(); self.exp_w("x"); let t = self.ty(); self.exp(b']'); Ty::Arr(n as u64, Box::new(t)) }
            Tok::P(b'{') => self.st_body(b'}', false),
            Tok::P(b'<') => {
                if self.eat(b'{') { let s = self.st_body(b'}', true); self.exp(b'>'); s }
                else { let n = self.num(); self.exp_w("x"); let t = self.ty(); self.exp(b'>'); Ty::Vec(n as u64, Box::new(t)) }
            }
            x => panic!("type {x:?} in {:?}", &self.t[..self.t.len().min(60)]),
        };
        t
    }
    fn st_body(&mut self, close: u8, packed: bool) -> Ty {
        let mut f = vec![];
        if self.eat(close) { return Ty::Struct(f, packed); }
        loop { f.push(self.ty()); if self.eat(close) { break; } self.exp(b','); }
        Ty::Struct(f, packed)
    }
    fn num(&mut self) -> u128 { match self.next() { Tok::N(s) => parse_int(s), x => panic!("num {x:?}") } }
    fn exp_w(&mut self, w: &str) { match self.next() { Tok::W(x) if x == w => {}, x => panic!("expected {w} got {x:?} in {:?}", &self.t[..self.t.len().min(60)]) } }
    fn fn_or_global(&self, g: &str) -> u64 {
        if let Some(&a) = self.prog.globals.get(g) { return a; }
        if let Some(&f) = self.prog.fn_ids.get(g) { return FN_BASE + f as u64 * 16; }
        panic!("unknown global @{g}")
    }
    /// constant of type ty, appended as lanes
    fn constant(&mut self, ty: &Ty, out: &mut Vec<u64>) {
        match self.peek().unwrap() {
            Tok::W("zeroinitializer") | Tok::W("poison") | Tok::W("undef") | Tok::W("null") | Tok::W("none") => { self.i += 1; for _ in 0..ty.lanes() { out.push(0); } }
            Tok::W("true") => { self.i += 1; out.push(1); }
            Tok::W("false") => { self.i += 1; out.push(0); }
            Tok::W("splat") => {
                self.i += 1;
                self.exp(b'(');
                let t = self.ty();
                let mut v = vec![];
                self.constant(&t, &mut v);
                self.exp(b')');
                if let Ty::Vec(n, _) = ty { for _ in 0..*n { out.extend_from_slice(&v); } } else { panic!() }
            }
            Tok::N(s) => {
                self.i += 1;
                let v = parse_int(s);
                match ty {
                    Ty::Int(w) if *w <= 64 => out.push((v & crate::expr::mask(*w as u8)) as u64),
                    Ty::Int(w) => { out.push(v as u64); for k in 1..((*w + 63) / 64) { out.push(if k == 1 { (v >> 64) as u64 } else { 0 }); } }
                    Ty::Fp(_) => { for _ in 0..ty.lanes() { out.push(v as u64); } }
                    _ => panic!("num const of {ty:?}"),
                }
            }
            Tok::CS(s) => { self.i += 1; for b in unescape(s) { out.push(b as u64); } }
            Tok::G(g) => { self.i += 1; out.push(self.fn_or_global(g)); }
            Tok::P(b'{') | Tok::P(b'[') => {
                let close = if self.is(b'{') { b'}' } else { b']' };
                self.i += 1;
                if self.eat(close) { return; }
                loop { let t = self.ty(); self.constant(&t, out); if self.eat(close) { break; } self.exp(b','); }
            }
            Tok::P(b'<') => {
                self.i += 1;
                if self.eat(b'{') {
                    if !self.is(b'}') { loop { let t = self.ty(); self.constant(&t, out); if !self.eat(b',') { break; } } }
                    self.exp(b'}');
                    self.exp(b'>');
                } else {
                    loop { let t = self.ty(); self.constant(&t, out); if self.eat(b'>') { break; } self.exp(b','); }
                }
            }
            Tok::W("getelementptr") => {
                self.i += 1;
                while !self.is(b'(') { self.i += 1; if let Some(Tok::P(b'(')) = self.peek() { break; } }
                // `inrange(..)` would be skipped here
                self.exp(b'(');
                let t = self.ty();
                self.exp(b',');
                let pt = self.ty();
                let mut base = vec![];
                self.constant(&pt, &mut base);
                let mut idx = vec![];
                while self.eat(b',') { let it = self.ty(); let mut v = vec![]; self.constant(&it, &mut v); let w = if let Ty::Int(w) = it { w } else { 64 }; idx.push(crate::expr::sx(v[0] as u128, w as u8) as i64); }
                self.exp(b')');
                let mut a = base[0] as i64;
                let mut cur = t;
                for (k, ix) in idx.iter().enumerate() {
                    if k == 0 { a += ix * cur.size_align().0 as i64; }
                    else {
                        let (ft, off) = match &cur { Ty::Struct(..) => { let (f, o, _) = cur.field(*ix as u64); (f.clone(), o as i64) } _ => { let (f, _, _) = cur.field(0); let s = f.size_align().0 as i64; (f.clone(), s * ix) } };
                        a += off;
                        cur = ft;
                    }
                }
                out.push(a as u64);
            }
            Tok::W(w @ ("inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext")) => {
                self.i += 1;
                self.exp(b'(');
                let t = self.ty();
                let mut v = vec![];
                self.constant(&t, &mut v);
                self.exp_w("to");
                let t2 = self.ty();
                self.exp(b')');
                let mut x = v[0];
                if w == "trunc" { if let Ty::Int(n) = t2 { x = (x as u128 & crate::expr::mask(n as u8)) as u64; } }
                out.push(x);
            }
            Tok::W(w @ ("add" | "sub" | "xor")) => {
                self.i += 1;
                while !self.is(b'(') { self.i += 1; }
                self.exp(b'(');
                let t = self.ty();
                let (mut a, mut b) = (vec![], vec![]);
                self.constant(&t, &mut a);
                self.exp(b',');
                let t = self.ty();
                self.constant(&t, &mut b);
                self.exp(b')');
                let r = match w { "add" => a[0].wrapping_add(b[0]), "sub" => a[0].wrapping_sub(b[0]), _ => a[0] ^ b[0] };
                let r = if let Ty::Int(n) = t { (r as u128 & crate::expr::mask(n as u8)) as u64 } else { r };
                out.push(r);
            }
            x => panic!("constant {x:?} of {ty:?} in {:?}", &self.t[..self.t.len().min(60)]),
        }
    }
    /// skip parameter attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) if is_attr(w) => {
                    self.i += 1;
                    if w == "align" { if let Some(Tok::N(_)) = self.peek() { self.i += 1; continue; } }
                    if self.is(b'(') { self.skip_parens(); }
                }
                Some(Tok::S(_)) => {
                    self.i += 1;
                    if self.eat(b'=') { self.i += 1; }
                }
                _ => return,
            }
        }
    }
}
fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "double" | "float" | "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "token")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_attr(w: &str) -> bool {
    matches!(w, "noundef" | "noalias" | "nonnull" | "readonly" | "readnone" | "writeonly" | "captures" | "align" | "dereferenceable" | "dereferenceable_or_null"
        | "sret" | "byval" | "range" | "zeroext" | "signext" | "immarg" | "nofree" | "initializes" | "inreg" | "returned" | "allocptr" | "allocalign" | "writable"
        | "dead_on_unwind" | "nocapture" | "noext" | "nofpclass" | "elementtype" | "swiftself" | "nest" | "inalloca" | "byref" | "dead_on_return")
}

struct Lower<'p> {
    prog: &'p Program,
    slots: HashMap<String, u32>,
    nregs: u32,
    consts: Vec<u64>,
    cmap: HashMap<Vec<u64>, Op>,
}

impl<'p> Lower<'p> {
    fn slot(&mut self, name: &str, lanes: usize) -> u32 {
        if let Some(&s) = self.slots.get(name) { return s; }
        let s = self.nregs;
        self.nregs += lanes as u32;
        self.slots.insert(name.to_string(), s);
        s
    }
    fn cop(&mut self, v: Vec<u64>) -> Op {
        if let Some(&o) = self.cmap.get(&v) { return o; }
        let o = !(self.consts.len() as i32);
        self.consts.extend_from_slice(&v);
        // lanes are laid out so that lane k is at consts[!o + k]
        self.cmap.insert(v, o);
        o
    }
    fn operand(&mut self, p: &mut Ps, ty: &Ty) -> Op {
        if let Some(Tok::L(n)) = p.peek() { p.i += 1; return self.slot(n, ty.lanes()) as Op; }
        let mut v = vec![];
        p.constant(ty, &mut v);
        if v.is_empty() { v.push(0); }
        self.cop(v)
    }
    fn ty_op(&mut self, p: &mut Ps) -> (Ty, Op) { let t = p.ty(); p.attrs(); let o = self.operand(p, &t); (t, o) }
}

fn lane_op(o: Op, k: usize) -> Op { if o >= 0 { o + k as i32 } else { o - k as i32 } }

fn vec_of(t: &Ty) -> (u16, u8) {
    match t {
        Ty::Int(w) => (1, *w as u8),
        Ty::Ptr => (1, 64),
        Ty::Fp(w) => (1, *w as u8),
        Ty::Vec(n, e) => { let (_, w) = vec_of(e); (*n as u16, w) }
        _ => panic!("vec_of {t:?}"),
    }
}

impl Program {
    pub fn load(text: String) -> Program {
        let mut prog = Program { text, fns: vec![], fn_ids: HashMap::new(), globals: HashMap::new(), image: vec![], mutable_ranges: vec![] };
        let text = std::mem::take(&mut prog.text);
        // pass 1: functions and global lines
        let mut pos = 0;
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut cur_fn: Option<(String, usize)> = None;
        for line in text.split_inclusive('\n') {
            let st = pos;
            pos += line.len();
            if let Some((name, fst)) = &cur_fn {
                if line.starts_with('}') {
                    let id = prog.fns.len() as u32;
                    prog.fns.push(FnDecl { name: name.clone(), text: Some((*fst, pos)), lowered: OnceLock::new() });
                    prog.fn_ids.insert(name.clone(), id);
                    cur_fn = None;
                }
                continue;
            }
            if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let rest = &line[at + 1..];
                let name = if rest.starts_with('"') { &rest[1..1 + rest[1..].find('"').unwrap()] } else { &rest[..rest.find('(').unwrap()] };
                if line.starts_with("define ") { cur_fn = Some((name.to_string(), st)); }
                else {
                    let id = prog.fns.len() as u32;
                    prog.fns.push(FnDecl { name: name.to_string(), text: None, lowered: OnceLock::new() });
                    prog.fn_ids.insert(name.to_string(), id);
                }
            } else if line.starts_with('@') { glines.push((st, pos)); }
        }
        // globals: assign addresses
        let mut addr = GLOBAL_BASE;
        let mut pend: Vec<(u64, Ty, usize, Vec<Tok>)> = vec![];
        for &(a, b) in &glines {
            let line = &text[a..b];
            let mut toks = vec![];
            tokenize(line, &mut toks);
            let name = match toks[0] { Tok::G(g) => g.to_string(), _ => panic!() };
            let mut p = Ps { t: &toks, i: 2, prog: &prog };
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match p.peek() {
                    Some(Tok::W("constant")) => { constant = true; p.i += 1; break; }
                    Some(Tok::W("global")) => { p.i += 1; break; }
                    Some(Tok::W("alias")) => { alias = true; p.i += 1; break; }
                    Some(Tok::W("external")) | Some(Tok::W("extern_weak")) => { external = true; p.i += 1; }
                    Some(Tok::W("thread_local")) => { p.i += 1; if p.is(b'(') { p.skip_parens(); } }
                    Some(_) => p.i += 1,
                    None => panic!("global {line}"),
                }
            }
            if alias {
                // alias <ty>, ptr @target
                let last = toks.iter().rev().find_map(|t| if let Tok::G(g) = t { Some(*g) } else { None }).unwrap();
                if let Some(&f) = prog.fn_ids.get(last) { prog.fn_ids.insert(name, f); }
                else if let Some(&g) = prog.globals.get(last) { prog.globals.insert(name, g); }
                continue;
            }
            let ty = p.ty();
            let init_at = p.i;
            if external { prog.globals.insert(name.clone(), 0); continue; }
            let mut align = 16u64;
            for k in init_at..toks.len() {
                if toks[k] == Tok::W("align") { if let Some(Tok::N(s)) = toks.get(k + 1) { align = s.parse().unwrap_or(16); } }
            }
            let (size, al) = ty.size_align();
            let align = align.max(al).max(1);
            addr = (addr + align - 1) / align * align;
            prog.globals.insert(name, addr);
            if !constant { prog.mutable_ranges.push((addr, addr + size)); }
            let mut t2: Vec<Tok> = vec![];
            std::mem::swap(&mut t2, &mut toks);
            pend.push((addr, ty, init_at, t2));
            addr += size.max(1);
        }
        let mut image = vec![0u8; (addr - GLOBAL_BASE) as usize + 64];
        for (a, ty, i, toks) in &pend {
            let mut p = Ps { t: toks, i: *i, prog: &prog };
            let mut v = vec![];
            p.constant(ty, &mut v);
            let mut l = vec![];
            ty.leaves(0, &mut l);
            assert_eq!(l.len(), v.len());
            for ((off, w), x) in l.iter().zip(&v) {
                let n = (*w as usize + 7) / 8;
                let at = (a - GLOBAL_BASE + off) as usize;
                image[at..at + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
        drop(pend);
        prog.image = image;
        prog.text = text;
        prog
    }
    pub fn func(&self, id: u32) -> &Func {
        let d = &self.fns[id as usize];
        d.lowered.get_or_init(|| { let (a, b) = d.text.unwrap(); lower(self, &self.text[a..b]) })
    }
}

fn ext_of(name: &str) -> Option<Ext> {
    Some(match name {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::PosixMemalign,
        "memcmp" => Ext::Memcmp,
        "bcmp" => Ext::Bcmp,
        "strlen" => Ext::Strlen,
        "getenv" => Ext::Getenv,
        "abort" => Ext::Abort,
        "__errno_location" => Ext::ErrnoLoc,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "sched_yield" | "gettid" => Ext::RetZero,
        "__sym_byte" => Ext::SymByte,
        "__sym_range" => Ext::SymRange,
        "__sym_assume" => Ext::SymAssume,
        "__sym_check" => Ext::SymCheck,
        "__sym_obs" => Ext::SymObs,
        "__sym_hash" => Ext::SymHash,
        "__sym_reach" => Ext::SymReach,
        "__sym_fork" => Ext::SymFork,
        n if n.contains("hashmap_random_keys") => Ext::RandomKeys,
        n if n.contains("hash_one") || n.contains("9make_hash") || n.contains("16make_insert_hash") => Ext::RetZero,
        n if n.ends_with("4core3fmt5write") => Ext::FmtWrite,
        n if n.contains("9panicking9panic_fmt") => Ext::PanicFmt,
        n if n.contains("panic_nounwind") => Ext::PanicNounwind,
        _ => return None,
    })
}

fn intrin_of(name: &str) -> Option<In> {
    let n = &name[5..];
    let pre = |s: &str| n.starts_with(s);
    Some(if pre("lifetime") || pre("assume") || pre("experimental.noalias") || pre("dbg.") || pre("x86.sse2.pause") || pre("invariant") || pre("prefetch") || pre("donothing") { In::Nop }
    else if pre("memcpy") { In::Memcpy } else if pre("memmove") { In::Memmove } else if pre("memset") { In::Memset }
    else if pre("bswap") { In::Bswap } else if pre("bitreverse") { In::BitRev } else if pre("ctlz") { In::Ctlz } else if pre("cttz") { In::Cttz } else if pre("ctpop") { In::Ctpop }
    else if pre("fshl") { In::Fshl } else if pre("fshr") { In::Fshr }
    else if pre("uadd.with") { In::UAddO } else if pre("sadd.with") { In::SAddO } else if pre("usub.with") { In::USubO } else if pre("ssub.with") { In::SSubO }
    else if pre("umul.with") { In::UMulO } else if pre("smul.with") { In::SMulO }
    else if pre("uadd.sat") { In::UAddSat } else if pre("usub.sat") { In::USubSat } else if pre("sadd.sat") { In::SAddSat } else if pre("ssub.sat") { In::SSubSat }
    else if pre("umax") { In::UMax } else if pre("umin") { In::UMin } else if pre("smax") { In::SMax } else if pre("smin") { In::SMin } else if pre("abs") { In::Abs }
    else if pre("trap") || pre("ubsantrap") { In::Trap } else if pre("threadlocal.address") { In::Tls } else if pre("scmp") { In::Scmp } else if pre("ucmp") { In::Ucmp }
    else if pre("expect") { In::Expect } else if pre("vector.reduce.or") { In::VReduceOr } else if pre("vector.reduce.and") { In::VReduceAnd } else if pre("vector.reduce.add") { In::VReduceAdd }
    else if pre("ptrmask") { In::PtrMask }
    else { return None })
}

fn lower(prog: &Program, text: &str) -> Func {
    // logical lines
    let mut lines: Vec<String> = vec![];
    let mut it = text.lines();
    let header = it.next().unwrap();
    for l in it {
        if l.starts_with('}') { break; }
        if l.trim().is_empty() { continue; }
        if l.starts_with("          ") || l.starts_with("    ") || (l.starts_with("  ]")) {
            if let Some(p) = lines.last_mut() { p.push(' '); p.push_str(l.trim()); }
        } else { lines.push(l.to_string()); }
    }
    let mut lo = Lower { prog, slots: HashMap::new(), nregs: 0, consts: vec![], cmap: HashMap::new() };
    // header
    let mut toks = vec![];
    tokenize(header, &mut toks);
    let mut i = 0;
    while !matches!(toks[i], Tok::G(_)) { i += 1; }
    let mut params = vec![];
    let mut unnamed = 0usize;
    {
        let mut p = Ps { t: &toks, i: i + 1, prog };
        p.exp(b'(');
        if !p.eat(b')') {
            loop {
                if let Some(Tok::W("...")) = p.peek() { p.i += 1; p.exp(b')'); break; }
                let t = p.ty();
                p.attrs();
                let n = t.lanes();
                params.push(n as u16);
                match p.peek() {
                    Some(Tok::L(name)) => { p.i += 1; if name.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } lo.slot(name, n); }
                    _ => { let nm = unnamed.to_string(); unnamed += 1; lo.slot(&nm, n); }
                }
                if p.eat(b')') { break; }
                p.exp(b',');
            }
        }
    }
    let mut blocks: Vec<(String, Vec<&str>)> = vec![];
    let entry = unnamed.to_string();
    for l in &lines {
        if !l.starts_with(' ') {
            let name = if l.starts_with('"') { l[1..].split('"').next().unwrap() } else { l.split(':').next().unwrap() };
            blocks.push((name.to_string(), vec![]));
        } else {
            if blocks.is_empty() { blocks.push((entry.clone(), vec![])); }
            blocks.last_mut().unwrap().1.push(l.trim());
        }
    }
    let bidx: HashMap<&str, usize> = blocks.iter().enumerate().map(|(i, b)| (b.0.as_str(), i)).collect();
    // phis
    struct Phi { dst: u32, lanes: usize, inc: Vec<(usize, Op)> }
    let mut phis: Vec<Vec<Phi>> = vec![];
    for (_, ls) in &blocks {
        let mut v = vec![];
        for l in ls {
            if !l.contains(" = phi ") { continue; }
            let mut toks = vec![];
            tokenize(l, &mut toks);
            let dstn = match toks[0] { Tok::L(n) => n, _ => panic!() };
            let mut p = Ps { t: &toks, i: 3, prog };
            while !p.is_type_start() { p.i += 1; }
            let t = p.ty();
            let lanes = t.lanes();
            let dst = lo.slot(dstn, lanes);
            let mut inc = vec![];
            loop {
                p.exp(b'[');
                let o = lo.operand(&mut p, &t);
                p.exp(b',');
                let lb = match p.next() { Tok::L(n) => n, _ => panic!() };
                p.exp(b']');
                if let Some(&b) = bidx.get(lb) { inc.push((b, o)); }
                if !p.eat(b',') || p.is(b'!') { break; }
            }
            v.push(Phi { dst, lanes, inc });
        }
        phis.push(v);
    }
    let mut code: Vec<Inst> = vec![];
    let mut starts: Vec<u32> = vec![];
    let edge = |from: usize, to: &str| -> Edge {
        let t = bidx[to];
        let mut mv = vec![];
        for ph in &phis[t] {
            let o = ph.inc.iter().find(|(b, _)| *b == from).map(|x| x.1).unwrap_or_else(|| panic!("phi edge missing {to}"));
            for k in 0..ph.lanes { mv.push((ph.dst + k as u32, lane_op(o, k))); }
        }
        Edge { pc: t as u32, moves: mv.into_boxed_slice() }
    };
    for bi in 0..blocks.len() {
        starts.push(code.len() as u32);
        for l in &blocks[bi].1 {
            if l.contains(" = phi ") { continue; }
            let mut toks = vec![];
            tokenize(l, &mut toks);
            let inst = lower_inst(&mut lo, &toks, bi, &edge, l);
            if let Some(x) = inst { code.push(x); }
        }
    }
    // fix edge pcs
    let fix = |e: &mut Edge| e.pc = starts[e.pc as usize];
    for c in &mut code {
        match c {
            Inst::Br(e) => fix(e),
            Inst::CondBr { t, e, .. } => { fix(t); fix(e); }
            Inst::Switch { edges, .. } => for e in edges.iter_mut() { fix(e) },
            Inst::Call { inv: Some(e), .. } | Inst::CallInd { inv: Some(e), .. } | Inst::CallExt { inv: Some(e), .. } => fix(e),
            _ => {}
        }
    }
    Func { code, consts: lo.consts, nregs: lo.nregs, params }
}

fn lower_inst(lo: &mut Lower, toks: &[Tok], bi: usize, edge: &dyn Fn(usize, &str) -> Edge, line: &str) -> Option<Inst> {
    let prog = lo.prog;
    let mut p = Ps { t: toks, i: 0, prog };
    let mut dstn: Option<&str> = None;
    if let (Tok::L(n), Some(Tok::P(b'='))) = (toks[0], toks.get(1)) { dstn = Some(n); p.i = 2; }
    let mut opw = match p.next() { Tok::W(w) => w, x => panic!("inst {x:?} in {line}") };
    if matches!(opw, "tail" | "musttail" | "notail") { opw = match p.next() { Tok::W(w) => w, _ => panic!() }; }
    let bin = |s: &str| Some(match s {
        "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem,
        "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, _ => return None });
    let skip_flags = |p: &mut Ps| { while let Some(Tok::W(w)) = p.peek() { if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nneg" | "samesign" | "nusw" | "volatile" | "atomic" | "weak") { p.i += 1; } else { break; } } };
    if let Some(op) = bin(opw) {
        skip_flags(&mut p);
        let t = p.ty();
        let a = lo.operand(&mut p, &t);
        p.exp(b',');
        let b = lo.operand(&mut p, &t);
        let dst = lo.slot(dstn.unwrap(), t.lanes());
        if let Ty::Int(w) = t { if w > 64 { if w > 128 { return Some(Inst::Unsupported(line.into())); } return Some(Inst::Bin128 { op, dst, a, b }); } }
        let (n, w) = vec_of(&t);
        return Some(Inst::Bin { op, w, n, dst, a, b });
    }
    match opw {
        "icmp" => {
            skip_flags(&mut p);
            let pr = match p.next() { Tok::W(w) => match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle }, _ => panic!() };
            let t = p.ty();
            let a = lo.operand(&mut p, &t);
            p.exp(b',');
            let b = lo.operand(&mut p, &t);
            if let Ty::Int(w) = t { if w > 64 {
                let dst = lo.slot(dstn.unwrap(), 1);
                if w > 128 { return Some(Inst::Unsupported(line.into())); }
                return Some(Inst::Icmp128 { p: pr, dst, a, b });
            } }
            let (n, w) = vec_of(&t);
            let dst = lo.slot(dstn.unwrap(), n as usize);
            Some(Inst::Icmp { p: pr, w, n, dst, a, b })
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            skip_flags(&mut p);
            let t = p.ty();
            let a = lo.operand(&mut p, &t);
            p.exp_w("to");
            let t2 = p.ty();
            let dst = lo.slot(dstn.unwrap(), t2.lanes());
            let big = |t: &Ty| matches!(t, Ty::Int(w) if *w > 64);
            if big(&t) || big(&t2) {
                let wid = |t: &Ty| if let Ty::Int(w) = t { *w } else { 0 };
                if wid(&t) > 128 || wid(&t2) > 128 || opw == "bitcast" { return Some(Inst::Unsupported(line.into())); }
                let kind = match opw { "zext" => 0, "sext" => 1, "trunc" => 2, _ => return Some(Inst::Unsupported(line.into())) };
                return Some(Inst::Cast128 { kind, f: wid(&t) as u8, t: wid(&t2) as u8, dst, a });
            }
            if opw == "bitcast" && (matches!(t, Ty::Struct(..) | Ty::Arr(..))) { return Some(Inst::Unsupported(line.into())); }
            let (n1, w1) = vec_of(&t);
            let (n2, w2) = vec_of(&t2);
            Some(match opw {
                "bitcast" => if (n1, w1) == (n2, w2) { Inst::Copy { n: n1 as u32, dst, a } } else { Inst::Bitcast { n1, w1, n2, w2, dst, a } },
                _ => if w1 == w2 { Inst::Copy { n: n1 as u32, dst, a } }
                     else if opw == "sext" { Inst::Sext { f: w1, t: w2, n: n1, dst, a } }
                     else if w1 < w2 { Inst::Zext { f: w1, t: w2, n: n1, dst, a } }
                     else { Inst::Trunc { f: w1, t: w2, n: n1, dst, a } },
            })
        }
        "freeze" => { let (t, a) = lo.ty_op(&mut p); let dst = lo.slot(dstn.unwrap(), t.lanes()); Some(Inst::Copy { n: t.lanes() as u32, dst, a }) }
        "load" => {
            skip_flags(&mut p);
            let t = p.ty();
            p.exp(b',');
            let (_, pp) = lo.ty_op(&mut p);
            let dst = lo.slot(dstn.unwrap(), t.lanes());
            if let Ty::Vec(n, e) = &t { if let Ty::Int(w) = **e { if w == 1 && *n <= 64 { return Some(Inst::LoadBits { n: *n as u16, dst, p: pp }); } if w % 8 != 0 { return Some(Inst::Unsupported(line.into())); } } }
            let mut l = vec![];
            t.leaves(0, &mut l);
            if l.len() == 1 { return Some(Inst::Load1 { w: l[0].1, dst, p: pp }); }
            Some(Inst::Load { l: l.into_boxed_slice(), dst, p: pp })
        }
        "store" => {
            skip_flags(&mut p);
            let (t, v) = lo.ty_op(&mut p);
            p.exp(b',');
            let (_, pp) = lo.ty_op(&mut p);
            if let Ty::Vec(n, e) = &t { if let Ty::Int(w) = **e { if w == 1 && *n <= 64 { return Some(Inst::StoreBits { n: *n as u16, v, p: pp }); } if w % 8 != 0 { return Some(Inst::Unsupported(line.into())); } } }
            let mut l = vec![];
            t.leaves(0, &mut l);
            if l.len() == 1 { return Some(Inst::Store1 { w: l[0].1, v, p: pp }); }
            Some(Inst::Store { l: l.into_boxed_slice(), v, p: pp })
        }
        "getelementptr" => {
            skip_flags(&mut p);
            let t = p.ty();
            p.exp(b',');
            let (bt, base) = lo.ty_op(&mut p);
            if matches!(bt, Ty::Vec(..)) { return Some(Inst::Unsupported(line.into())); }
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = t;
            let mut k = 0;
            while p.eat(b',') {
                if p.is(b'!') { break; }
                let it = p.ty();
                let iw = if let Ty::Int(w) = it { w as u8 } else { 64 };
                let o = lo.operand(&mut p, &it);
                let cv = if o < 0 { Some(crate::expr::sx(lo.consts[(!o) as usize] as u128, iw) as i64) } else { None };
                if k == 0 {
                    let s = cur.size_align().0;
                    match cv { Some(c) => off += c * s as i64, None => idx.push((o, iw, s)) }
                } else {
                    let nt = match &cur {
                        Ty::Struct(..) => { let (f, bo, _) = cur.field(cv.unwrap() as u64); off += bo as i64; f.clone() }
                        _ => { let (f, _, _) = cur.field(0); let s = f.size_align().0; match cv { Some(c) => off += c * s as i64, None => idx.push((o, iw, s)) } f.clone() }
                    };
                    cur = nt;
                }
                k += 1;
            }
            let dst = lo.slot(dstn.unwrap(), 1);
            Some(Inst::Gep { dst, base, off: off as u64, idx: idx.into_boxed_slice() })
        }
        "select" => {
            let (ct, c) = lo.ty_op(&mut p);
            p.exp(b',');
            let (t, a) = lo.ty_op(&mut p);
            p.exp(b',');
            let (_, b) = lo.ty_op(&mut p);
            let dst = lo.slot(dstn.unwrap(), t.lanes());
            let mut l = vec![];
            t.leaves(0, &mut l);
            Some(Inst::Select { dst, c, cn: ct.lanes() as u16, a, b, l: l.iter().map(|x| x.1).collect() })
        }
        "alloca" => {
            let t = p.ty();
            let (mut size, mut align) = t.size_align();
            while p.eat(b',') {
                if let Some(Tok::W("align")) = p.peek() { p.i += 1; align = align.max(p.num() as u64); }
                else if p.is_type_start() { let it = p.ty(); let mut v = vec![]; if matches!(p.peek(), Some(Tok::L(_))) { return Some(Inst::Unsupported(line.into())); } p.constant(&it, &mut v); size *= v[0]; }
                else { break; }
            }
            let dst = lo.slot(dstn.unwrap(), 1);
            Some(Inst::Alloca { dst, size, align })
        }
        "call" | "invoke" => {
            // skip calling convention / return attributes
            loop {
                if p.is_type_start() { break; }
                match p.next() {
                    Tok::W("align") => { if let Some(Tok::N(_)) = p.peek() { p.i += 1; } }
                    Tok::W(_) | Tok::N(_) | Tok::S(_) => { if p.is(b'(') { p.skip_parens(); } }
                    x => panic!("call prefix {x:?} in {line}"),
                }
            }
            let rt = p.ty();
            if p.is(b'(') { p.skip_parens(); }
            let callee = p.next();
            if let Tok::W("asm") = callee { return Some(Inst::Unsupported(line.into())); }
            p.exp(b'(');
            let mut args: Vec<(Op, u16)> = vec![];
            let mut tys: Vec<Ty> = vec![];
            let name = if let Tok::G(g) = callee { g } else { "" };
            let intrin = if name.starts_with("llvm.") { Some(intrin_of(name)) } else { None };
            if let Some(Some(In::Nop)) = intrin { return None; }
            if intrin == Some(None) { return Some(Inst::CallUnknown { name: name.to_string() }); }
            if !p.eat(b')') {
                loop {
                    let t = p.ty();
                    p.attrs();
                    if t == Ty::Other { return Some(Inst::Unsupported(line.into())); }
                    let o = lo.operand(&mut p, &t);
                    args.push((o, t.lanes() as u16));
                    tys.push(t);
                    if p.eat(b')') { break; }
                    p.exp(b',');
                }
            }
            let inv = if opw == "invoke" {
                while p.peek() != Some(Tok::W("to")) { p.i += 1; }
                p.i += 2; // to label
                let lb = match p.next() { Tok::L(n) => n, x => panic!("invoke {x:?}") };
                Some(Box::new(edge(bi, lb)))
            } else { None };
            let dst = match dstn { Some(n) => lo.slot(n, rt.lanes()), None => u32::MAX };
            if let Some(Some(k)) = intrin {
                let t0 = tys.first().cloned().unwrap_or(Ty::Int(64));
                if let Ty::Int(w) = t0 { if w > 64 { return Some(Inst::Unsupported(line.into())); } }
                let (n, w) = vec_of(&t0);
                return Some(Inst::Intrin { k, w, n, args: args.iter().map(|a| a.0).collect(), dst });
            }
            match callee {
                Tok::G(g) => {
                    let f = prog.fn_ids[g];
                    if prog.fns[f as usize].text.is_some() { Some(Inst::Call { f, args: args.into_boxed_slice(), dst, inv }) }
                    else if let Some(x) = ext_of(g) { Some(Inst::CallExt { x, args: args.iter().map(|a| a.0).collect(), dst, inv }) }
                    else { Some(Inst::CallUnknown { name: g.to_string() }) }
                }
                Tok::L(n) => { let o = lo.slot(n, 1) as Op; Some(Inst::CallInd { p: o, args: args.into_boxed_slice(), dst, inv }) }
                _ => Some(Inst::Unsupported(line.into())),
            }
        }
        "br" => {
            let t = p.ty();
            if t == Ty::Other {
                let lb = match p.next() { Tok::L(n) => n, _ => panic!() };
                return Some(Inst::Br(Box::new(edge(bi, lb))));
            }
            let c = lo.operand(&mut p, &t);
            p.exp(b',');
            p.ty();
            let a = match p.next() { Tok::L(n) => n, _ => panic!() };
            p.exp(b',');
            p.ty();
            let b = match p.next() { Tok::L(n) => n, _ => panic!() };
            Some(Inst::CondBr { c, t: Box::new(edge(bi, a)), e: Box::new(edge(bi, b)) })
        }
        "switch" => {
            let (t, v) = lo.ty_op(&mut p);
            p.exp(b',');
            p.ty();
            let d = match p.next() { Tok::L(n) => n, _ => panic!() };
            p.exp(b'[');
            let mut edges = vec![edge(bi, d)];
            let mut names = vec![d];
            let mut cases = vec![];
            while !p.eat(b']') {
                let ct = p.ty();
                let mut c = vec![];
                p.constant(&ct, &mut c);
                p.exp(b',');
                p.ty();
                let lb = match p.next() { Tok::L(n) => n, _ => panic!() };
                let k = match names.iter().position(|x| *x == lb) { Some(k) => k, None => { names.push(lb); edges.push(edge(bi, lb)); names.len() - 1 } };
                cases.push((c[0], k as u32));
            }
            let w = if let Ty::Int(w) = t { w } else { 64 };
            if w > 64 { return Some(Inst::Unsupported(line.into())); }
            Some(Inst::Switch { v, w: w as u8, cases: cases.into_boxed_slice(), edges: edges.into_boxed_slice() })
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void { return Some(Inst::Ret { v: 0, n: 0 }); }
            let v = lo.operand(&mut p, &t);
            Some(Inst::Ret { v, n: t.lanes() as u32 })
        }
        "unreachable" => Some(Inst::Unreachable),
        "resume" | "landingpad" | "cleanupret" => {
            if let Some(n) = dstn { lo.slot(n, 2); }
            Some(Inst::Unsupported(line.into()))
        }
        "extractvalue" => {
            let (t, v) = lo.ty_op(&mut p);
            let mut cur = &t;
            let mut off = 0;
            while p.eat(b',') { if p.is(b'!') { break; } let k = p.num() as u64; let (ft, _, l) = cur.field(k); off += l; cur = ft; }
            let n = cur.lanes();
            let dst = lo.slot(dstn.unwrap(), n);
            Some(Inst::Copy { n: n as u32, dst, a: lane_op(v, off) })
        }
        "insertvalue" => {
            let (t, v) = lo.ty_op(&mut p);
            p.exp(b',');
            let (xt, x) = lo.ty_op(&mut p);
            let mut cur = &t;
            let mut off = 0;
            while p.eat(b',') { if p.is(b'!') { break; } let k = p.num() as u64; let (ft, _, l) = cur.field(k); off += l; cur = ft; }
            let n = t.lanes();
            let dst = lo.slot(dstn.unwrap(), n);
            Some(Inst::Insert { dst, v, n: n as u32, x, off: off as u32, m: xt.lanes() as u32 })
        }
        "extractelement" => {
            let (t, v) = lo.ty_op(&mut p);
            p.exp(b',');
            let (_, idx) = lo.ty_op(&mut p);
            let (n, _) = vec_of(&t);
            let dst = lo.slot(dstn.unwrap(), 1);
            Some(Inst::ExtractEl { dst, v, n, idx })
        }
        "insertelement" => {
            let (t, v) = lo.ty_op(&mut p);
            p.exp(b',');
            let (_, x) = lo.ty_op(&mut p);
            p.exp(b',');
            let (_, idx) = lo.ty_op(&mut p);
            let (n, _) = vec_of(&t);
            let dst = lo.slot(dstn.unwrap(), n as usize);
            Some(Inst::InsertEl { dst, v, n, x, idx })
        }
        "shufflevector" => {
            let (t, a) = lo.ty_op(&mut p);
            p.exp(b',');
            let (_, b) = lo.ty_op(&mut p);
            p.exp(b',');
            let mt = p.ty();
            let mut m = vec![];
            p.constant(&mt, &mut m);
            let (n, _) = vec_of(&t);
            let dst = lo.slot(dstn.unwrap(), m.len());
            Some(Inst::Shuffle { dst, a, b, n, mask: m.iter().map(|x| *x as i32).collect() })
        }
        "atomicrmw" => {
            skip_flags(&mut p);
            let op = match p.next() { Tok::W(w) => match w { "xchg" => RmwOp::Xchg, "add" => RmwOp::Add, "sub" => RmwOp::Sub, "and" => RmwOp::And, "or" => RmwOp::Or, "xor" => RmwOp::Xor, "max" => RmwOp::Max, "min" => RmwOp::Min, "umax" => RmwOp::UMax, "umin" => RmwOp::UMin, _ => return Some(Inst::Unsupported(line.into())) }, _ => panic!() };
            let (_, pp) = lo.ty_op(&mut p);
            p.exp(b',');
            let (t, v) = lo.ty_op(&mut p);
            let (_, w) = vec_of(&t);
            let dst = lo.slot(dstn.unwrap_or("__unused_rmw"), 1);
            Some(Inst::Rmw { op, w, dst, p: pp, v })
        }
        "cmpxchg" => {
            skip_flags(&mut p);
            let (_, pp) = lo.ty_op(&mut p);
            p.exp(b',');
            let (t, c) = lo.ty_op(&mut p);
            p.exp(b',');
            let (_, v) = lo.ty_op(&mut p);
            let (_, w) = vec_of(&t);
            let dst = lo.slot(dstn.unwrap_or("__unused_cx"), 2);
            Some(Inst::CmpXchg { w, dst, p: pp, c, v })
        }
        "fence" => None,
        _ => {
            if let Some(n) = dstn { // best effort slot for floating point etc.
                lo.slot(n, 1);
            }
            Some(Inst::Unsupported(line.into()))
        }
    }
}
