//! Symbolic executor: every register and memory byte carries a concrete value (under the
//! current model) and, when it depends on symbolic inputs, an expression.  One call of `run`
//! executes one path completely; every data-dependent choice is recorded as a decision.
use crate::expr::*;
use crate::hash;
use crate::ir::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, Default)]
pub struct Val { pub c: u64, pub e: E }

pub const MEM: usize = 160 << 20;
const STACK: u64 = 24 << 20;
const GRAN: u64 = 64;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    AssumeFalse,
    CheckFail(String),
    Panic(String),
    Abort(String),
    StackOverflow(String),
    StepLimit(String),
    Engine(String),
}

pub struct Decision { pub e: E, pub flip: bool, pub conc: Option<u64>, pub site: u64, /* concretised expression, its width */ pub of: E, pub w: u8 }

pub struct HashEnt { pub kind: u32, pub bytes: Vec<(u8, E)>, pub out: [u8; 32], pub real: bool, pub nvars: u32 }

struct Frame { f: u32, pc: u32, base: u32, sp: u64, dst: u32 }

pub struct Machine<'p> {
    pub prog: &'p Program,
    mem: Vec<u8>,
    shadow: Vec<u32>,
    gran: Vec<u8>,
    dirty: Vec<u32>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    sp: u64,
    heap: u64,
    heap_base: u64,
    stack_base: u64,
    freelist: HashMap<u64, Vec<u64>>,
    pub ex: Ex,
    // run state
    pub model: Vec<u8>,
    pub lo: Vec<u8>, pub hi: Vec<u8>,
    pub nvars: u32,
    pub path: Vec<Decision>,
    asserted: HashSet<E>,
    known: Vec<(u8, u8)>,
    dom: Vec<[u64; 4]>,
    tts: HashMap<E, [u64; 4]>,
    alias: Vec<[u32; 2]>,
    facts: bool,
    memo: HashMap<E, E>,
    bound: usize,
    excl: HashMap<u32, u64>,
    pub phash: u64,
    pub phash_at_bound: u64,
    pub obs: Vec<u64>,
    pub reach: Vec<String>,
    pub hashes: Vec<HashEnt>,
    by_len: HashMap<(u32, usize), Vec<u32>>,
    by_conc: HashMap<(u32, Vec<u8>), u32>,
    tok8: HashMap<[u8; 8], u32>,
    pub steps: u64,
    pub step_limit: u64,
    pub max_frames: usize,
    pub covered: HashSet<u32>,
    pub hash_cycle: bool,
}

macro_rules! engine { ($($t:tt)*) => { return Err(End::Engine(format!($($t)*))) }; }
type R<T> = Result<T, End>;

impl<'p> Machine<'p> {
    pub fn new(prog: &'p Program) -> Self {
        let mut m = Machine {
            prog,
            mem: vec![0; MEM],
            shadow: vec![0; MEM],
            gran: vec![0; MEM / GRAN as usize + 1],
            dirty: vec![],
            regs: vec![Val::default(); 1 << 16],
            frames: vec![],
            sp: 0, heap: 0, heap_base: 0, stack_base: 0,
            freelist: HashMap::new(),
            ex: Ex::new(),
            model: vec![], lo: vec![], hi: vec![], nvars: 0, path: vec![], asserted: HashSet::new(), known: vec![], dom: vec![], tts: HashMap::new(), alias: vec![], facts: false, memo: HashMap::new(), bound: 0, excl: HashMap::new(), phash: 0, phash_at_bound: 0,
            obs: vec![], reach: vec![], hashes: vec![], by_len: HashMap::new(), by_conc: HashMap::new(), tok8: HashMap::new(),
            steps: 0, step_limit: 400_000_000, max_frames: 12000, covered: HashSet::new(), hash_cycle: false,
        };
        let n = prog.image.len();
        m.mem[..n].copy_from_slice(&prog.image);
        m.stack_base = GLOBAL_BASE + (n as u64 + 4095) / 4096 * 4096;
        m.heap_base = m.stack_base + STACK;
        m
    }
    pub fn reset(&mut self, model: Vec<u8>, bound: usize, excl: HashMap<u32, u64>) {
        for &g in &self.dirty {
            let a = g as usize * GRAN as usize;
            self.shadow[a..a + GRAN as usize].fill(0);
            self.gran[g as usize] = 0;
        }
        self.dirty.clear();
        for &(a, b) in &self.prog.mutable_ranges {
            let (a, b) = ((a - GLOBAL_BASE) as usize, (b - GLOBAL_BASE) as usize);
            self.mem[a..b].copy_from_slice(&self.prog.image[a..b]);
        }
        self.frames.clear();
        self.sp = self.stack_base;
        self.heap = self.heap_base;
        self.freelist.clear();
        self.model = model;
        self.lo.clear();
        self.hi.clear();
        self.nvars = 0;
        self.path.clear();
        self.asserted.clear();
        self.known.clear();
        self.dom.clear();
        self.alias.clear();
        self.facts = false;
        self.memo.clear();
        self.bound = bound;
        self.excl = excl;
        self.phash = 0;
        self.phash_at_bound = 0;
        self.obs.clear();
        self.reach.clear();
        self.hashes.clear();
        self.by_len.clear();
        self.by_conc.clear();
        self.tok8.clear();
        self.steps = 0;
        self.hash_cycle = false;
    }
    pub fn reset_exprs(&mut self) { self.ex = Ex::new(); self.tts.clear(); }
    pub fn facts_off(&mut self) { self.facts = false; }
    // ---------- decisions
    fn site(&self) -> u64 { let f = self.frames.last(); f.map(|f| (f.f as u64) << 32 | f.pc as u64).unwrap_or(0) }
    fn push_dec(&mut self, e: E, flip: bool, conc: Option<u64>) {
        let i = self.path.len();
        let site = self.site();
        if i < self.bound {
            self.phash = (self.phash ^ site).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17) ^ conc.is_some() as u64;
        }
        if i + 1 == self.bound { self.phash_at_bound = self.phash; }
        let flip = flip && i >= self.bound;
        self.path.push(Decision { e, flip, conc, site, of: 0, w: 0 });
        self.learn(e);
    }
    /// record facts implied by the path condition, used to simplify later expressions
    fn learn(&mut self, e: E) {
        if !self.asserted.insert(e) { return; }
        if let [v] = *self.ex.vars(e) { let t = self.tt(e, v); self.restrict(v, t); return; }
        match self.ex.k(e) {
            K::And(a, b) if self.ex.w(e) == 1 => { self.learn(a); self.learn(b); }
            K::Not(x) => match self.ex.k(x) {
                K::Or(a, b) => { let (a, b) = (self.ex.not(a), self.ex.not(b)); self.learn(a); self.learn(b); }
                K::Extract(v, lo) => self.know(v, lo, 1, 0),
                _ => {}
            },
            K::Extract(v, lo) => self.know(v, lo, 1, 1),
            K::Eq(a, b) => {
                if let Some(c) = self.ex.cval(b) {
                    match self.ex.k(a) {
                        K::Var(_) => self.know(a, 0, 8, c as u8),
                        K::Extract(v, lo) => self.know(v, lo, self.ex.w(a), c as u8),
                        _ => {}
                    }
                    return;
                }
                match (self.ex.k(a), self.ex.k(b)) {
                    (K::Var(x), K::Var(y)) => { self.set_alias(x, 0, y, 0); self.set_alias(x, 1, y, 1); }
                    (K::Extract(v, l), K::Extract(u, m)) if self.ex.w(a) == 4 && l % 4 == 0 && m % 4 == 0 => {
                        if let (K::Var(x), K::Var(y)) = (self.ex.k(v), self.ex.k(u)) { self.set_alias(x, l / 4, y, m / 4); }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    fn grow(&mut self, i: u32) {
        while self.known.len() <= i as usize { let k = self.known.len() as u32; self.known.push((0, 0)); self.dom.push([u64::MAX; 4]); self.alias.push([k * 2, k * 2 + 1]); }
    }
    /// truth table of a width-1 expression over a single byte variable
    fn tt(&mut self, e: E, v: u32) -> [u64; 4] {
        if let Some(t) = self.tts.get(&e) { return *t; }
        let t = self.ex.truth_table(e, v);
        self.tts.insert(e, t);
        t
    }
    fn restrict(&mut self, v: u32, t: [u64; 4]) {
        self.grow(v);
        let d = &mut self.dom[v as usize];
        let old = *d;
        for k in 0..4 { d[k] &= t[k]; }
        if *d == old { return; }
        let d = *d;
        let (mut all, mut any) = (255u8, 0u8);
        for x in 0..256usize { if d[x / 64] >> (x % 64) & 1 == 1 { all &= x as u8; any |= x as u8; } }
        self.known[v as usize] = (all | !any, all);
        self.facts = true;
        self.memo.clear();
    }
    /// Some(b) if the width-1 expression has value b for every value in the variable's domain
    fn implied(&mut self, e: E) -> Option<bool> {
        if let [v] = *self.ex.vars(e) {
            if v as usize >= self.dom.len() { return None; }
            let t = self.tt(e, v);
            let d = self.dom[v as usize];
            if (0..4).all(|k| d[k] & !t[k] == 0) { return Some(true); }
            if (0..4).all(|k| d[k] & t[k] == 0) { return Some(false); }
        }
        None
    }
    fn know(&mut self, v: E, lo: u8, n: u8, c: u8) {
        if let K::Var(i) = self.ex.k(v) {
            self.grow(i);
            let m = (((1u32 << n) - 1) << lo) as u8;
            let k = &mut self.known[i as usize];
            k.0 |= m;
            k.1 = (k.1 & !m) | (c << lo) & m;
            self.facts = true;
            self.memo.clear();
        }
    }
    fn set_alias(&mut self, x: u32, hx: u8, y: u32, hy: u8) {
        self.grow(x.max(y));
        let (a, b) = (x * 2 + hx as u32, y * 2 + hy as u32);
        let (a, b) = (self.find(a), self.find(b));
        if a == b { return; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.alias[(b / 2) as usize][(b & 1) as usize] = a;
        self.facts = true;
        self.memo.clear();
    }
    fn find(&self, mut a: u32) -> u32 { loop { let n = self.alias[(a / 2) as usize][(a & 1) as usize]; if n == a { return a; } a = n; } }
    fn nib(&mut self, i: u32, h: u32) -> E {
        let r = self.find(i * 2 + h);
        let (v, h) = (r / 2, (r & 1) as u8);
        let k = self.known[v as usize];
        let (km, kv) = ((k.0 >> (4 * h)) & 15, (k.1 >> (4 * h)) & 15);
        if km == 15 { return self.ex.c(kv as u128, 4); }
        let x = self.ex.var(v);
        if km == 0 { return self.ex.extract(x, 4 * h, 4); }
        let mut e = 0;
        for b in 0..4 {
            let p = if km >> b & 1 == 1 { self.ex.c((kv >> b & 1) as u128, 1) } else { self.ex.extract(x, 4 * h + b, 1) };
            e = if b == 0 { p } else { self.ex.concat(p, e) };
        }
        e
    }
    /// rewrite e using the equalities already on the path
    fn simp(&mut self, e: E) -> E {
        if !self.facts || e == 0 { return e; }
        if let Some(&r) = self.memo.get(&e) { return r; }
        let w = self.ex.w(e);
        macro_rules! bi { ($f:ident, $a:expr, $b:expr) => {{ let (p, q) = (self.simp($a), self.simp($b)); if p == $a && q == $b { e } else { self.ex.$f(p, q) } }}; }
        let r = match self.ex.k(e) {
            K::Const(_) => return e,
            K::Var(i) => {
                if self.known.len() as u32 <= i { e } else {
                    let (h, l) = (self.nib(i, 1), self.nib(i, 0));
                    self.ex.concat(h, l)
                }
            }
            K::Not(a) => { let p = self.simp(a); if p == a { e } else { self.ex.not(p) } }
            K::And(a, b) => bi!(and, a, b), K::Or(a, b) => bi!(or, a, b), K::Xor(a, b) => bi!(xor, a, b),
            K::Add(a, b) => bi!(add, a, b), K::Sub(a, b) => bi!(sub, a, b), K::Mul(a, b) => bi!(mul, a, b),
            K::UDiv(a, b) => bi!(udiv, a, b), K::URem(a, b) => bi!(urem, a, b), K::SDiv(a, b) => bi!(sdiv, a, b), K::SRem(a, b) => bi!(srem, a, b),
            K::Shl(a, b) => bi!(shl, a, b), K::LShr(a, b) => bi!(lshr, a, b), K::AShr(a, b) => bi!(ashr, a, b),
            K::Eq(a, b) => bi!(eq, a, b), K::Ult(a, b) => bi!(ult, a, b), K::Ule(a, b) => bi!(ule, a, b), K::Slt(a, b) => bi!(slt, a, b), K::Sle(a, b) => bi!(sle, a, b),
            K::Concat(a, b) => bi!(concat, a, b),
            K::Ite(c, a, b) => {
                let q = self.simp(c);
                if self.ex.is_true(q) { self.simp(a) } else if self.ex.is_false(q) { self.simp(b) } else {
                    let (p, r) = (self.simp(a), self.simp(b));
                    if q == c && p == a && r == b { e } else { self.ex.ite(q, p, r) }
                }
            }
            K::Extract(a, lo) => { let p = self.simp(a); if p == a { e } else { self.ex.extract(p, lo, w) } }
            K::ZExt(a) => { let p = self.simp(a); if p == a { e } else { self.ex.zext(p, w) } }
            K::SExt(a) => { let p = self.simp(a); if p == a { e } else { self.ex.sext(p, w) } }
        };
        let r = if w == 1 && self.ex.cval(r).is_none() {
            if self.asserted.contains(&r) { self.ex.c(1, 1) } else { let n = self.ex.not(r); if self.asserted.contains(&n) { self.ex.c(0, 1) } else { match self.implied(r) { Some(b) => self.ex.c(b as u128, 1), None => r } } }
        } else { r };
        self.memo.insert(e, r);
        r
    }
    /// record the outcome `truth` of the width-1 expression e
    fn decide(&mut self, e: E, truth: bool, flip: bool) -> R<()> {
        let e = self.simp(e);
        let x = if truth { e } else { self.ex.not(e) };
        if self.ex.is_true(x) || self.asserted.contains(&x) { return Ok(()); }
        match self.implied(x) { Some(true) => return Ok(()), Some(false) => engine!("decision contradicts the path"), None => {} }
        if self.ex.is_false(x) { engine!("decision contradicts model at {}", self.whereami()); }
        self.push_dec(x, flip, None);
        Ok(())
    }
    fn conc(&mut self, v: Val, w: u8) -> R<u64> {
        if v.e == 0 { return Ok(v.c); }
        loop {
            let v = Val { c: v.c, e: self.simp(v.e) };
            let p = self.path.len() as u32;
            let k = self.ex.c(v.c as u128, w);
            let q = self.ex.eq(v.e, k);
            if self.ex.is_true(q) || self.asserted.contains(&q) || self.implied(q) == Some(true) { return Ok(v.c); }
            if (p as usize) < self.bound {
                if let Some(&x) = self.excl.get(&p) {
                    let k = self.ex.c(x as u128, w);
                    let q = self.ex.eq(v.e, k);
                    let q = self.ex.not(q);
                    self.push_dec(q, false, Some(x));
                    continue;
                }
            }
            self.push_dec(q, true, Some(v.c));
            let d = self.path.last_mut().unwrap();
            (d.of, d.w) = (v.e, w);
            return Ok(v.c);
        }
    }
    pub fn whereami(&self) -> String {
        let mut s = String::new();
        for f in self.frames.iter().rev().take(6) { s.push_str(&format!(" <- {}", demangle(&self.prog.fns[f.f as usize].name))); }
        s
    }
    // ---------- memory
    #[inline] fn off(&self, a: u64, n: u64) -> R<usize> {
        let o = a.wrapping_sub(GLOBAL_BASE);
        if o >= MEM as u64 || o + n > MEM as u64 { engine!("bad address {a:#x} len {n} at {}", self.whereami()); }
        Ok(o as usize)
    }
    #[inline] fn maybe_sym(&self, o: usize, n: usize) -> bool {
        if n == 0 { return false; }
        let (a, b) = (o / GRAN as usize, (o + n - 1) / GRAN as usize);
        self.gran[a..=b].iter().any(|x| *x != 0)
    }
    fn set_sh(&mut self, o: usize, e: E) {
        let g = o / GRAN as usize;
        if e != 0 && self.gran[g] == 0 { self.gran[g] = 1; self.dirty.push(g as u32); }
        if self.gran[g] != 0 { self.shadow[o] = e; }
    }
    fn clear_sh(&mut self, o: usize, n: usize) {
        if self.maybe_sym(o, n) { self.shadow[o..o + n].fill(0); }
    }
    fn load(&mut self, a: u64, w: u8) -> R<Val> {
        let n = (w as usize + 7) / 8;
        let o = self.off(a, n as u64)?;
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&self.mem[o..o + n]);
        let mut c = u64::from_le_bytes(b);
        if w < 64 { c &= (1u64 << w) - 1; }
        if !self.maybe_sym(o, n) { return Ok(Val { c, e: 0 }); }
        if self.shadow[o..o + n].iter().all(|x| *x == 0) { return Ok(Val { c, e: 0 }); }
        let mut e = 0;
        for i in 0..n {
            let s = self.shadow[o + i];
            let x = if s != 0 { s } else { self.ex.c(self.mem[o + i] as u128, 8) };
            e = if i == 0 { x } else { self.ex.concat(x, e) };
        }
        if (n * 8) as u8 != w { e = self.ex.extract(e, 0, w); }
        Ok(self.val(c, e))
    }
    fn store(&mut self, a: u64, w: u8, v: Val) -> R<()> {
        let n = (w as usize + 7) / 8;
        let o = self.off(a, n as u64)?;
        self.mem[o..o + n].copy_from_slice(&v.c.to_le_bytes()[..n]);
        if v.e == 0 { self.clear_sh(o, n); return Ok(()); }
        let mut e = v.e;
        if (n * 8) as u8 != w { e = self.ex.zext(e, (n * 8) as u8); }
        for i in 0..n {
            let x = self.ex.extract(e, (i * 8) as u8, 8);
            let x = if self.ex.cval(x).is_some() { 0 } else { x };
            self.set_sh(o + i, x);
        }
        Ok(())
    }
    fn byte(&self, o: usize) -> (u8, E) { (self.mem[o], if self.gran[o / GRAN as usize] != 0 { self.shadow[o] } else { 0 }) }
    fn memcopy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (od, os) = (self.off(d, n)?, self.off(s, n)?);
        let n = n as usize;
        self.mem.copy_within(os..os + n, od);
        if self.maybe_sym(os, n) {
            let tmp: Vec<E> = (0..n).map(|i| if self.gran[(os + i) / GRAN as usize] != 0 { self.shadow[os + i] } else { 0 }).collect();
            for (i, e) in tmp.into_iter().enumerate() { self.set_sh(od + i, e); }
        } else { self.clear_sh(od, n); }
        Ok(())
    }
    fn malloc(&mut self, n: u64, align: u64) -> R<u64> {
        if n > (64 << 20) { engine!("allocation of {n} bytes at {}", self.whereami()); }
        let size = (n.max(1) + 15) / 16 * 16;
        if align <= 16 {
            if let Some(l) = self.freelist.get_mut(&size) {
                if let Some(a) = l.pop() {
                    let o = self.off(a, size)?;
                    self.clear_sh(o, size as usize);
                    return Ok(a);
                }
            }
        }
        let al = align.max(16);
        let a = (self.heap + 16 + al - 1) / al * al;
        self.heap = a + size;
        let o = self.off(a - 16, size + 16)?;
        self.mem[o..o + 8].copy_from_slice(&size.to_le_bytes());
        Ok(a)
    }
    fn msize(&self, a: u64) -> R<u64> { let o = self.off(a - 16, 16)?; Ok(u64::from_le_bytes(self.mem[o..o + 8].try_into().unwrap())) }
    fn free(&mut self, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        let s = self.msize(a)?;
        self.freelist.entry(s).or_default().push(a);
        Ok(())
    }
    // ---------- values
    #[inline] fn val(&self, c: u64, e: E) -> Val { if e == 0 || self.ex.cval(e).is_some() { Val { c, e: 0 } } else { Val { c, e } } }
    #[inline] fn x(&mut self, v: Val, w: u8) -> E { if v.e != 0 { v.e } else { self.ex.c(v.c as u128, w) } }

    fn bin(&mut self, op: BinOp, w: u8, a: Val, b: Val) -> R<Val> {
        let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        let c = match op {
            BinOp::Add => a.c.wrapping_add(b.c) & m,
            BinOp::Sub => a.c.wrapping_sub(b.c) & m,
            BinOp::Mul => a.c.wrapping_mul(b.c) & m,
            BinOp::And => a.c & b.c,
            BinOp::Or => a.c | b.c,
            BinOp::Xor => a.c ^ b.c,
            BinOp::Shl => if b.c >= w as u64 { 0 } else { a.c << b.c & m },
            BinOp::LShr => if b.c >= w as u64 { 0 } else { a.c >> b.c },
            BinOp::AShr => { let s = b.c.min(w as u64 - 1); (sx(a.c as u128, w) >> s) as u64 & m }
            BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                if b.e != 0 { let z = self.ex.c(0, w); let q = self.ex.eq(b.e, z); self.decide(q, b.c == 0, true)?; }
                if b.c == 0 { engine!("division by zero (undefined behaviour) at {}", self.whereami()); }
                match op {
                    BinOp::UDiv => a.c / b.c,
                    BinOp::URem => a.c % b.c,
                    BinOp::SDiv => sx(a.c as u128, w).wrapping_div(sx(b.c as u128, w)) as u64 & m,
                    _ => sx(a.c as u128, w).wrapping_rem(sx(b.c as u128, w)) as u64 & m,
                }
            }
        };
        if a.e | b.e == 0 { return Ok(Val { c, e: 0 }); }
        let (x, y) = (self.x(a, w), self.x(b, w));
        let e = self.bin_e(op, x, y);
        Ok(self.val(c, e))
    }
    fn bin_e(&mut self, op: BinOp, x: E, y: E) -> E {
        match op {
            BinOp::Add => self.ex.add(x, y), BinOp::Sub => self.ex.sub(x, y), BinOp::Mul => self.ex.mul(x, y),
            BinOp::And => self.ex.and(x, y), BinOp::Or => self.ex.or(x, y), BinOp::Xor => self.ex.xor(x, y),
            BinOp::Shl => self.ex.shl(x, y), BinOp::LShr => self.ex.lshr(x, y), BinOp::AShr => self.ex.ashr(x, y),
            BinOp::UDiv => self.ex.udiv(x, y), BinOp::URem => self.ex.urem(x, y), BinOp::SDiv => self.ex.sdiv(x, y), BinOp::SRem => self.ex.srem(x, y),
        }
    }
    fn cmp_c(p: Pred, w: u8, a: u128, b: u128) -> bool {
        match p {
            Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
            Pred::Sgt => sx(a, w) > sx(b, w), Pred::Sge => sx(a, w) >= sx(b, w), Pred::Slt => sx(a, w) < sx(b, w), Pred::Sle => sx(a, w) <= sx(b, w),
        }
    }
    fn cmp_e(&mut self, p: Pred, x: E, y: E) -> E {
        match p {
            Pred::Eq => self.ex.eq(x, y), Pred::Ne => { let q = self.ex.eq(x, y); self.ex.not(q) }
            Pred::Ugt => self.ex.ult(y, x), Pred::Uge => self.ex.ule(y, x), Pred::Ult => self.ex.ult(x, y), Pred::Ule => self.ex.ule(x, y),
            Pred::Sgt => self.ex.slt(y, x), Pred::Sge => self.ex.sle(y, x), Pred::Slt => self.ex.slt(x, y), Pred::Sle => self.ex.sle(x, y),
        }
    }
    fn icmp(&mut self, p: Pred, w: u8, a: Val, b: Val) -> Val {
        let c = Self::cmp_c(p, w, a.c as u128, b.c as u128) as u64;
        if a.e | b.e == 0 { return Val { c, e: 0 }; }
        let (x, y) = (self.x(a, w), self.x(b, w));
        let e = self.cmp_e(p, x, y);
        self.val(c, e)
    }
    fn v128(&mut self, lo: Val, hi: Val, w: u8) -> (u128, E) {
        let c = (hi.c as u128) << 64 | lo.c as u128;
        if lo.e | hi.e == 0 { return (c, 0); }
        let (h, l) = (self.x(hi, w - 64), self.x(lo, 64));
        let e = self.ex.concat(h, l);
        (c, e)
    }
    fn split128(&mut self, c: u128, e: E) -> (Val, Val) {
        if e == 0 { return (Val { c: c as u64, e: 0 }, Val { c: (c >> 64) as u64, e: 0 }); }
        let (l, h) = (self.ex.extract(e, 0, 64), self.ex.extract(e, 64, 64));
        (self.val(c as u64, l), self.val((c >> 64) as u64, h))
    }
    pub fn new_var(&mut self, lo: u8, hi: u8) -> (u8, E) {
        let i = self.nvars;
        self.nvars += 1;
        while self.model.len() <= i as usize { self.model.push(lo); }
        self.lo.push(lo);
        self.hi.push(hi);
        let e = self.ex.var(i);
        (self.model[i as usize], e)
    }
    // ---------- ideal hash
    fn token(i: usize) -> [u8; 32] {
        let mut s = 0x5EED_0000_0000_0000u64 ^ (i as u64).wrapping_mul(0xD1342543DE82EF95);
        let mut o = [0u8; 32];
        for k in 0..4 {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^= z >> 31;
            o[k * 8..k * 8 + 8].copy_from_slice(&z.to_le_bytes());
        }
        o
    }
    fn sym_hash(&mut self, kind: u32, p: u64, n: u64, out: u64) -> R<()> {
        let o = if n > 0 { self.off(p, n)? } else { 0 };
        let bytes: Vec<(u8, E)> = (0..n as usize).map(|i| self.byte(o + i)).collect();
        let concrete: Vec<u8> = bytes.iter().map(|b| b.0).collect();
        let all_conc = bytes.iter().all(|b| b.1 == 0);
        let key = (kind, n as usize);
        let mut found: Option<[u8; 32]> = None;
        if all_conc { if let Some(&i) = self.by_conc.get(&(kind, concrete.clone())) { found = Some(self.hashes[i as usize].out); } }
        if found.is_none() {
            let cands = self.by_len.get(&key).cloned().unwrap_or_default();
            // compared with the earlier messages in a fixed order, so that the decision sequence is a
            // function of the decisions before it and not of the current model
            for &i in &cands {
                if all_conc && self.hashes[i as usize].bytes.iter().all(|b| b.1 == 0) { continue; }
                let e = self.bytes_eq(&bytes, i as usize);
                if self.ex.is_false(e) { continue; }
                let same = self.hashes[i as usize].bytes.iter().map(|b| b.0).eq(concrete.iter().copied());
                self.decide(e, same, true)?;
                if same { found = Some(self.hashes[i as usize].out); break; }
            }
            if found.is_none() {
                let idx = self.hashes.len();
                let mut real = all_conc;
                if real && n >= 32 {
                    for w in concrete.windows(32) {
                        if let Some(&t) = self.tok8.get(&w[..8]) { if self.hashes[t as usize].out == *w { real = false; break; } }
                    }
                }
                let out = match (real, hash::real(kind, &concrete)) { (true, Some(h)) => h, _ => { real = false; Self::token(idx) } };
                if !real { self.tok8.insert(out[..8].try_into().unwrap(), idx as u32); }
                if all_conc { self.by_conc.insert((kind, concrete), idx as u32); }
                self.hashes.push(HashEnt { kind, bytes, out, real, nvars: self.nvars });
                self.by_len.entry(key).or_default().push(idx as u32);
                found = Some(out);
            }
        }
        let h = found.unwrap();
        let od = self.off(out, 32)?;
        self.mem[od..od + 32].copy_from_slice(&h);
        self.clear_sh(od, 32);
        Ok(())
    }
    fn bytes_eq(&mut self, a: &[(u8, E)], j: usize) -> E {
        let mut r = self.ex.c(1, 1);
        // concrete mismatches first
        for k in 0..a.len() {
            let b = self.hashes[j].bytes[k];
            if a[k].1 == 0 && b.1 == 0 && a[k].0 != b.0 { return self.ex.c(0, 1); }
        }
        for k in 0..a.len() {
            let b = self.hashes[j].bytes[k];
            if a[k].1 == 0 && b.1 == 0 { continue; }
            let (x, y) = (self.x(Val { c: a[k].0 as u64, e: a[k].1 }, 8), self.x(Val { c: b.0 as u64, e: b.1 }, 8));
            let q = self.ex.eq(x, y);
            if self.ex.is_false(q) { return q; }
            r = self.ex.and(r, q);
        }
        r
    }
    /// Replace ideal-hash tokens in the given input bytes by real digests (None: hash cycle).
    pub fn translate(&self, inp: &[u8]) -> Option<Vec<u8>> {
        let mut memo: HashMap<usize, Option<[u8; 32]>> = HashMap::new();
        self.tr(inp, &mut memo, 0)
    }
    fn tr(&self, inp: &[u8], memo: &mut HashMap<usize, Option<[u8; 32]>>, depth: usize) -> Option<Vec<u8>> {
        if depth > 500 { return None; }
        let mut v = inp.to_vec();
        let mut i = 0;
        while i + 32 <= v.len() {
            if let Some(&t) = self.tok8.get(&inp[i..i + 8]) {
                let t = t as usize;
                if self.hashes[t].out == inp[i..i + 32] {
                    let r = match memo.get(&t) {
                        Some(r) => *r,
                        None => {
                            memo.insert(t, None); // cycle marker
                            let m: Vec<u8> = self.hashes[t].bytes.iter().map(|b| b.0).collect();
                            let r = self.tr(&m, memo, depth + 1).and_then(|m| hash::real(self.hashes[t].kind, &m));
                            memo.insert(t, r);
                            r
                        }
                    };
                    v[i..i + 32].copy_from_slice(&r?);
                    i += 32;
                    continue;
                }
            }
            i += 1;
        }
        Some(v)
    }
    fn cstr(&self, p: u64, n: u64) -> String {
        match self.off(p, n) { Ok(o) => String::from_utf8_lossy(&self.mem[o..o + n as usize]).into_owned(), _ => "?".into() }
    }
    fn location(&self, p: u64) -> String {
        let g = |a: u64, n: usize| -> u64 { match self.off(a, n as u64) { Ok(o) => { let mut b = [0u8; 8]; b[..n].copy_from_slice(&self.mem[o..o + n]); u64::from_le_bytes(b) } _ => 0 } };
        if p == 0 { return "?".into(); }
        let (f, n) = (g(p, 8), g(p + 8, 8));
        if n > 400 { return "?".into(); }
        format!("{}:{}:{}", self.cstr(f, n), g(p + 16, 4), g(p + 20, 4))
    }
    fn ext(&mut self, x: Ext, a: &[Val]) -> R<[Val; 2]> {
        let z = Val::default();
        let v = |c: u64| [Val { c, e: 0 }, Val::default()];
        Ok(match x {
            Ext::Malloc => { let n = self.conc(a[0], 64)?; v(self.malloc(n, 16)?) }
            Ext::Calloc => {
                let n = self.conc(a[0], 64)?.saturating_mul(self.conc(a[1], 64)?);
                let p = self.malloc(n, 16)?;
                let o = self.off(p, n)?;
                self.mem[o..o + n as usize].fill(0);
                v(p)
            }
            Ext::Realloc => {
                let n = self.conc(a[1], 64)?;
                let p = self.malloc(n, 16)?;
                if a[0].c != 0 { let s = self.msize(a[0].c)?; self.memcopy(p, a[0].c, s.min(n))?; self.free(a[0].c)?; }
                v(p)
            }
            Ext::Free => { self.free(a[0].c)?; v(0) }
            Ext::PosixMemalign => { let n = self.conc(a[2], 64)?; let p = self.malloc(n, a[1].c)?; self.store(a[0].c, 64, Val { c: p, e: 0 })?; v(0) }
            Ext::Bcmp | Ext::Memcmp => {
                let n = self.conc(a[2], 64)?;
                let (pa, pb) = (self.conc(a[0], 64)?, self.conc(a[1], 64)?);
                if n == 0 { return Ok(v(0)); }
                let (oa, ob) = (self.off(pa, n)?, self.off(pb, n)?);
                let n = n as usize;
                let ord = self.mem[oa..oa + n].cmp(&self.mem[ob..ob + n]) as i32;
                let c = if x == Ext::Bcmp { (ord != 0) as u64 } else { ord as u32 as u64 };
                if !self.maybe_sym(oa, n) && !self.maybe_sym(ob, n) { return Ok(v(c)); }
                if x == Ext::Bcmp {
                    let mut eq = self.ex.c(1, 1);
                    for pass in 0..2 {
                        for i in 0..n {
                            let (p, q) = (self.byte(oa + i), self.byte(ob + i));
                            let conc = p.1 == 0 && q.1 == 0;
                            if conc != (pass == 0) { continue; }
                            if conc { if p.0 != q.0 { return Ok(v(1)); } continue; }
                            let (s, t) = (self.x(Val { c: p.0 as u64, e: p.1 }, 8), self.x(Val { c: q.0 as u64, e: q.1 }, 8));
                            let e = self.ex.eq(s, t);
                            eq = self.ex.and(eq, e);
                            if self.ex.is_false(eq) { return Ok(v(1)); }
                        }
                    }
                    let ne = self.ex.not(eq);
                    let e = self.ex.zext(ne, 32);
                    return Ok([self.val(c, e), z]);
                }
                let mut r = self.ex.c(0, 32);
                let mut end = n;
                for i in 0..n { let (p, q) = (self.byte(oa + i), self.byte(ob + i)); if p.1 == 0 && q.1 == 0 && p.0 != q.0 { end = i + 1; break; } }
                for i in (0..end).rev() {
                    let (p, q) = (self.byte(oa + i), self.byte(ob + i));
                    let (s, t) = (self.x(Val { c: p.0 as u64, e: p.1 }, 8), self.x(Val { c: q.0 as u64, e: q.1 }, 8));
                    let eq = self.ex.eq(s, t);
                    let lt = self.ex.ult(s, t);
                    let (m1, p1) = (self.ex.c(u32::MAX as u128, 32), self.ex.c(1, 32));
                    let ne = self.ex.ite(lt, m1, p1);
                    r = self.ex.ite(eq, r, ne);
                }
                [self.val(c, r), z]
            }
            Ext::Strlen => { let mut o = self.off(a[0].c, 1)?; let s = o; while self.mem[o] != 0 { o += 1; } v((o - s) as u64) }
            Ext::Getenv | Ext::RetZero | Ext::FmtWrite => v(0),
            Ext::ErrnoLoc => { let p = self.malloc(16, 16)?; v(p) }
            Ext::RandomKeys => [Val { c: 0x0123456789abcdef, e: 0 }, Val { c: 0xfedcba9876543210, e: 0 }],
            Ext::Abort => return Err(End::Abort(format!("abort(){}", self.whereami()))),
            Ext::PanicFmt => return Err(End::Panic(format!("panic at {}{}", self.location(a.last().unwrap().c), self.whereami()))),
            Ext::PanicNounwind => return Err(End::Panic(format!("non-unwinding panic{}", self.whereami()))),
            Ext::SymByte => { let (c, e) = self.new_var(0, 255); [Val { c: c as u64, e }, z] }
            Ext::SymRange => {
                let (l, h) = (self.conc(a[0], 8)?, self.conc(a[1], 8)?);
                // a variable first read after the replayed prefix is unconstrained there: a value recorded
                // on another path (where it may have had another range) carries no meaning
                let i = self.nvars as usize;
                if i < self.model.len() && self.path.len() >= self.bound && (self.model[i] < l as u8 || self.model[i] > h as u8) { self.model[i] = l as u8 + (self.model[i] as u64 % (h - l + 1)) as u8; }
                let (c, e) = self.new_var(l as u8, h as u8);
                if c < l as u8 || c > h as u8 { engine!("model outside range"); }
                let (el, eh) = (self.ex.c(l as u128, 8), self.ex.c(h as u128, 8));
                let p = self.ex.ule(el, e);
                let q = self.ex.ule(e, eh);
                let r = self.ex.and(p, q);
                self.decide(r, true, false)?;
                if l == h { return Ok(v(l)); }
                [Val { c: c as u64, e }, z]
            }
            Ext::SymAssume => {
                let t = a[0].c != 0;
                if a[0].e != 0 {
                    let k = self.ex.c(0, 32);
                    let q = self.ex.eq(a[0].e, k);
                    let nq = self.ex.not(q);
                    self.decide(nq, t, !t)?;
                }
                if !t { return Err(End::AssumeFalse); }
                v(0)
            }
            Ext::SymCheck => {
                let t = a[0].c != 0;
                if a[0].e != 0 {
                    let k = self.ex.c(0, 32);
                    let q = self.ex.eq(a[0].e, k);
                    let nq = self.ex.not(q);
                    self.decide(nq, t, true)?;
                }
                if !t { return Err(End::CheckFail(self.cstr(a[1].c, a[2].c))); }
                v(0)
            }
            Ext::SymObs => { self.obs.push(a[0].c); v(0) }
            Ext::SymReach => { let s = self.cstr(a[0].c, a[1].c); if !self.reach.contains(&s) { self.reach.push(s); } v(0) }
            Ext::SymFork => { let c = self.conc(a[0], 64)?; v(c) }
            Ext::SymHash => { let n = self.conc(a[2], 64)?; self.sym_hash(a[0].c as u32, a[1].c, n, a[3].c)?; v(0) }
        })
    }
    fn intrin(&mut self, k: In, w: u8, a: &[Val]) -> R<[Val; 2]> {
        let z = Val::default();
        let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        let one = |v: Val| [v, Val::default()];
        Ok(match k {
            In::Nop => [z, z],
            In::Memcpy | In::Memmove => {
                let (d, s, n) = (self.conc(a[0], 64)?, self.conc(a[1], 64)?, self.conc(a[2], 64)?);
                self.memcopy(d, s, n)?;
                [z, z]
            }
            In::Memset => {
                let (d, n) = (self.conc(a[0], 64)?, self.conc(a[2], 64)?);
                if n > 0 {
                    let o = self.off(d, n)?;
                    self.mem[o..o + n as usize].fill(a[1].c as u8);
                    if a[1].e != 0 { for i in 0..n as usize { self.set_sh(o + i, a[1].e); } } else { self.clear_sh(o, n as usize); }
                }
                [z, z]
            }
            In::Trap => return Err(End::Abort(format!("trap{}", self.whereami()))),
            In::Tls | In::Expect => one(a[0]),
            In::PtrMask => one(self.bin(BinOp::And, 64, a[0], a[1])?),
            In::Bswap => {
                let n = w / 8;
                let c = a[0].c.swap_bytes() >> (64 - w);
                if a[0].e == 0 { return Ok(one(Val { c, e: 0 })); }
                let mut e = self.ex.extract(a[0].e, 0, 8);
                for i in 1..n { let b = self.ex.extract(a[0].e, i * 8, 8); e = self.ex.concat(e, b); }
                one(self.val(c, e))
            }
            In::BitRev => {
                let c = a[0].c.reverse_bits() >> (64 - w);
                if a[0].e == 0 { return Ok(one(Val { c, e: 0 })); }
                let mut e = self.ex.extract(a[0].e, 0, 1);
                for i in 1..w { let b = self.ex.extract(a[0].e, i, 1); e = self.ex.concat(e, b); }
                one(self.val(c, e))
            }
            In::Ctlz | In::Cttz => {
                let x = a[0].c & m;
                let c = if x == 0 { w as u64 } else if k == In::Cttz { x.trailing_zeros() as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) };
                if a[0].e == 0 { return Ok(one(Val { c, e: 0 })); }
                let mut e = self.ex.c(w as u128, w);
                for i in 0..w {
                    // last assignment wins: iterate from far to near
                    let pos = if k == In::Cttz { w - 1 - i } else { i };
                    let cnt = if k == In::Cttz { pos } else { w - 1 - pos };
                    let b = self.ex.extract(a[0].e, pos, 1);
                    let kc = self.ex.c(cnt as u128, w);
                    e = self.ex.ite(b, kc, e);
                }
                one(self.val(c, e))
            }
            In::Ctpop => {
                let c = (a[0].c & m).count_ones() as u64;
                if a[0].e == 0 { return Ok(one(Val { c, e: 0 })); }
                let mut e = self.ex.c(0, w);
                for i in 0..w { let b = self.ex.extract(a[0].e, i, 1); let b = self.ex.zext(b, w); e = self.ex.add(e, b); }
                one(self.val(c, e))
            }
            In::Fshl | In::Fshr => {
                let s = self.conc(a[2], w)? % w as u64;
                let s = if k == In::Fshl { s } else { w as u64 - s };
                let full = (a[0].c as u128) << w | a[1].c as u128;
                let c = (full << s >> w) as u64 & m;
                if a[0].e | a[1].e == 0 { return Ok(one(Val { c, e: 0 })); }
                let (h, l) = (self.x(a[0], w), self.x(a[1], w));
                let f = self.ex.concat(h, l);
                let e = self.ex.extract(f, (w as u64 - s) as u8, w);
                one(self.val(c, e))
            }
            In::UAddO | In::USubO | In::UMulO | In::SAddO | In::SSubO | In::SMulO => {
                let (x, y) = (a[0].c as u128, a[1].c as u128);
                let (sxx, syy) = (sx(x, w), sx(y, w));
                let (r, o) = match k {
                    In::UAddO => { let r = x + y; (r as u64 & m, r > m as u128) }
                    In::USubO => ((x.wrapping_sub(y)) as u64 & m, x < y),
                    In::UMulO => { let r = x * y; (r as u64 & m, r > m as u128) }
                    In::SAddO => { let r = sxx + syy; (r as u64 & m, r != sx(r as u128, w)) }
                    In::SSubO => { let r = sxx - syy; (r as u64 & m, r != sx(r as u128, w)) }
                    _ => { let r = sxx * syy; (r as u64 & m, r != sx(r as u128, w)) }
                };
                if a[0].e | a[1].e == 0 { return Ok([Val { c: r, e: 0 }, Val { c: o as u64, e: 0 }]); }
                let (p, q) = (self.x(a[0], w), self.x(a[1], w));
                let (re, oe) = match k {
                    In::UAddO => { let s = self.ex.add(p, q); let o = self.ex.ult(s, p); (s, o) }
                    In::USubO => { let s = self.ex.sub(p, q); let o = self.ex.ult(p, q); (s, o) }
                    In::UMulO => {
                        let (pz, qz) = (self.ex.zext(p, 2 * w), self.ex.zext(q, 2 * w));
                        let s = self.ex.mul(pz, qz);
                        let r = self.ex.extract(s, 0, w);
                        let h = self.ex.extract(s, w, w);
                        let zz = self.ex.c(0, w);
                        let e = self.ex.eq(h, zz);
                        (r, self.ex.not(e))
                    }
                    _ => {
                        let w2 = 2 * w;
                        let (ps, qs) = (self.ex.sext(p, w2), self.ex.sext(q, w2));
                        let s = match k { In::SAddO => self.ex.add(ps, qs), In::SSubO => self.ex.sub(ps, qs), _ => self.ex.mul(ps, qs) };
                        let r = self.ex.extract(s, 0, w);
                        let back = self.ex.sext(r, w2);
                        let e = self.ex.eq(back, s);
                        (r, self.ex.not(e))
                    }
                };
                [self.val(r, re), self.val(o as u64, oe)]
            }
            In::SAddSat | In::SSubSat => {
                let r = self.intrin(if k == In::SAddSat { In::SAddO } else { In::SSubO }, w, a)?;
                let neg = self.icmp(Pred::Slt, w, a[0], Val { c: 0, e: 0 });
                let min = 1u64 << (w - 1);
                let sat = self.sel(neg, Val { c: min, e: 0 }, Val { c: min - 1, e: 0 }, w);
                one(self.sel(r[1], sat, r[0], w))
            }
            In::UAddSat | In::USubSat => {
                let (op, sat) = match k { In::UAddSat => (In::UAddO, m), _ => (In::USubO, 0) };
                let r = self.intrin(op, w, a)?;
                let c = if r[1].c != 0 { sat } else { r[0].c };
                if r[0].e | r[1].e == 0 { return Ok(one(Val { c, e: 0 })); }
                let o = self.x(r[1], 1);
                let s = self.ex.c(sat as u128, w);
                let t = self.x(r[0], w);
                let e = self.ex.ite(o, s, t);
                one(self.val(c, e))
            }
            In::UMax | In::UMin | In::SMax | In::SMin => {
                let p = match k { In::UMax => Pred::Uge, In::UMin => Pred::Ule, In::SMax => Pred::Sge, _ => Pred::Sle };
                let q = self.icmp(p, w, a[0], a[1]);
                one(self.sel(q, a[0], a[1], w))
            }
            In::Abs => {
                let zc = Val { c: 0, e: 0 };
                let q = self.icmp(Pred::Slt, w, a[0], zc);
                let n = self.bin(BinOp::Sub, w, zc, a[0])?;
                one(self.sel(q, n, a[0], w))
            }
            In::Scmp | In::Ucmp => {
                let (lt, gt) = if k == In::Scmp { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let l = self.icmp(lt, w, a[0], a[1]);
                let g = self.icmp(gt, w, a[0], a[1]);
                // result type is i8 in all uses emitted by rustc
                let t = self.sel(g, Val { c: 1, e: 0 }, Val { c: 0, e: 0 }, 8);
                one(self.sel(l, Val { c: 255, e: 0 }, t, 8))
            }
            In::VReduceOr | In::VReduceAnd | In::VReduceAdd => engine!("vector reduce"),
        })
    }
    fn sel(&mut self, q: Val, a: Val, b: Val, w: u8) -> Val {
        let r = if q.c & 1 != 0 { a } else { b };
        if q.e == 0 { return r; }
        if a.e == 0 && b.e == 0 && a.c == b.c { return a; }
        let (x, y) = (self.x(a, w), self.x(b, w));
        let e = self.ex.ite(q.e, x, y);
        self.val(r.c, e)
    }
    pub fn run(&mut self, entry: u32) -> End {
        match self.run_inner(entry) { Ok(()) => End::Done, Err(e) => e }
    }
    fn run_inner(&mut self, entry: u32) -> R<()> {
        let prog = self.prog;
        let mut func = prog.func(entry);
        self.covered.insert(entry);
        let mut base: usize = 0;
        let mut pc: usize = 0;
        let mut tmp: Vec<Val> = Vec::with_capacity(64);
        self.frames.push(Frame { f: entry, pc: 0, base: 0, sp: self.sp, dst: u32::MAX });
        macro_rules! need { ($n:expr) => { if self.regs.len() < $n { let k = ($n).max(self.regs.len() * 2); self.regs.resize(k, Val::default()); } }; }
        need!(func.nregs as usize + 16);
        macro_rules! g { ($o:expr) => {{ let o: i32 = $o; if o >= 0 { self.regs[base + o as usize] } else { Val { c: func.consts[(!o) as usize], e: 0 } } }}; }
        macro_rules! gl { ($o:expr, $k:expr) => {{ let o: i32 = $o; let k: usize = $k; if o >= 0 { self.regs[base + o as usize + k] } else { Val { c: func.consts[(!o) as usize + k], e: 0 } } }}; }
        macro_rules! s { ($d:expr, $v:expr) => {{ let v = $v; self.regs[base + $d as usize] = v; }}; }
        macro_rules! edge { ($e:expr) => {{
            let e = $e;
            match e.moves.len() {
                0 => {}
                1 => { let v = g!(e.moves[0].1); s!(e.moves[0].0, v); }
                _ => {
                    tmp.clear();
                    for m in e.moves.iter() { tmp.push(g!(m.1)); }
                    for (i, m) in e.moves.iter().enumerate() { s!(m.0, tmp[i]); }
                }
            }
            pc = e.pc as usize;
        }}; }
        macro_rules! enter { ($fid:expr, $args:expr, $dst:expr, $ret_pc:expr) => {{
            let fid: u32 = $fid;
            if self.frames.len() >= self.max_frames || self.sp + 4096 > self.heap_base { return Err(End::StackOverflow(self.whereami())); }
            if prog.fns[fid as usize].text.is_none() { engine!("indirect call to external {}", prog.fns[fid as usize].name); }
            let nf = prog.func(fid);
            if self.covered.len() < usize::MAX { self.covered.insert(fid); }
            self.frames.last_mut().unwrap().pc = $ret_pc;
            let nbase = base + func.nregs as usize;
            need!(nbase + nf.nregs as usize + 16);
            let mut k = 0;
            for (o, n) in $args.iter() { for j in 0..*n as usize { let v = gl!(*o, j); self.regs[nbase + k] = v; k += 1; } }
            self.frames.push(Frame { f: fid, pc: 0, base: nbase as u32, sp: self.sp, dst: $dst });
            func = nf;
            base = nbase;
            pc = 0;
        }}; }
        loop {
            self.steps += 1;
            let inst = &func.code[pc];
            pc += 1;
            match inst {
                Inst::Bin { op, w, n, dst, a, b } => {
                    if *n == 1 {
                        let (x, y) = (g!(*a), g!(*b));
                        if x.e | y.e == 0 && *w == 64 {
                            match op {
                                BinOp::Add => { s!(*dst, Val { c: x.c.wrapping_add(y.c), e: 0 }); continue; }
                                BinOp::Sub => { s!(*dst, Val { c: x.c.wrapping_sub(y.c), e: 0 }); continue; }
                                BinOp::And => { s!(*dst, Val { c: x.c & y.c, e: 0 }); continue; }
                                _ => {}
                            }
                        }
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        let v = self.bin(*op, *w, x, y)?;
                        s!(*dst, v);
                    } else {
                        for k in 0..*n as usize { let (x, y) = (gl!(*a, k), gl!(*b, k)); let v = self.bin(*op, *w, x, y)?; s!(*dst as usize + k, v); }
                    }
                }
                Inst::Bin128 { op, dst, a, b } => {
                    let (x, xe) = { let (l, h) = (gl!(*a, 0), gl!(*a, 1)); self.v128(l, h, 128) };
                    let (y, ye) = { let (l, h) = (gl!(*b, 0), gl!(*b, 1)); self.v128(l, h, 128) };
                    let c = match op {
                        BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y), BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                        BinOp::Shl => if y >= 128 { 0 } else { x << y }, BinOp::LShr => if y >= 128 { 0 } else { x >> y }, BinOp::AShr => ((x as i128) >> y.min(127)) as u128,
                        BinOp::UDiv | BinOp::URem if y != 0 && ye == 0 => if *op == BinOp::UDiv { x / y } else { x % y },
                        _ => engine!("i128 op"),
                    };
                    let e = if xe | ye == 0 { 0 } else {
                        let p = if xe != 0 { xe } else { self.ex.c(x, 128) };
                        let q = if ye != 0 { ye } else { self.ex.c(y, 128) };
                        self.bin_e(*op, p, q)
                    };
                    let (l, h) = self.split128(c, e);
                    s!(*dst, l);
                    s!(*dst + 1, h);
                }
                Inst::Icmp { p, w, n, dst, a, b } => {
                    for k in 0..*n as usize {
                        let (x, y) = (gl!(*a, k), gl!(*b, k));
                        let v = if x.e | y.e == 0 { Val { c: match p { Pred::Eq => x.c == y.c, Pred::Ne => x.c != y.c, Pred::Ult => x.c < y.c, _ => Self::cmp_c(*p, *w, x.c as u128, y.c as u128) } as u64, e: 0 } } else { self.icmp(*p, *w, x, y) };
                        s!(*dst as usize + k, v);
                    }
                }
                Inst::Icmp128 { p, dst, a, b } => {
                    let (x, xe) = { let (l, h) = (gl!(*a, 0), gl!(*a, 1)); self.v128(l, h, 128) };
                    let (y, ye) = { let (l, h) = (gl!(*b, 0), gl!(*b, 1)); self.v128(l, h, 128) };
                    let c = Self::cmp_c(*p, 128, x, y) as u64;
                    let v = if xe | ye == 0 { Val { c, e: 0 } } else {
                        let i = if xe != 0 { xe } else { self.ex.c(x, 128) };
                        let j = if ye != 0 { ye } else { self.ex.c(y, 128) };
                        let e = self.cmp_e(*p, i, j);
                        self.val(c, e)
                    };
                    s!(*dst, v);
                }
                Inst::Zext { t, n, dst, a, .. } => for k in 0..*n as usize {
                    let v = gl!(*a, k);
                    let v = if v.e == 0 { v } else { let e = self.ex.zext(v.e, *t); self.val(v.c, e) };
                    s!(*dst as usize + k, v);
                },
                Inst::Sext { f, t, n, dst, a } => for k in 0..*n as usize {
                    let v = gl!(*a, k);
                    let c = sx(v.c as u128, *f) as u64 & mask(*t) as u64;
                    let v = if v.e == 0 { Val { c, e: 0 } } else { let e = self.ex.sext(v.e, *t); self.val(c, e) };
                    s!(*dst as usize + k, v);
                },
                Inst::Trunc { t, n, dst, a, .. } => for k in 0..*n as usize {
                    let v = gl!(*a, k);
                    let c = v.c & mask(*t) as u64;
                    let v = if v.e == 0 { Val { c, e: 0 } } else { let e = self.ex.extract(v.e, 0, *t); self.val(c, e) };
                    s!(*dst as usize + k, v);
                },
                Inst::Cast128 { kind, f, t, dst, a } => {
                    if *kind == 2 {
                        let (c, e) = { let (l, h) = (gl!(*a, 0), gl!(*a, 1)); self.v128(l, h, *f) };
                        if *t > 64 { engine!("trunc 128"); }
                        let c2 = (c & mask(*t)) as u64;
                        let v = if e == 0 { Val { c: c2, e: 0 } } else { let x = self.ex.extract(e, 0, *t); self.val(c2, x) };
                        s!(*dst, v);
                    } else {
                        let v = g!(*a);
                        if *f > 64 { engine!("ext from >64"); }
                        let c = if *kind == 0 { v.c as u128 } else { sx(v.c as u128, *f) as u128 };
                        let e = if v.e == 0 { 0 } else if *kind == 0 { self.ex.zext(v.e, 128) } else { self.ex.sext(v.e, 128) };
                        let (l, h) = self.split128(c, e);
                        s!(*dst, l);
                        s!(*dst + 1, h);
                    }
                }
                Inst::Bitcast { n1, w1, n2, w2, dst, a } => {
                    // little-endian concatenation of lanes into bits
                    let mut bits: Vec<(u64, E, u8)> = Vec::with_capacity(*n1 as usize);
                    for k in 0..*n1 as usize { let v = gl!(*a, k); bits.push((v.c, v.e, *w1)); }
                    let mut outv = Vec::with_capacity(*n2 as usize);
                    for k in 0..*n2 as usize {
                        let (mut c, mut e, mut got) = (0u64, 0 as E, 0u8);
                        let mut pos = k * *w2 as usize;
                        let symbolic = { let f = pos / *w1 as usize; let l = (pos + *w2 as usize - 1) / *w1 as usize; (f..=l).any(|i| bits[i].1 != 0) };
                        while got < *w2 {
                            let lane = pos / *w1 as usize;
                            let off = (pos % *w1 as usize) as u8;
                            let take = (*w1 - off).min(*w2 - got);
                            let b = bits[lane];
                            let part = (b.0 >> off) & mask(take) as u64;
                            c |= part << got;
                            if symbolic {
                                let x = if b.1 != 0 { self.ex.extract(b.1, off, take) } else { self.ex.c(part as u128, take) };
                                e = if got == 0 { x } else { self.ex.concat(x, e) };
                            }
                            got += take;
                            pos += take as usize;
                        }
                        outv.push(self.val(c, e));
                    }
                    for (k, v) in outv.into_iter().enumerate() { s!(*dst as usize + k, v); }
                }
                Inst::Copy { n, dst, a } => for k in 0..*n as usize { let v = gl!(*a, k); s!(*dst as usize + k, v); },
                Inst::Load1 { w, dst, p } => {
                    let mut pp = g!(*p);
                    if pp.e != 0 { self.frames.last_mut().unwrap().pc = pc as u32; pp.c = self.conc(pp, 64)?; }
                    let v = self.load(pp.c, *w)?;
                    s!(*dst, v);
                }
                Inst::Load { l, dst, p } => {
                    let pv = g!(*p);
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let a = self.conc(pv, 64)?;
                    for (k, (o, w)) in l.iter().enumerate() { let v = self.load(a + o, *w)?; s!(*dst as usize + k, v); }
                }
                Inst::Store1 { w, v, p } => {
                    let mut pp = g!(*p);
                    if pp.e != 0 { self.frames.last_mut().unwrap().pc = pc as u32; pp.c = self.conc(pp, 64)?; }
                    let x = g!(*v);
                    self.store(pp.c, *w, x)?;
                }
                Inst::StoreBits { n, v, p } => {
                    let pv = g!(*p);
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let a = self.conc(pv, 64)?;
                    let (mut c, mut sy) = (0u64, false);
                    for k in 0..*n as usize { let x = gl!(*v, k); c |= (x.c & 1) << k; sy |= x.e != 0; }
                    let mut e = 0;
                    if sy { for k in 0..*n as usize { let x = gl!(*v, k); let b = self.x(x, 1); e = if k == 0 { b } else { self.ex.concat(b, e) }; } }
                    let x = self.val(c, e);
                    self.store(a, *n as u8, x)?;
                }
                Inst::LoadBits { n, dst, p } => {
                    let pv = g!(*p);
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let a = self.conc(pv, 64)?;
                    let x = self.load(a, *n as u8)?;
                    for k in 0..*n as usize {
                        let e = if x.e == 0 { 0 } else { self.ex.extract(x.e, k as u8, 1) };
                        let b = self.val(x.c >> k & 1, e);
                        s!(*dst as usize + k, b);
                    }
                }
                Inst::Store { l, v, p } => {
                    let pv = g!(*p);
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let a = self.conc(pv, 64)?;
                    for (k, (o, w)) in l.iter().enumerate() { let x = gl!(*v, k); self.store(a + o, *w, x)?; }
                }
                Inst::Gep { dst, base: b, off, idx } => {
                    let mut v = g!(*b);
                    v.c = v.c.wrapping_add(*off);
                    if v.e != 0 && *off != 0 { let k = self.ex.c(*off as u128, 64); v.e = self.ex.add(v.e, k); }
                    for (o, w, sc) in idx.iter() {
                        let i = g!(*o);
                        let c = sx(i.c as u128, *w) as u64;
                        let d = c.wrapping_mul(*sc);
                        if i.e != 0 || v.e != 0 {
                            let ie = if i.e != 0 { self.ex.sext(i.e, 64) } else { self.ex.c(c as u128, 64) };
                            let se = self.ex.c(*sc as u128, 64);
                            let de = self.ex.mul(ie, se);
                            let be = self.x(v, 64);
                            let e = self.ex.add(be, de);
                            v = self.val(v.c.wrapping_add(d), e);
                        } else { v.c = v.c.wrapping_add(d); }
                    }
                    s!(*dst, v);
                }
                Inst::Select { dst, c, cn, a, b, l } => {
                    let n = l.len();
                    for k in 0..n {
                        let q = if *cn > 1 { gl!(*c, k) } else { g!(*c) };
                        let v = if q.e == 0 { if q.c & 1 != 0 { gl!(*a, k) } else { gl!(*b, k) } } else { let (x, y) = (gl!(*a, k), gl!(*b, k)); self.sel(q, x, y, l[k]) };
                        tmp.push(v);
                        let _ = &tmp;
                    }
                    for k in 0..n { let v = tmp[tmp.len() - n + k]; s!(*dst as usize + k, v); }
                    let t = tmp.len() - n;
                    tmp.truncate(t);
                }
                Inst::Alloca { dst, size, align } => {
                    let a = (self.sp + align - 1) / align * align;
                    self.sp = a + size.max(&1);
                    if self.sp > self.heap_base { return Err(End::StackOverflow(self.whereami())); }
                    let o = self.off(a, *size)?;
                    self.clear_sh(o, *size as usize);
                    s!(*dst, Val { c: a, e: 0 });
                }
                Inst::Call { f, args, dst, inv } => {
                    let rp = match inv { Some(_) => (pc - 1) as u32 | 0x8000_0000, None => pc as u32 };
                    enter!(*f, args, *dst, rp);
                }
                Inst::CallInd { p, args, dst, inv } => {
                    let pv = g!(*p);
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let a = self.conc(pv, 64)?;
                    if a < FN_BASE || (a - FN_BASE) / 16 >= prog.fns.len() as u64 { engine!("bad function pointer {a:#x} at {}", self.whereami()); }
                    let fid = ((a - FN_BASE) / 16) as u32;
                    let rp = match inv { Some(_) => (pc - 1) as u32 | 0x8000_0000, None => pc as u32 };
                    enter!(fid, args, *dst, rp);
                }
                Inst::CallExt { x, args, dst, inv } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let av: [Val; 6] = { let mut t = [Val::default(); 6]; for (i, o) in args.iter().enumerate() { t[i] = g!(*o); } t };
                    let r = self.ext(*x, &av[..args.len()])?;
                    if *dst != u32::MAX { s!(*dst, r[0]); if *x == Ext::RandomKeys { s!(*dst + 1, r[1]); } }
                    if let Some(e) = inv { edge!(e); }
                    if self.steps > self.step_limit { return Err(End::StepLimit(self.whereami())); }
                }
                Inst::CallUnknown { name } => engine!("call to unmodelled function {name} at {}", self.whereami()),
                Inst::Intrin { k, w, n, args, dst } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    if *n == 1 {
                        let av: [Val; 5] = { let mut t = [Val::default(); 5]; for (i, o) in args.iter().enumerate() { t[i] = g!(*o); } t };
                        let r = self.intrin(*k, *w, &av[..args.len()])?;
                        if *dst != u32::MAX {
                            s!(*dst, r[0]);
                            if matches!(k, In::UAddO | In::SAddO | In::USubO | In::SSubO | In::UMulO | In::SMulO) { s!(*dst + 1, r[1]); }
                        }
                    } else {
                        if matches!(k, In::UAddO | In::SAddO | In::USubO | In::SSubO | In::UMulO | In::SMulO) { engine!("vector intrinsic {k:?}"); }
                        if matches!(k, In::VReduceOr | In::VReduceAnd | In::VReduceAdd) {
                            let mut acc = gl!(args[0], 0);
                            for i in 1..*n as usize { let y = gl!(args[0], i); acc = self.bin(match k { In::VReduceOr => BinOp::Or, In::VReduceAnd => BinOp::And, _ => BinOp::Add }, *w, acc, y)?; }
                            s!(*dst, acc);
                        } else {
                            let mut out = vec![];
                            for i in 0..*n as usize {
                                let mut t = [Val::default(); 5];
                                for (j, o) in args.iter().enumerate() { t[j] = if j == 1 && matches!(k, In::Ctlz | In::Cttz | In::Abs) { g!(*o) } else { gl!(*o, i) }; }
                                out.push(self.intrin(*k, *w, &t[..args.len()])?[0]);
                            }
                            for (i, v) in out.into_iter().enumerate() { s!(*dst as usize + i, v); }
                        }
                    }
                }
                Inst::ExtractEl { dst, v, n, idx } => {
                    let i = g!(*idx);
                    let i = self.conc(i, 64)?;
                    if i >= *n as u64 { engine!("extractelement index"); }
                    let x = gl!(*v, i as usize);
                    s!(*dst, x);
                }
                Inst::InsertEl { dst, v, n, x, idx } => {
                    let i = g!(*idx);
                    let i = self.conc(i, 64)?;
                    let y = g!(*x);
                    for k in 0..*n as usize { let t = if k as u64 == i { y } else { gl!(*v, k) }; s!(*dst as usize + k, t); }
                }
                Inst::Shuffle { dst, a, b, n, mask } => {
                    let mut out = Vec::with_capacity(mask.len());
                    for m in mask.iter() { let m = *m as usize; out.push(if m < *n as usize { gl!(*a, m) } else { gl!(*b, m - *n as usize) }); }
                    for (k, v) in out.into_iter().enumerate() { s!(*dst as usize + k, v); }
                }
                Inst::Insert { dst, v, n, x, off, m } => {
                    for k in 0..*n { let t = if k >= *off && k < *off + *m { gl!(*x, (k - *off) as usize) } else { gl!(*v, k as usize) }; s!(*dst + k, t); }
                }
                Inst::Rmw { op, w, dst, p, v } => {
                    let a = { let t = g!(*p); self.conc(t, 64)? };
                    let old = self.load(a, *w)?;
                    let y = g!(*v);
                    let new = match op {
                        RmwOp::Xchg => y,
                        RmwOp::Add => self.bin(BinOp::Add, *w, old, y)?, RmwOp::Sub => self.bin(BinOp::Sub, *w, old, y)?, RmwOp::And => self.bin(BinOp::And, *w, old, y)?,
                        RmwOp::Or => self.bin(BinOp::Or, *w, old, y)?, RmwOp::Xor => self.bin(BinOp::Xor, *w, old, y)?,
                        RmwOp::UMax => self.intrin(In::UMax, *w, &[old, y])?[0], RmwOp::UMin => self.intrin(In::UMin, *w, &[old, y])?[0],
                        RmwOp::Max => self.intrin(In::SMax, *w, &[old, y])?[0], RmwOp::Min => self.intrin(In::SMin, *w, &[old, y])?[0],
                    };
                    self.store(a, *w, new)?;
                    s!(*dst, old);
                }
                Inst::CmpXchg { w, dst, p, c, v } => {
                    let a = { let t = g!(*p); self.conc(t, 64)? };
                    let old = self.load(a, *w)?;
                    let (cv, nv) = (g!(*c), g!(*v));
                    let ok = self.icmp(Pred::Eq, *w, old, cv);
                    let new = self.sel(ok, nv, old, *w);
                    self.store(a, *w, new)?;
                    s!(*dst, old);
                    s!(*dst + 1, ok);
                }
                Inst::Br(e) => {
                    edge!(e);
                    if self.steps > self.step_limit { return Err(End::StepLimit(self.whereami())); }
                }
                Inst::CondBr { c, t, e } => {
                    let q = g!(*c);
                    if q.e != 0 {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        self.decide(q.e, q.c & 1 != 0, true)?;
                    }
                    if q.c & 1 != 0 { edge!(t); } else { edge!(e); }
                    if self.steps > self.step_limit { return Err(End::StepLimit(self.whereami())); }
                }
                Inst::Switch { v, w, cases, edges } => {
                    let q = g!(*v);
                    let mut target = 0u32;
                    for (c, k) in cases.iter() { if *c == q.c { target = *k; break; } }
                    if q.e != 0 {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        for k in 1..edges.len() as u32 {
                            let mut any = self.ex.c(0, 1);
                            for (c, kk) in cases.iter() { if *kk == k { let cc = self.ex.c(*c as u128, *w); let t = self.ex.eq(q.e, cc); any = self.ex.or(any, t); } }
                            self.decide(any, target == k, true)?;
                            if target == k { break; }
                        }
                        if target == 0 {
                            // cases sharing the default destination need no constraint
                        }
                    }
                    let e = &edges[target as usize];
                    edge!(e);
                }
                Inst::Ret { v, n } => {
                    let fr = self.frames.pop().unwrap();
                    self.sp = fr.sp;
                    let Some(caller) = self.frames.last() else { return Ok(()) };
                    let cb = caller.base as usize;
                    if fr.dst != u32::MAX { for k in 0..*n as usize { let x = gl!(*v, k); self.regs[cb + fr.dst as usize + k] = x; } }
                    func = prog.func(caller.f);
                    base = cb;
                    let rp = caller.pc;
                    if rp & 0x8000_0000 != 0 {
                        pc = (rp & 0x7fff_ffff) as usize;
                        match &func.code[pc] {
                            Inst::Call { inv: Some(e), .. } | Inst::CallInd { inv: Some(e), .. } => { edge!(e); }
                            _ => engine!("invoke return"),
                        }
                    } else { pc = rp as usize; }
                }
                Inst::Unreachable => engine!("reached unreachable at {}", self.whereami()),
                Inst::Unsupported(l) => engine!("unsupported: {l} at {}", self.whereami()),
            }
        }
    }
}

/// Readable path out of a v0 mangled symbol (identifiers only).
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") { return s.to_string(); }
    let b = s.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator: s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 16 { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let n: usize = s[i..j].parse().unwrap_or(usize::MAX);
            let mut st = j;
            if st < b.len() && b[st] == b'_' { st += 1; }
            if n < 200 && st + n <= b.len() {
                let id = &s[st..st + n];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') { out.push(id.to_string()); i = st + n; continue; }
            }
            i = j;
            continue;
        }
        i += 1;
    }
    out.join("::")
}
