//! Hash-consed bit-vector expressions (width 1..=128) with light canonicalisation.
//! Expression id 0 means "no expression" (a concrete value).
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Var(u32),
    Const(u128),
    Not(E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Add(E, E),
    Sub(E, E),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Ite(E, E, E),
    Concat(E, E), // hi, lo
    Extract(E, u8), // lo bit; width = node width
    ZExt(E),
    SExt(E),
}

pub struct Node {
    pub k: K,
    pub w: u8,
    /// possibly non-zero bits
    pub nz: u128,
    /// set of variables (indices into var-set table)
    pub vs: u32,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w as u32)) as i128) >> (128 - w as u32) }
}

#[derive(Default)]
pub struct VarSets {
    pub sets: Vec<Box<[u32]>>,
    map: HashMap<Box<[u32]>, u32>,
    uni: HashMap<(u32, u32), u32>,
}
impl VarSets {
    fn new() -> Self {
        let mut s = VarSets::default();
        s.intern(Box::new([]));
        s
    }
    fn intern(&mut self, b: Box<[u32]>) -> u32 {
        if let Some(&i) = self.map.get(&b) { return i; }
        let i = self.sets.len() as u32;
        self.sets.push(b.clone());
        self.map.insert(b, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&i) = self.uni.get(&key) { return i; }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) { v.push(x[i]); i += 1; }
            else if i >= x.len() || y[j] < x[i] { v.push(y[j]); j += 1; }
            else { v.push(x[i]); i += 1; j += 1; }
        }
        let r = self.intern(v.into_boxed_slice());
        self.uni.insert(key, r);
        r
    }
}

pub struct Ex {
    pub nodes: Vec<Node>,
    map: HashMap<(K, u8), E>,
    pub vsets: VarSets,
}

impl Ex {
    pub fn new() -> Self {
        let mut x = Ex { nodes: Vec::new(), map: HashMap::new(), vsets: VarSets::new() };
        x.nodes.push(Node { k: K::Const(0), w: 0, nz: 0, vs: 0 });
        x
    }
    #[inline] pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].w }
    #[inline] pub fn k(&self, e: E) -> K { self.nodes[e as usize].k }
    #[inline] pub fn nz(&self, e: E) -> u128 { self.nodes[e as usize].nz }
    #[inline] pub fn cval(&self, e: E) -> Option<u128> { if let K::Const(c) = self.k(e) { Some(c) } else { None } }
    pub fn vars(&self, e: E) -> &[u32] { &self.vsets.sets[self.nodes[e as usize].vs as usize] }

    fn mk(&mut self, k: K, w: u8) -> E {
        debug_assert!(w >= 1 && w <= 128);
        if let Some(&e) = self.map.get(&(k, w)) { return e; }
        let vs = match k {
            K::Var(i) => self.vsets.intern(Box::new([i])),
            K::Const(_) => 0,
            K::Not(a) | K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => self.nodes[a as usize].vs,
            K::And(a, b) | K::Or(a, b) | K::Xor(a, b) | K::Add(a, b) | K::Sub(a, b) | K::Mul(a, b)
            | K::UDiv(a, b) | K::URem(a, b) | K::SDiv(a, b) | K::SRem(a, b) | K::Shl(a, b)
            | K::LShr(a, b) | K::AShr(a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Ule(a, b)
            | K::Slt(a, b) | K::Sle(a, b) | K::Concat(a, b) => {
                let (x, y) = (self.nodes[a as usize].vs, self.nodes[b as usize].vs);
                self.vsets.union(x, y)
            }
            K::Ite(a, b, c) => {
                let (x, y, z) = (self.nodes[a as usize].vs, self.nodes[b as usize].vs, self.nodes[c as usize].vs);
                let t = self.vsets.union(x, y);
                self.vsets.union(t, z)
            }
        };
        let m = mask(w);
        let nz = match k {
            K::Const(c) => c,
            K::And(a, b) => self.nz(a) & self.nz(b),
            K::Or(a, b) | K::Xor(a, b) => self.nz(a) | self.nz(b),
            K::Ite(_, b, c) => self.nz(b) | self.nz(c),
            K::Concat(a, b) => (self.nz(a) << self.w(b)) | self.nz(b),
            K::Extract(a, lo) => (self.nz(a) >> lo) & m,
            K::ZExt(a) => self.nz(a),
            K::Add(a, b) => {
                // carries only propagate upwards from the lowest possible bit
                let u = self.nz(a) | self.nz(b);
                if u == 0 { 0 } else {
                    let top = 128 - u.leading_zeros();
                    let top = (top + 1).min(w as u32) as u8;
                    mask(top) & !((1u128 << u.trailing_zeros()) - 1)
                }
            }
            _ => m,
        } & m;
        let id = self.nodes.len() as E;
        self.nodes.push(Node { k, w, nz, vs });
        self.map.insert((k, w), id);
        id
    }
    pub fn c(&mut self, v: u128, w: u8) -> E { self.mk(K::Const(v & mask(w)), w) }
    pub fn var(&mut self, i: u32) -> E { self.mk(K::Var(i), 8) }
    pub fn is_true(&self, e: E) -> bool { self.cval(e) == Some(1) && self.w(e) == 1 }
    pub fn is_false(&self, e: E) -> bool { self.cval(e) == Some(0) && self.w(e) == 1 }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.k(a) {
            K::Const(c) => self.c(!c, w),
            K::Not(x) => x,
            K::Ult(x, y) => self.ule(y, x),
            K::Ule(x, y) => self.ult(y, x),
            K::Slt(x, y) => self.sle(y, x),
            K::Sle(x, y) => self.slt(y, x),
            K::Ite(c, x, y) if self.cval(x).is_some() || self.cval(y).is_some() => {
                let (p, q) = (self.not(x), self.not(y));
                self.ite(c, p, q)
            }
            _ => self.mk(K::Not(a), w),
        }
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w(a);
        debug_assert!(lo as u32 + w as u32 <= aw as u32);
        if lo == 0 && w == aw { return a; }
        match self.k(a) {
            K::Const(c) => self.c(c >> lo, w),
            K::Extract(x, l2) => self.extract(x, lo + l2, w),
            K::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { return self.extract(h, lo - lw, w); }
                if lo + w <= lw { return self.extract(l, lo, w); }
                let p = self.extract(h, 0, lo + w - lw);
                let q = self.extract(l, lo, lw - lo);
                self.concat(p, q)
            }
            K::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.c(0, w); }
                if lo + w <= xw { return self.extract(x, lo, w); }
                let p = self.extract(x, lo, xw - lo);
                self.zext(p, w)
            }
            K::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw { return self.extract(x, lo, w); }
                if lo < xw { let p = self.extract(x, lo, xw - lo); return self.sext(p, w); }
                let p = self.extract(x, xw - 1, 1);
                self.sext(p, w)
            }
            K::And(x, y) => { let (p, q) = (self.extract(x, lo, w), self.extract(y, lo, w)); self.and(p, q) }
            K::Or(x, y) => { let (p, q) = (self.extract(x, lo, w), self.extract(y, lo, w)); self.or(p, q) }
            K::Xor(x, y) => { let (p, q) = (self.extract(x, lo, w), self.extract(y, lo, w)); self.xor(p, q) }
            K::Not(x) => { let p = self.extract(x, lo, w); self.not(p) }
            K::Add(x, y) if lo == 0 => { let (p, q) = (self.extract(x, 0, w), self.extract(y, 0, w)); self.add(p, q) }
            K::Sub(x, y) if lo == 0 => { let (p, q) = (self.extract(x, 0, w), self.extract(y, 0, w)); self.sub(p, q) }
            K::Ite(c, x, y) => {
                let (p, q) = (self.extract(x, lo, w), self.extract(y, lo, w));
                self.ite(c, p, q)
            }
            _ => {
                if self.nz(a) >> lo & mask(w) == 0 { return self.c(0, w); }
                self.mk(K::Extract(a, lo), w)
            }
        }
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.k(a) {
            K::Const(c) => self.c(c, w),
            K::ZExt(x) => self.zext(x, w),
            K::Concat(h, l) if self.cval(h) == Some(0) => self.zext(l, w),
            K::Ite(c, x, y) if self.cval(x).is_some() && self.cval(y).is_some() => {
                let (p, q) = (self.zext(x, w), self.zext(y, w));
                self.ite(c, p, q)
            }
            _ => self.mk(K::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if self.nz(a) >> (aw - 1) & 1 == 0 { return self.zext(a, w); }
        match self.k(a) {
            K::Const(c) => self.c(sx(c, aw) as u128, w),
            K::SExt(x) => self.sext(x, w),
            K::Ite(c, x, y) if self.cval(x).is_some() && self.cval(y).is_some() => {
                let (p, q) = (self.sext(x, w), self.sext(y, w));
                self.ite(c, p, q)
            }
            _ => self.mk(K::SExt(a), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.cval(h), self.cval(l)) { return self.c(a << lw | b, w); }
        if self.cval(h) == Some(0) { return self.zext(l, w); }
        // merge adjacent extracts of the same base
        if let Some(m) = self.merge(h, l) { return m; }
        if let K::ZExt(x) = self.k(h) {
            let p = self.concat(x, l);
            return self.zext(p, w);
        }
        // right-nested canonical form: ((a b) c) -> (a (b c))
        if let K::Concat(a, b) = self.k(h) {
            let bl = self.concat(b, l);
            return self.concat(a, bl);
        }
        if let K::Concat(m, r) = self.k(l) {
            if let Some(hm) = self.merge(h, m) { return self.concat(hm, r); }
            if let (Some(a), Some(b)) = (self.cval(h), self.cval(m)) {
                let mw = self.w(m);
                let hm = self.c(a << mw | b, hw + mw);
                return self.concat(hm, r);
            }
        }
        self.mk(K::Concat(h, l), w)
    }
    fn merge(&mut self, h: E, l: E) -> Option<E> {
        let (hw, lw) = (self.w(h), self.w(l));
        match (self.k(h), self.k(l)) {
            (K::Extract(x, hl), K::Extract(y, ll)) if x == y && hl == ll + lw => Some(self.extract(x, ll, hw + lw)),
            (K::Ite(c, a, b), K::Ite(d, p, q)) if c == d => {
                let (x, y) = (self.concat(a, p), self.concat(b, q));
                Some(self.ite(c, x, y))
            }
            _ => None,
        }
    }
    /// segments from low to high: (expr or 0 for zeros, width)
    fn segs(&self, e: E, out: &mut Vec<(E, u8)>) {
        match self.k(e) {
            K::Concat(h, l) => { self.segs(l, out); self.segs(h, out); }
            K::ZExt(x) => { self.segs(x, out); out.push((0, self.w(e) - self.w(x))); }
            K::Const(0) => out.push((0, self.w(e))),
            _ => out.push((e, self.w(e))),
        }
    }
    /// a op b where their possibly non-zero bits are disjoint
    fn join(&mut self, a: E, b: E) -> Option<E> {
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        let mut parts: Vec<E> = vec![];
        let (mut i, mut j, mut oi, mut oj) = (0, 0, 0u8, 0u8);
        while i < sa.len() && j < sb.len() {
            let n = (sa[i].1 - oi).min(sb[j].1 - oj);
            let pa = if sa[i].0 == 0 { 0 } else { let x = self.extract(sa[i].0, oi, n); if self.cval(x) == Some(0) { 0 } else { x } };
            let pb = if sb[j].0 == 0 { 0 } else { let x = self.extract(sb[j].0, oj, n); if self.cval(x) == Some(0) { 0 } else { x } };
            let p = match (pa, pb) {
                (0, 0) => self.c(0, n),
                (x, 0) | (0, x) => x,
                _ => return None,
            };
            parts.push(p);
            oi += n; oj += n;
            if oi == sa[i].1 { i += 1; oi = 0; }
            if oj == sb[j].1 { j += 1; oj = 0; }
        }
        let mut r = parts[0];
        for &p in &parts[1..] { r = self.concat(p, r); }
        Some(r)
    }
    fn both<F: Fn(u128, u128) -> u128>(&mut self, a: E, b: E, f: F) -> Option<E> {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let w = self.w(a);
            return Some(self.c(f(x, y), w));
        }
        None
    }
    /// push a binary operation with one constant operand into an ite with a constant leaf
    fn push_ite(&mut self, a: E, b: E, f: fn(&mut Ex, E, E) -> E) -> Option<E> {
        if let (K::Ite(c, x, y), true) = (self.k(a), self.cval(b).is_some()) {
            if self.leafy(x) && self.leafy(y) {
                let (p, q) = (f(self, x, b), f(self, y, b));
                return Some(self.ite(c, p, q));
            }
        }
        if let (K::Ite(c, x, y), true) = (self.k(b), self.cval(a).is_some()) {
            if self.leafy(x) && self.leafy(y) {
                let (p, q) = (f(self, a, x), f(self, a, y));
                return Some(self.ite(c, p, q));
            }
        }
        None
    }
    fn leafy(&self, e: E) -> bool {
        match self.k(e) {
            K::Const(_) => true,
            K::Ite(_, x, y) => (self.cval(x).is_some() && self.leafy(y)) || (self.cval(y).is_some() && self.leafy(x)),
            _ => false,
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(r) = self.both(a, b, |x, y| x & y) { return r; }
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if self.nz(a) & self.nz(b) == 0 { return self.c(0, w); }
        if let Some(c) = self.cval(b) {
            if c & self.nz(a) == self.nz(a) { return a; }
            if let Some(r) = self.push_ite(a, b, Ex::and) { return r; }
            // contiguous mask -> extract
            let t = c.trailing_zeros() as u8;
            let r = c >> t;
            if r & (r + 1) == 0 {
                let n = 128 - r.leading_zeros() as u8;
                let x = self.extract(a, t, n);
                let x = if t > 0 { let z = self.c(0, t); self.concat(x, z) } else { x };
                return self.zext(x, w);
            }
        }
        if w == 1 { let (na, nb) = (self.not(a), self.not(b)); if na == b || nb == a { return self.c(0, 1); } }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(K::And(a, b), w)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(r) = self.both(a, b, |x, y| x | y) { return r; }
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cval(b) {
            if c == 0 { return a; }
            if c == mask(w) { return b; }
            if let Some(r) = self.push_ite(a, b, Ex::or) { return r; }
        }
        if self.nz(a) & self.nz(b) == 0 { if let Some(r) = self.join(a, b) { return r; } }
        if w == 1 { let na = self.not(a); if na == b { return self.c(1, 1); } }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(K::Or(a, b), w)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        if let Some(r) = self.both(a, b, |x, y| x ^ y) { return r; }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cval(b) {
            if c == 0 { return a; }
            if c == mask(w) { return self.not(a); }
            if let Some(r) = self.push_ite(a, b, Ex::xor) { return r; }
        }
        if self.nz(a) & self.nz(b) == 0 { if let Some(r) = self.join(a, b) { return r; } }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(K::Xor(a, b), w)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both(a, b, |x, y| x.wrapping_add(y)) { return r; }
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if self.cval(b) == Some(0) { return a; }
        if self.cval(b).is_some() {
            if let Some(r) = self.push_ite(a, b, Ex::add) { return r; }
            if let K::Add(x, y) = self.k(a) { if self.cval(y).is_some() { let s = self.add(y, b); return self.add(x, s); } }
        }
        if self.nz(a) & self.nz(b) == 0 { if let Some(r) = self.join(a, b) { return r; } }
        self.mk(K::Add(a, b), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        if let Some(c) = self.cval(b) { let n = self.c(c.wrapping_neg(), w); return self.add(a, n); }
        if let Some(r) = self.push_ite(a, b, Ex::sub) { return r; }
        self.mk(K::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both(a, b, |x, y| x.wrapping_mul(y)) { return r; }
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cval(b) {
            if c == 0 { return b; }
            if c == 1 { return a; }
            if c.is_power_of_two() { let s = self.c(c.trailing_zeros() as u128, w); return self.shl(a, s); }
            if let Some(r) = self.push_ite(a, b, Ex::mul) { return r; }
        }
        self.mk(K::Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cval(b) {
            if c == 1 { return a; }
            if c.is_power_of_two() { let s = self.c(c.trailing_zeros() as u128, w); return self.lshr(a, s); }
            if let Some(x) = self.cval(a) { if c != 0 { return self.c(x / c, w); } }
        }
        self.mk(K::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cval(b) {
            if c.is_power_of_two() { let s = self.c(c - 1, w); return self.and(a, s); }
            if let Some(x) = self.cval(a) { if c != 0 { return self.c(x % c, w); } }
        }
        self.mk(K::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if y != 0 { return self.c(sx(x, w).wrapping_div(sx(y, w)) as u128, w); } }
        self.mk(K::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if y != 0 { return self.c(sx(x, w).wrapping_rem(sx(y, w)) as u128, w); } }
        self.mk(K::SRem(a, b), w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return self.c(0, w); }
            let x = self.extract(a, 0, w - s as u8);
            let z = self.c(0, s as u8);
            return self.concat(x, z);
        }
        if self.cval(a) == Some(0) { return a; }
        self.mk(K::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 { return a; }
            if s >= w as u128 { return self.c(0, w); }
            let x = self.extract(a, s as u8, w - s as u8);
            return self.zext(x, w);
        }
        if self.cval(a) == Some(0) { return a; }
        self.mk(K::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.nz(a) >> (w - 1) & 1 == 0 { return self.lshr(a, b); }
        if let Some(s) = self.cval(b) {
            let s = s.min(w as u128 - 1) as u8;
            if s == 0 { return a; }
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        self.mk(K::AShr(a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(1, 1); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cval(b) {
            if let Some(x) = self.cval(a) { return self.c((x == c) as u128, 1); }
            if c & !self.nz(a) != 0 { return self.c(0, 1); }
            if w == 1 { return if c == 1 { a } else { self.not(a) }; }
            match self.k(a) {
                K::ZExt(x) => { let xw = self.w(x); let k = self.c(c, xw); return self.eq(x, k); }
                K::SExt(x) => {
                    let xw = self.w(x);
                    let k = self.c(c, xw);
                    let back = self.sext(k, w);
                    if self.cval(back) != Some(c) { return self.c(0, 1); }
                    return self.eq(x, k);
                }
                K::Concat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kh = self.c(c >> lw, hw);
                    let kl = self.c(c, lw);
                    let p = self.eq(h, kh);
                    if self.is_false(p) { return p; }
                    let q = self.eq(l, kl);
                    return self.and(p, q);
                }
                K::Not(x) => { let k = self.c(!c, w); return self.eq(x, k); }
                K::Add(x, y) if self.cval(y).is_some() => { let k = self.sub(b, y); return self.eq(x, k); }
                K::Xor(x, y) if self.cval(y).is_some() => { let k = self.xor(b, y); return self.eq(x, k); }
                K::Xor(x, y) | K::Sub(x, y) if c == 0 => return self.eq(x, y),
                K::Or(x, y) if c == 0 => { let z = self.c(0, w); let (p, q) = (self.eq(x, z), self.eq(y, z)); return self.and(p, q); }
                _ => {}
            }
            if let Some(r) = self.push_ite(a, b, Ex::eq) { return r; }
        } else {
            // equal-shaped concats / zero extensions
            match (self.k(a), self.k(b)) {
                (K::Concat(h1, l1), K::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                    let p = self.eq(h1, h2);
                    if self.is_false(p) { return p; }
                    let q = self.eq(l1, l2);
                    return self.and(p, q);
                }
                (K::ZExt(x), K::ZExt(y)) => {
                    let n = self.w(x).max(self.w(y));
                    let (p, q) = (self.zext(x, n), self.zext(y, n));
                    if p != a || q != b { return self.eq(p, q); }
                }
                _ => {}
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(K::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(0, 1); }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.c((x < y) as u128, 1); }
        if self.cval(b) == Some(0) { return self.c(0, 1); }
        if let Some(y) = self.cval(b) {
            if self.nz(a) < y { return self.c(1, 1); }
            if y == 1 { let z = self.w(a); let z = self.c(0, z); return self.eq(a, z); }
        }
        if let Some(x) = self.cval(a) {
            if x >= self.nz(b) { return self.c(0, 1); }
            if x == 0 { let z = self.w(b); let z = self.c(0, z); let q = self.eq(b, z); return self.not(q); }
        }
        if let Some(r) = self.push_ite(a, b, Ex::ult) { return r; }
        if let Some((x, y)) = self.narrow(a, b) { return self.ult(x, y); }
        if self.w(a) == 1 { let na = self.not(a); return self.and(na, b); }
        self.mk(K::Ult(a, b), 1)
    }
    fn narrow(&mut self, a: E, b: E) -> Option<(E, E)> {
        let w = self.w(a);
        let u = self.nz(a) | self.nz(b);
        let n = (128 - u.leading_zeros() as u8).max(1);
        if n < w { Some((self.extract(a, 0, n), self.extract(b, 0, n))) } else { None }
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(1, 1); }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.c((x <= y) as u128, 1); }
        if self.cval(a) == Some(0) { return self.c(1, 1); }
        if let Some(y) = self.cval(b) {
            if self.nz(a) <= y { return self.c(1, 1); }
            if y == 0 { return self.eq(a, b); }
        }
        if let Some(x) = self.cval(a) { if x > self.nz(b) { return self.c(0, 1); } }
        if let Some(r) = self.push_ite(a, b, Ex::ule) { return r; }
        if let Some((x, y)) = self.narrow(a, b) { return self.ule(x, y); }
        if self.w(a) == 1 { let na = self.not(a); return self.or(na, b); }
        self.mk(K::Ule(a, b), 1)
    }
    fn nonneg(&self, a: E) -> bool { let w = self.w(a); self.nz(a) >> (w - 1) & 1 == 0 }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(0, 1); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.c((sx(x, w) < sx(y, w)) as u128, 1); }
        if self.nonneg(a) && self.nonneg(b) { return self.ult(a, b); }
        if self.nonneg(a) { if let Some(y) = self.cval(b) { if sx(y, w) <= 0 { return self.c(0, 1); } } }
        if self.nonneg(b) { if let Some(x) = self.cval(a) { if sx(x, w) < 0 { return self.c(1, 1); } } }
        if self.cval(b) == Some(0) { return self.extract(a, w - 1, 1); }
        if let Some(r) = self.push_ite(a, b, Ex::slt) { return r; }
        self.mk(K::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(1, 1); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.c((sx(x, w) <= sx(y, w)) as u128, 1); }
        if self.nonneg(a) && self.nonneg(b) { return self.ule(a, b); }
        if self.cval(a) == Some(0) { let s = self.extract(b, w - 1, 1); return self.not(s); }
        if let Some(r) = self.push_ite(a, b, Ex::sle) { return r; }
        self.mk(K::Sle(a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        match self.k(c) {
            K::Const(1) => return a,
            K::Const(_) => return b,
            K::Not(x) => return self.ite(x, b, a),
            _ => {}
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(_), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(_)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        if self.cval(a) == Some(1) && self.cval(b) == Some(0) { return self.zext(c, w); }
        if let K::Ite(d, x, _) = self.k(a) { if d == c { return self.ite(c, x, b); } }
        if let K::Ite(d, _, y) = self.k(b) { if d == c { return self.ite(c, a, y); } }
        self.mk(K::Ite(c, a, b), w)
    }
    /// Truth table of a width-1 expression whose only variable is v.
    pub fn truth_table(&self, e: E, v: u32) -> [u64; 4] {
        let mut order: Vec<E> = vec![];
        let mut idx: HashMap<E, usize> = HashMap::new();
        fn walk(x: &Ex, e: E, order: &mut Vec<E>, idx: &mut HashMap<E, usize>) {
            if idx.contains_key(&e) { return; }
            for c in x.kids(e) { walk(x, c, order, idx); }
            idx.insert(e, order.len());
            order.push(e);
        }
        walk(self, e, &mut order, &mut idx);
        let kid: Vec<[usize; 3]> = order.iter().map(|&o| { let mut k = [0; 3]; for (i, c) in self.kids(o).into_iter().enumerate() { k[i] = idx[&c]; } k }).collect();
        let mut vals = vec![0u128; order.len()];
        let mut t = [0u64; 4];
        for x in 0..256usize {
            for (i, &o) in order.iter().enumerate() {
                let k = kid[i];
                vals[i] = match self.k(o) { K::Var(j) => { debug_assert_eq!(j, v); x as u128 } _ => self.op(o, vals[k[0]], vals[k[1]], vals[k[2]]) };
            }
            if vals[order.len() - 1] == 1 { t[x / 64] |= 1 << (x % 64); }
        }
        t
    }
    fn kids(&self, e: E) -> Vec<E> {
        match self.k(e) {
            K::Var(_) | K::Const(_) => vec![],
            K::Not(a) | K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => vec![a],
            K::And(a, b) | K::Or(a, b) | K::Xor(a, b) | K::Add(a, b) | K::Sub(a, b) | K::Mul(a, b)
            | K::UDiv(a, b) | K::URem(a, b) | K::SDiv(a, b) | K::SRem(a, b) | K::Shl(a, b)
            | K::LShr(a, b) | K::AShr(a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Ule(a, b)
            | K::Slt(a, b) | K::Sle(a, b) | K::Concat(a, b) => vec![a, b],
            K::Ite(a, b, c) => vec![a, b, c],
        }
    }
    /// value of one operator node given its operands' values
    fn op(&self, e: E, p: u128, q: u128, r: u128) -> u128 {
        let n = &self.nodes[e as usize];
        let w = n.w;
        (match n.k {
            K::Var(_) => unreachable!(),
            K::Const(c) => c,
            K::Not(_) => !p,
            K::And(..) => p & q,
            K::Or(..) => p | q,
            K::Xor(..) => p ^ q,
            K::Add(..) => p.wrapping_add(q),
            K::Sub(..) => p.wrapping_sub(q),
            K::Mul(..) => p.wrapping_mul(q),
            K::UDiv(..) => if q == 0 { mask(w) } else { p / q },
            K::URem(..) => if q == 0 { p } else { p % q },
            K::SDiv(..) => { let (x, y) = (sx(p, w), sx(q, w)); if y == 0 { if x >= 0 { mask(w) } else { 1 } } else { x.wrapping_div(y) as u128 } }
            K::SRem(..) => { let (x, y) = (sx(p, w), sx(q, w)); if y == 0 { x as u128 } else { x.wrapping_rem(y) as u128 } }
            K::Shl(..) => if q >= w as u128 { 0 } else { p << q },
            K::LShr(..) => if q >= w as u128 { 0 } else { p >> q },
            K::AShr(..) => (sx(p, w) >> q.min(w as u128 - 1)) as u128,
            K::Eq(..) => (p == q) as u128,
            K::Ult(..) => (p < q) as u128,
            K::Ule(..) => (p <= q) as u128,
            K::Slt(a, _) => { let aw = self.w(a); (sx(p, aw) < sx(q, aw)) as u128 }
            K::Sle(a, _) => { let aw = self.w(a); (sx(p, aw) <= sx(q, aw)) as u128 }
            K::Ite(..) => if p == 1 { q } else { r },
            K::Concat(_, l) => p << self.w(l) | q,
            K::Extract(_, lo) => p >> lo,
            K::ZExt(_) => p,
            K::SExt(a) => sx(p, self.w(a)) as u128,
        }) & mask(w)
    }
    /// Evaluate under an assignment of the byte variables.
    pub fn eval(&self, e: E, m: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
        if let Some(&v) = memo.get(&e) { return v; }
        let v = match self.k(e) {
            K::Var(i) => *m.get(i as usize).unwrap_or(&0) as u128,
            K::Const(c) => c,
            K::Ite(c, a, b) => if self.eval(c, m, memo) == 1 { self.eval(a, m, memo) } else { self.eval(b, m, memo) },
            _ => {
                let k = self.kids(e);
                let p = self.eval(k[0], m, memo);
                let q = if k.len() > 1 { self.eval(k[1], m, memo) } else { 0 };
                self.op(e, p, q, 0)
            }
        };
        memo.insert(e, v);
        v
    }
}
