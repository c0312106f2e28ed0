//! Shared machinery for the Patricia-trie harnesses: reference definitions (RLP, hex-prefix encoding and
//! the Merkle-Patricia root, written from their specification), a trie with a map model, the scenarios.
use super::sym::*;
#[allow(deprecated)]
pub use pmt::{Database, InnerTrie, MemoryDB, Trie, TrieError, H256};
pub use std::sync::Arc;

pub type Tr = InnerTrie<MemoryDB>;
pub type B = Vec<u8>;

// ---------------------------------------------------------------- reference definitions
pub fn kec(d: &[u8]) -> [u8; 32] {
    use tiny_keccak::{Hasher, Keccak};
    let mut h = Keccak::v256();
    let mut o = [0u8; 32];
    h.update(d);
    h.finalize(&mut o);
    o
}
pub fn rlp_len(base: u8, n: usize) -> B {
    if n < 56 { return vec![base + n as u8]; }
    let mut be: B = vec![];
    let mut x = n;
    while x > 0 { be.insert(0, (x & 255) as u8); x >>= 8; }
    let mut o = vec![base + 55 + be.len() as u8];
    o.extend(be);
    o
}
pub fn rlp_str(d: &[u8]) -> B {
    if d.len() == 1 && d[0] < 0x80 { return d.to_vec(); }
    let mut o = rlp_len(0x80, d.len());
    o.extend_from_slice(d);
    o
}
pub fn rlp_list(items: &[B]) -> B {
    let n = items.iter().map(|x| x.len()).sum();
    let mut o = rlp_len(0xc0, n);
    for i in items { o.extend_from_slice(i); }
    o
}
fn hp(nib: &[u8], leaf: bool) -> B {
    let mut o = vec![];
    let f = if leaf { 0x20 } else { 0 };
    let rest = if nib.len() % 2 == 1 { o.push(f | 0x10 | nib[0]); &nib[1..] } else { o.push(f); nib };
    for c in rest.chunks(2) { o.push(c[0] << 4 | c[1]); }
    o
}
pub fn nibs(k: &[u8]) -> B { k.iter().flat_map(|b| [b >> 4, b & 15]).collect() }
fn refer(enc: B) -> B { if enc.len() < 32 { enc } else { rlp_str(&kec(&enc)) } }
/// encoding of the node for `kvs` (distinct keys as nibbles), from nibble `d` down
fn ref_node(kvs: &[(B, B)], d: usize) -> B {
    if kvs.is_empty() { return vec![0x80]; }
    if kvs.len() == 1 { return rlp_list(&[rlp_str(&hp(&kvs[0].0[d..], true)), rlp_str(&kvs[0].1)]); }
    let mut c = d;
    loop {
        if kvs.iter().any(|e| e.0.len() == c) { break; }
        let x = kvs[0].0[c];
        if kvs.iter().any(|e| e.0[c] != x) { break; }
        c += 1;
    }
    if c > d { return rlp_list(&[rlp_str(&hp(&kvs[0].0[d..c], false)), refer(ref_node(kvs, c))]); }
    let mut items: Vec<B> = vec![];
    for n in 0..16u8 {
        let sub: Vec<(B, B)> = kvs.iter().filter(|e| e.0.len() > d && e.0[d] == n).cloned().collect();
        items.push(if sub.is_empty() { vec![0x80] } else { refer(ref_node(&sub, d + 1)) });
    }
    items.push(kvs.iter().find(|e| e.0.len() == d).map(|e| rlp_str(&e.1)).unwrap_or(vec![0x80]));
    rlp_list(&items)
}
pub fn ref_root(m: &[(B, B)]) -> [u8; 32] {
    let k: Vec<(B, B)> = m.iter().map(|e| (nibs(&e.0), e.1.clone())).collect();
    kec(&ref_node(&k, 0))
}

// ---------------------------------------------------------------- world
pub struct PW {
    pub db: Arc<MemoryDB>,
    pub light: bool,
    pub t: Tr,
    pub m: Vec<(B, B)>,
    pub pool: Vec<B>,
    /// committed roots with their contents
    pub roots: Vec<(H256, Vec<(B, B)>)>,
    n: usize,
}
pub fn look<'a>(m: &'a [(B, B)], k: &[u8]) -> Option<&'a B> { m.iter().find(|e| e.0 == k).map(|e| &e.1) }
/// a value no other write of the same history produces
pub fn uniq(len: usize, n: usize) -> B {
    let mut v = vec![0xc3u8; len.max(1)];
    v[0] = if n % 2 == 0 { 1 + (n & 0x7e) as u8 } else { 0x80 + (n & 0x7f) as u8 };
    if len > 1 { v[1] ^= (n >> 7) as u8; }
    v
}
pub const LENS: [usize; 8] = [1, 40, 2, 32, 60, 1, 33, 300];
impl PW {
    pub fn new(light: bool, pool: Vec<B>) -> PW {
        let db = Arc::new(MemoryDB::new(light));
        PW { t: InnerTrie::new(db.clone()), db, light, m: vec![], pool, roots: vec![], n: 0 }
    }
    pub fn put(&mut self, i: usize, len: usize) {
        let v = uniq(len, self.n);
        self.n += 1;
        self.put_val(i, v)
    }
    pub fn put_val(&mut self, i: usize, v: B) {
        let k = self.pool[i].clone();
        self.t.insert(&k, &v).must("insert failed on a complete store");
        match self.m.iter_mut().find(|e| e.0 == k) { Some(e) => e.1 = v, None => self.m.push((k, v)) }
    }
    pub fn del(&mut self, i: usize) {
        let k = self.pool[i].clone();
        let had = look(&self.m, &k).is_some();
        let r = self.t.remove(&k).must("remove failed on a complete store");
        check(r == had, "remove misreports whether the key was present");
        self.m.retain(|e| e.0 != k);
    }
    pub fn commit(&mut self) {
        let r = self.t.commit().must("commit failed on a complete store");
        self.roots.push((r, self.m.clone()));
    }
    /// continue from the last committed root over the same store
    pub fn reopen(&mut self) {
        if let Some((r, m)) = self.roots.last() {
            self.t = InnerTrie::new(self.db.clone()).at_root(*r);
            self.m = m.clone();
        }
    }
    /// o: 0..k put, k..2k remove, then commit, reopen
    pub fn op(&mut self, o: usize, len: usize) {
        let k = self.pool.len();
        if o < k { self.put(o, len) } else if o < 2 * k { self.del(o - k) } else if o == 2 * k { self.commit() } else { self.commit(); self.reopen() }
    }
    pub fn any_op(&mut self, len: usize) {
        let o = pick(0, 2 * self.pool.len() as u8 + 1);
        self.op(o as usize, len)
    }
}

// ---------------------------------------------------------------- scenarios
/// keys that are prefixes of one another (including the empty key); any subset, committed or not, then operations
pub fn s_prefix(nops: usize) -> PW {
    let mut w = PW::new(pick(0, 1) == 1, vec![vec![], vec![0x61], vec![0x61, 0x62], vec![0x61, 0x6c], vec![0x71]]);
    let l = if pick(0, 1) == 1 { 40 } else { 2 };
    for i in 0..5 { if pick(0, 1) == 1 { w.put(i, l); } }
    match pick(0, 2) { 1 => w.commit(), 2 => { w.commit(); w.reopen() } _ => {} }
    for _ in 0..nops { w.any_op(l); }
    w
}
/// three keys of symbolic content (one or two bytes, one fixed prefix key), operations in between
pub fn s_sym(nops: usize) -> PW {
    let k = |n: usize| -> B { (0..n).map(|_| { let b = range(0, 15); (b & 3) | (b >> 2) << 4 }).collect() };
    let lens = [[1usize, 2], [2, 2], [1, 1]][pick(0, 2) as usize];
    let pool = vec![k(lens[0]), k(lens[1]), vec![0x12]];
    assume(pool[0] != pool[1] && pool[0] != pool[2] && pool[1] != pool[2]);
    let mut w = PW::new(true, pool);
    for i in 0..3 { w.put(i, LENS[i]); }
    if pick(0, 1) == 1 { w.commit(); }
    for i in 0..nops { w.any_op(LENS[i + 3]); }
    w
}
/// long shared prefixes and values of every encoding class, a commit after (almost) every operation
pub fn s_long(nops: usize) -> PW {
    let mut base = vec![0x33u8; 20];
    let mut pool = vec![base.clone()];
    base[19] = 0x34; pool.push(base.clone());
    base[10] = 0x03; pool.push(base.clone());
    base.truncate(9); pool.push(base);
    let mut w = PW::new(pick(0, 1) == 1, pool);
    let l = pick(0, 7) as usize;
    for i in 0..4 { w.put(i, LENS[(l + i) % 8]); }
    w.commit();
    if pick(0, 1) == 1 { w.reopen(); }
    for j in 0..nops {
        let o = pick(0, 7);
        w.op(o as usize, LENS[(l + j + 4) % 8]);
        match pick(0, 2) { 1 => w.commit(), 2 => { w.commit(); w.reopen() } _ => {} }
    }
    w
}
/// a wide branch: sixteen one-byte keys in symbolic groups plus their common prefix
pub fn s_wide(nops: usize) -> PW {
    let mut pool: Vec<B> = (0..16u8).map(|i| vec![0x40 | i]).collect();
    pool.push(vec![]);
    let mut w = PW::new(true, pool);
    for g in 0..4 {
        let m = [0u8, 1, 8, 6, 15][pick(0, if g == 0 { 4 } else { 2 }) as usize];
        for j in 0..4 { if m >> j & 1 == 1 { w.put(g * 4 + j, if j % 2 == 0 { 2 } else { 40 }); } }
    }
    if pick(0, 1) == 1 { w.put(16, 2); }
    if pick(0, 1) == 1 { w.commit(); w.reopen(); }
    for _ in 0..nops { let o = [0usize, 3, 5, 7, 12, 16][pick(0, 5) as usize]; if pick(0, 1) == 1 { w.put(o, 33) } else { w.del(o) } }
    w
}
/// two fully symbolic key bytes
pub fn s_full() -> PW {
    let (a, b) = (byte(), byte());
    assume(a != b);
    let mut w = PW::new(true, vec![vec![0x10, a], vec![0x10, b]]);
    let l = if pick(0, 1) == 1 { 40 } else { 1 };
    w.put(0, l);
    w.put(1, l);
    if pick(0, 1) == 1 { w.commit(); }
    let o = pick(0, 4);
    if o < 4 { w.op(o as usize, l); }
    w
}
/// keys of up to 130 bytes (paths of every encoding class) that part at any of several nibbles from a common one,
/// the prefix of it at that place, and one parting a nibble or two further on; then operations
pub fn s_spine(nops: usize) -> PW {
    let l = [2usize, 32, 57, 130][pick(0, 3) as usize];
    let base: B = (0..l).map(|i| (i * 7 + 1) as u8).collect();
    let top = 2 * l - 1;
    let p = [0, 1, l - 1, l, top - 2, top - 1][pick(0, 5) as usize];
    let q = (p + pick(0, 2) as usize).min(top);
    let part = |n: usize, x: u8| -> B { let mut k = base.clone(); k[n / 2] ^= if n % 2 == 0 { x << 4 } else { x }; k };
    let mut pool = vec![base.clone(), part(p, 3)];
    if q != p { pool.push(part(q, 5)) }
    match pick(0, 2) { 0 => pool.push(base[..(p + 1) / 2].to_vec()), 1 => pool.push(base[..p / 2 + 1].to_vec()), _ => { let mut k = base.clone(); k.push(0x21); pool.push(k) } }
    pool.dedup();
    if pool.last().unwrap() == &base { pool.pop(); }
    let mut w = PW::new(pick(0, 1) == 1, pool);
    let v = pick(0, 3) as usize * 2;
    let n = w.pool.len() - pick(0, 1) as usize;
    for i in 0..n { w.put(i, LENS[(v + i) % 8]); }
    match pick(0, 2) { 1 => w.commit(), 2 => { w.commit(); w.reopen() } _ => {} }
    for j in 0..nops { w.any_op(LENS[(v + j + 5) % 8]); }
    w
}
/// a branch with (nearly) all sixteen children stored under their hashes and (or not) a value: the largest node there
/// is; below a common prefix or at the root
pub fn s_dense(nops: usize) -> PW {
    let pre: B = [vec![], vec![0x51]][pick(0, 1) as usize].clone();
    let mut pool: Vec<B> = (0..16u8).map(|i| { let mut k = pre.clone(); k.push(i << 4 | 7); k }).collect();
    pool.push(pre);
    let mut w = PW::new(pick(0, 1) == 1, pool);
    let gap = pick(0, 3) as usize;
    for i in 0..16 { if gap == 0 || i != [0, 0, 7, 15][gap] { w.put(i, 40); } }
    match pick(0, 2) { 1 => w.put(16, 2), 2 => w.put(16, 100), _ => {} }
    match pick(0, 2) { 1 => w.commit(), 2 => { w.commit(); w.reopen() } _ => {} }
    for _ in 0..nops { let o = [0usize, 7, 14, 15, 16][pick(0, 4) as usize]; if pick(0, 1) == 1 { w.put(o, 33) } else { w.del(o) } }
    w
}
/// keys that extend one another, up to fourteen levels deep, with or without a sibling on the way; then operations
pub fn s_chain(nops: usize) -> PW {
    let n = [14usize, 9, 4][pick(0, 2) as usize];
    let step = pick(0, 1) as usize + 1;
    let full: B = (0..n * step).map(|i| (i * 37 + 5) as u8).collect();
    let mut pool: Vec<B> = (0..=n).map(|i| full[..i * step].to_vec()).collect();
    let i = pick(0, 3) as usize;
    if i > 0 { let mut k = full[..n * step * i / 3].to_vec(); let l = k.len() - 1; k[l] ^= if pick(0, 1) == 1 { 1 } else { 0x10 }; pool.push(k); }
    let l = [1usize, 40][pick(0, 1) as usize];
    let top = pool.len();
    let mut w = PW::new(true, pool);
    for j in 0..top { w.put(j, l); }
    match pick(0, 2) { 1 => w.commit(), 2 => { w.commit(); w.reopen() } _ => {} }
    for _ in 0..nops { let o = [0, 1, n / 2, n - 1, n, top - 1][pick(0, 5) as usize]; if pick(0, 1) == 1 { w.put(o, 33) } else { w.del(o) } }
    w
}
/// some sixty keys of up to four bytes written, overwritten and removed over several commits, then operations on keys
/// of every kind
pub fn s_many(nops: usize) -> PW {
    let mut pool: Vec<B> = vec![vec![]];
    let mut x = 0x2545_F491u32;
    while pool.len() < 60 {
        x ^= x << 13; x ^= x >> 17; x ^= x << 5;
        let n = [1usize, 2, 2, 3, 3, 4][(x >> 3) as usize % 6];
        let mut k: B = (0..n).map(|i| { let b = (x >> (4 * i + 5)) as u8; if i == 0 { b & 0x33 } else { b & 0x71 } }).collect();
        // every fourth key extends or parts late from an earlier one
        if pool.len() % 4 == 3 { let b = pool[(x >> 20) as usize % pool.len()].clone(); k = b; if x & 1 == 1 || k.is_empty() { k.push((x >> 9) as u8); } else { let l = k.len() - 1; k[l] ^= 1 << (x >> 9 & 7); } }
        if !pool.contains(&k) { pool.push(k); }
    }
    let mut w = PW::new(pick(0, 1) == 1, pool);
    for r in 0..6 {
        for i in 0..60 {
            x ^= x << 13; x ^= x >> 17; x ^= x << 5;
            if i % 6 == r || x >> 28 == 1 { w.put(i, LENS[(x >> 20) as usize % 8]); } else if x >> 29 == 3 { w.del(i); }
        }
        if r % 3 != 2 || pick(0, 1) == 1 { w.commit(); }
        if r == 3 && pick(0, 1) == 1 { w.reopen(); }
    }
    for _ in 0..nops { let o = pick(0, 59) as usize; if pick(0, 1) == 1 { w.put(o, 33) } else { w.del(o) } }
    w
}
/// 150 keys (up to 300 bytes), values up to 70 000 bytes, two commits, then one symbolic operation
pub fn s_crowd() -> PW {
    let mut pool: Vec<B> = vec![vec![], vec![0x31; 300], { let mut k = vec![0x31; 300]; k[270] = 0x32; k }, vec![0x31; 256]];
    let mut x = 0x0BAD_5EEDu32;
    for i in 4..150usize {
        x ^= x << 13; x ^= x >> 17; x ^= x << 5;
        let mut k = vec![(x >> 3) as u8 & 0x7f, i as u8, (x >> 11) as u8, (i >> 8) as u8];
        k.truncate([4usize, 4, 3, 4][i % 4]);
        if !pool.contains(&k) { pool.push(k); }
    }
    let n = pool.len();
    let mut w = PW::new(pick(0, 1) == 1, pool);
    for i in 0..n { if i % 9 != 4 { w.put(i, [1usize, 32, 40, 33, 4096, 65_535, 65_536, 70_001][if i % 50 < 8 { i % 50 } else { i % 4 }]); } }
    w.commit();
    if pick(0, 1) == 1 { w.reopen(); }
    for i in 0..n { if i % 9 == 4 { w.put(i, 35); } else if i % 5 == 2 { w.del(i); } else if i % 7 == 1 { w.put(i, 36); } }
    if pick(0, 1) == 1 { w.commit(); }
    let i = [1usize, 5, 6, 100][pick(0, 3) as usize];
    if pick(0, 1) == 1 { w.put(i, 65_540) } else { w.del(i) }
    w
}
/// symbolic values at the encoding boundaries
pub fn s_value() -> PW {
    let mut w = PW::new(true, vec![vec![0x10], vec![0x11], vec![0x10, 0x22]]);
    let n = [1usize, 2, 26, 27, 28, 29, 55, 56][pick(0, 7) as usize];
    let mut v = vec![0x5au8; n];
    v[0] = byte();
    w.put_val(0, v.clone());
    w.put(1, 1);
    if pick(0, 1) == 1 { w.put_val(2, { let mut x = v; x[0] = byte(); x }); }
    if pick(0, 1) == 1 { w.commit(); w.reopen(); }
    if pick(0, 1) == 1 { w.del(1); }
    w
}
/// the keys worth asking for: the pool, neighbours, prefixes and extensions of its members
pub fn probes(w: &PW) -> Vec<B> {
    let mut out = w.pool.clone();
    out.push(vec![]);
    for k in &w.pool {
        let mut e = k.clone(); e.push(0x62); out.push(e);
        if let Some(l) = k.last() {
            let mut a = k.clone(); *a.last_mut().unwrap() = l ^ 0x01; out.push(a);
            let mut a = k.clone(); *a.last_mut().unwrap() = l ^ 0x10; out.push(a);
            out.push(k[..k.len() - 1].to_vec());
        }
    }
    out
}
