//! Shared machinery for the JMT harnesses: reference definitions (written from the
//! documentation, not from the code), a versioned world with a map model, and the update scenarios.
use super::sym::*;
pub use jmt::mock::MockTreeStore;
pub use jmt::storage::*;
pub use jmt::db::VersionedDatabase;
pub use jmt::trie::VersionedTrie;
pub use jmt::{JellyfishMerkleIterator, KeyHash, RootHash, Sha256Jmt};
pub use std::collections::{BTreeMap, BTreeSet};
pub use std::sync::Arc;
use sha2::{Digest, Sha256};

pub type S = MockTreeStore;
pub type T = Sha256Jmt<S>;
pub type KV = (KeyHash, Vec<u8>);
pub type Set = Vec<(KeyHash, Option<Vec<u8>>)>;
pub const PLACEHOLDER: [u8; 32] = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

// ---------------------------------------------------------------- reference definitions
pub fn sha(d: &[u8]) -> [u8; 32] { let mut h = Sha256::new(); h.update(d); h.finalize().into() }
pub fn leaf_hash(k: &KeyHash, v: &[u8]) -> [u8; 32] {
    let mut m = b"JMT::LeafNode".to_vec();
    m.extend_from_slice(&k.0);
    m.extend_from_slice(&sha(v));
    sha(&m)
}
pub fn inner_hash(l: [u8; 32], r: [u8; 32]) -> [u8; 32] {
    let mut m = b"JMT::IntrnalNode".to_vec();
    m.extend_from_slice(&l);
    m.extend_from_slice(&r);
    sha(&m)
}
pub fn bit(k: &KeyHash, d: usize) -> bool { k.0[d / 8] >> (7 - d % 8) & 1 == 1 }
/// root of the sparse Merkle tree over `kvs` (sorted by key), from bit `d` down
pub fn ref_sub(kvs: &[KV], d: usize) -> [u8; 32] {
    if kvs.is_empty() { return PLACEHOLDER; }
    if kvs.len() == 1 { return leaf_hash(&kvs[0].0, &kvs[0].1); }
    let mut s = 0;
    while s < kvs.len() && !bit(&kvs[s].0, d) { s += 1; }
    inner_hash(ref_sub(&kvs[..s], d + 1), ref_sub(&kvs[s..], d + 1))
}
pub fn ref_root(kvs: &[KV]) -> RootHash { RootHash(ref_sub(kvs, 0)) }

// ---------------------------------------------------------------- keys
/// a nibble out of {0,1,8,9}: first and last bit free, so any first-difference bit class occurs
pub fn nib(b: u8) -> u8 { (b & 1) | ((b & 2) << 2) }
/// a key byte with both nibbles out of {0,1,8,9}
pub fn kbyte() -> u8 { let b = range(0, 15); nib(b & 3) | (nib(b >> 2) << 4) }
/// a key byte whose high nibble is out of {0,1,8,9}
pub fn kbyte_hi() -> u8 { nib(range(0, 3)) << 4 }
pub fn key_at(pos: usize, b: u8, fill: u8) -> KeyHash { let mut k = [fill; 32]; k[pos] = b; KeyHash(k) }
pub fn val(ver: u64, i: usize) -> Vec<u8> {
    // lengths 0, 1, 31, 32, 33, 64, ... so that no length is special
    let n = [2usize, 0, 33, 32, 31, 64, 1, 130][(ver as usize * 3 + i) % 8];
    let mut v = vec![0x40u8.wrapping_add(i as u8); n];
    if n > 0 { v[0] = ver as u8; }
    v
}

// ---------------------------------------------------------------- world
pub struct W {
    pub db: Arc<S>,
    pub tree: T,
    pub v0: u64,
    pub pool: Vec<KeyHash>,
    pub roots: Vec<RootHash>,
    pub model: Vec<Vec<KV>>,
    pub batches: Vec<TreeUpdateBatch>,
    pub migration: bool,
    /// some stored nodes carry no leaf count
    pub legacy: bool,
}
pub fn lookup<'a>(m: &'a [KV], k: &KeyHash) -> Option<&'a Vec<u8>> { m.iter().find(|e| e.0 == *k).map(|e| &e.1) }
pub fn model_apply(m: &mut Vec<KV>, set: &Set) {
    for (k, v) in set {
        let mut i = 0;
        while i < m.len() && m[i].0 < *k { i += 1; }
        let here = i < m.len() && m[i].0 == *k;
        match (v, here) {
            (Some(v), true) => m[i].1 = v.clone(),
            (Some(v), false) => m.insert(i, (*k, v.clone())),
            (None, true) => { m.remove(i); }
            (None, false) => {}
        }
    }
}
impl W {
    pub fn new(v0: u64) -> W {
        let db = Arc::new(S::default());
        W { tree: Sha256Jmt::new(db.clone()), db, v0, pool: vec![], roots: vec![], model: vec![], batches: vec![], migration: true, legacy: false }
    }
    pub fn next(&self) -> u64 { self.v0 + self.roots.len() as u64 }
    pub fn last(&self) -> u64 { self.next() - 1 }
    pub fn versions(&self) -> usize { self.roots.len() }
    pub fn cur(&self) -> Vec<KV> { self.model.last().cloned().unwrap_or_default() }
    fn fresh(&self, b: &TreeUpdateBatch) {
        for k in b.node_batch.nodes().keys() { check(self.db.get_node_option(k).must("store read failed").is_none(), "update overwrites a stored node"); }
    }
    pub fn apply(&mut self, set: Set) {
        let mut m = self.cur();
        model_apply(&mut m, &set);
        let v = self.next();
        let (root, batch) = self.tree.put_value_set(set, v).must("update failed on a complete store");
        self.fresh(&batch);
        self.db.update_batch(batch.clone()).must("store rejected the update batch");
        self.batches.push(batch);
        self.roots.push(root);
        self.model.push(m);
    }
    /// replace the store by one whose inner nodes were written before leaf counts were kept
    pub fn make_legacy(&mut self) {
        if !layout() { return; }
        let db = S::default();
        let mut nb = NodeBatch::default();
        for b in &self.batches {
            for (k, n) in b.node_batch.nodes() {
                let n = match n {
                    Node::Internal(i) => {
                        let (mut o, mut kids, mut known) = (vec![1u8], 0u64, true);
                        for x in 0..16u8 {
                            match i.child(x.into()) {
                                None => o.push(0),
                                Some(c) => {
                                    o.push(1);
                                    o.extend_from_slice(&c.hash);
                                    o.extend_from_slice(&c.version.to_le_bytes());
                                    o.push(!c.is_leaf() as u8);
                                    kids += 1;
                                    known &= c.is_leaf();
                                }
                            }
                        }
                        o.extend_from_slice(&kids.to_le_bytes());
                        if known { o.push(1); o.extend_from_slice(&kids.to_le_bytes()); } else { o.push(0); }
                        o.push(self.migration as u8);
                        borsh::BorshDeserialize::try_from_slice(&o).must("an inner node does not decode")
                    }
                    n => n.clone(),
                };
                nb.insert_node(k.clone(), n);
            }
            nb.extend([], b.node_batch.values().iter().map(|(k, v)| (*k, v.clone())));
        }
        db.write_node_batch(&nb).must("store rejected a batch");
        self.db = Arc::new(db);
        self.tree = T::new_migration(self.db.clone(), self.migration);
        self.legacy = true;
    }
    /// insert-only versions through the batch entry point
    pub fn apply_batch(&mut self, sets: Vec<Vec<KV>>) {
        let mut m = self.cur();
        let v = self.next();
        let n = sets.len();
        for s in &sets {
            model_apply(&mut m, &s.iter().map(|(k, x)| (*k, Some(x.clone()))).collect());
            self.model.push(m.clone());
        }
        let (roots, batch) = self.tree.batch_put_value_sets(sets, None, v).must("batch update failed on a complete store");
        check(roots.len() == n, "batch update returned the wrong number of roots");
        self.fresh(&batch);
        self.db.update_batch(batch.clone()).must("store rejected the update batch");
        self.batches.push(batch);
        self.roots.extend(roots);
    }
    pub fn apply_many(&mut self, sets: Vec<Set>) {
        let mut m = self.cur();
        let v = self.next();
        let n = sets.len();
        for s in &sets { model_apply(&mut m, s); self.model.push(m.clone()); }
        let (roots, batch) = self.tree.put_value_sets(sets, v).must("bulk update failed on a complete store");
        check(roots.len() == n, "bulk update returned the wrong number of roots");
        self.fresh(&batch);
        self.db.update_batch(batch.clone()).must("store rejected the update batch");
        self.batches.push(batch);
        self.roots.extend(roots);
    }
}

// ---------------------------------------------------------------- scenarios
/// called after each published version
pub type Hook<'a> = &'a mut dyn FnMut(&W);

fn op(k: KeyHash, o: u8, v: Vec<u8>) -> Option<(KeyHash, Option<Vec<u8>>)> {
    match o { 0 => None, 1 => Some((k, Some(v))), _ => Some((k, None)) }
}
/// n distinct keys, symbolic in one byte (position `pos`, the rest `fill`), increasing
pub fn sorted_keys(n: usize, pos: usize, fill: u8, both: bool) -> Vec<KeyHash> {
    let mut b: Vec<u8> = vec![];
    for i in 0..n {
        let x = if both { kbyte() } else { kbyte_hi() };
        if i > 0 { assume(b[i - 1] < x); }
        b.push(x);
    }
    b.into_iter().map(|x| key_at(pos, x, fill)).collect()
}
/// A: three symbolic keys near the root, two versions, any subset inserted, then any
/// combination of overwrite / delete / leave alone, in both orders
pub fn scen_flat(hook: Hook) -> W {
    let mut w = W::new(0);
    w.pool = sorted_keys(3, 0, 0x11, true);
    let mut s: Set = vec![];
    for i in 0..3 { if pick(0, 1) == 1 { s.push((w.pool[i], Some(val(0, i)))); } }
    w.apply(s);
    hook(&w);
    let mut s: Set = vec![];
    for i in 0..3 { s.extend(op(w.pool[i], pick(0, 2), val(1, i))); }
    if s.len() > 1 && pick(0, 1) == 1 { s.reverse(); }
    w.apply(s);
    hook(&w);
    w
}
/// B: keys that share a long prefix: first difference at a symbolic byte position, plus a key elsewhere
pub fn scen_deep(hook: Hook) -> W {
    let mut w = W::new(0);
    let pos = [1usize, 2, 16, 31][pick(0, 3) as usize];
    let mut ks = sorted_keys(2, pos, 0x77, true);
    ks.push(key_at(pos - 1, 0x78, 0x77));
    w.pool = ks;
    let order = pick(0, 1) == 1;
    let mut s: Set = vec![(w.pool[0], Some(val(0, 0))), (w.pool[1], Some(val(0, 1)))];
    if order { s.reverse(); }
    w.apply(s);
    hook(&w);
    let mut s: Set = vec![];
    s.extend(op(w.pool[0], pick(0, 2), val(1, 0)));
    s.extend(op(w.pool[1], pick(1, 2), val(1, 1)));
    s.extend(op(w.pool[2], pick(0, 1), val(1, 2)));
    w.apply(s);
    hook(&w);
    let o = pick(0, 5);
    w.apply(op(w.pool[(o % 3) as usize], 1 + o / 3, val(2, 0)).into_iter().collect());
    hook(&w);
    w
}
/// C: a wide node: the sixteen children of the root in four symbolic groups, then one symbolic key changes
pub fn scen_wide(hook: Hook) -> W {
    let mut w = W::new(0);
    w.pool = (0..16u8).map(|i| key_at(0, i << 4 | (i ^ 5), 0x30)).collect();
    let mut s: Set = vec![];
    for g in 0..4 {
        // each group of four nibbles: which of them are present
        let m = [0b0000u8, 0b0001, 0b1000, 0b0110, 0b1111][pick(0, if g % 2 == 0 { 4 } else { 3 }) as usize];
        for j in 0..4 { if m >> j & 1 == 1 { s.push((w.pool[g * 4 + j], Some(val(0, g * 4 + j)))); } }
    }
    w.apply(s);
    hook(&w);
    let k = pick(0, 15);
    let o = pick(1, 2);
    w.apply(op(w.pool[k as usize], o, val(1, 3)).into_iter().collect());
    hook(&w);
    w
}
/// D: a longer history over three fixed keys (two of them siblings deep down): each version one
/// symbolic operation (or none), starting at a symbolic version number
pub fn scen_history(n: usize, hook: Hook) -> W {
    let mut w = W::new([0u64, 255, 0xffff_ffff][pick(0, 2) as usize]);
    w.pool = vec![KeyHash([0x12; 32]), key_at(1, 0x19, 0x12), key_at(0, 0x90, 0x12)];
    let full: Set = vec![(w.pool[0], Some(val(0, 0))), (w.pool[1], Some(val(0, 1)))];
    w.apply(full);
    hook(&w);
    for _ in 1..n {
        let o = pick(0, 6);
        let v = w.next();
        w.apply(if o == 6 { vec![] } else { op(w.pool[(o % 3) as usize], 1 + o / 3, val(v & 7, o as usize)).into_iter().collect() });
        hook(&w);
    }
    w
}
/// E: several operations on the same few keys inside one version (insert, overwrite, delete, re-insert)
pub fn scen_churn(hook: Hook) -> W {
    let mut w = W::new(0);
    w.pool = sorted_keys(2, 0, 0x44, false);
    w.pool.push(key_at(1, 0x45, 0x44));
    let mut s: Set = vec![];
    if pick(0, 1) == 1 { s.push((w.pool[0], Some(val(0, 0)))); }
    s.push((w.pool[2], Some(val(0, 2))));
    w.apply(s);
    hook(&w);
    let mut s: Set = vec![];
    for j in 0..3 {
        let o = pick(0, 5);
        s.extend(op(w.pool[(o % 3) as usize], 1 + o / 3, val(1, j)));
    }
    w.apply(s);
    hook(&w);
    w
}
/// F: bulk application of several versions at once on top of an existing one
pub fn scen_bulk(hook: Hook) -> W {
    let mut w = W::new([0u64, 65535][pick(0, 1) as usize]);
    w.pool = sorted_keys(2, 0, 0x21, false);
    w.pool.push(key_at(1, 0x2f, 0x21));
    let s: Set = w.pool.iter().enumerate().map(|(i, k)| (*k, Some(val(0, i)))).collect();
    w.apply(s);
    let mut sets = vec![];
    // new values, or always the one the key had at first
    let same = pick(0, 1) == 1;
    for v in 0..3 {
        let o = pick(0, 6);
        let x = if same { val(0, o as usize % 3) } else { val(1 + v, o as usize) };
        sets.push(if o == 6 { vec![] } else { op(w.pool[(o % 3) as usize], 1 + o / 3, x).into_iter().collect() });
    }
    w.apply_many(sets);
    hook(&w);
    w
}

/// G: two fully symbolic key bytes
pub fn scen_full(hook: Hook) -> W {
    let mut w = W::new(0);
    let (a, b) = (byte(), byte());
    assume(a < b);
    w.pool = vec![key_at(0, a, 0xa5), key_at(0, b, 0xa5)];
    w.apply(vec![(w.pool[0], Some(val(0, 0))), (w.pool[1], Some(val(0, 1)))]);
    hook(&w);
    let o = pick(0, 3);
    w.apply(op(w.pool[(o % 2) as usize], 1 + o / 2, val(1, 0)).into_iter().collect());
    hook(&w);
    w
}
/// H: a larger tree (40 keys, clustered), written over three versions, then one symbolic operation
pub fn scen_big_keys(n: usize, v0: u64) -> W {
    let mut w = W::new(v0);
    let mut x = 0x2545_F491u32;
    let mut prev = [0u8; 32];
    for i in 0..n {
        let mut k = [0u8; 32];
        for b in k.iter_mut() { x ^= x << 13; x ^= x >> 17; x ^= x << 5; *b = (x >> 9) as u8; }
        // every third key shares a prefix of varying length with the one before it
        if i % 3 == 2 { let c = [1usize, 2, 5, 12, 31][i / 3 % 5]; k[..c].copy_from_slice(&prev[..c]); }
        if i % 6 == 5 { k = prev; k[[0, 3, 15, 31][i / 6 % 4]] ^= [1u8, 0x80, 0x10, 0x08][i / 6 % 4]; }
        prev = k;
        w.pool.push(KeyHash(k));
    }
    w
}
pub fn scen_big(n: usize, hook: Hook) -> W {
    let mut w = scen_big_keys(n, 300);
    for part in 0..3 {
        w.apply((0..n).filter(|i| i % 3 == part).map(|i| (w.pool[i], Some(val(i as u64, i)))).collect());
    }
    hook(&w);
    let k = pick(0, (n - 1) as u8) as usize;
    let o = pick(1, 2);
    w.apply(op(w.pool[k], o, val(5, 1)).into_iter().collect());
    hook(&w);
    w
}
/// n clustered keys in one version
pub fn scen_seeded(n: usize) -> W {
    let mut w = scen_big_keys(n, 0);
    w.apply((0..n).map(|i| (w.pool[i], Some(val(i as u64, i)))).collect());
    w
}
/// I: symbolic keys and a symbolic operation per version
pub fn scen_symhist(n: usize, hook: Hook) -> W {
    let mut w = W::new(7);
    w.pool = sorted_keys(2, 0, 0x21, true);
    w.pool.push(key_at(1, 0x2f, 0x21));
    for _ in 0..n {
        let o = pick(0, 6);
        let v = w.next();
        w.apply(if o == 6 { vec![] } else { op(w.pool[(o % 3) as usize], 1 + o / 3, val(v & 7, o as usize)).into_iter().collect() });
        hook(&w);
    }
    w
}
/// J: every way of writing: the one-set call, several sets in one call, the batch entry point (one or two
/// versions), on trees in migration mode or not; any subset of the keys per version, then one more operation
pub fn scen_routes(hook: Hook) -> W {
    let migration = pick(0, 1) == 1;
    let mut w = W::new(0);
    w.tree = Sha256Jmt::new_migration(w.db.clone(), migration);
    w.migration = migration;
    let pos = [0usize, 2, 31][pick(0, 2) as usize];
    w.pool = sorted_keys(2, pos, 0x33, true);
    w.pool.push(key_at(0, 0x3c, 0x33));
    w.pool.push(key_at(if pos == 0 { 1 } else { pos - 1 }, 0x38, 0x33));
    let kv = |w: &W, m: u8, v: u64| -> Vec<KV> { (0..4).filter(|i| m >> i & 1 == 1).map(|i| (w.pool[i], val(v, i))).collect() };
    // the largest key first where the order is free
    match pick(0, 3) {
        0 => { let s = kv(&w, 0b0111, 0); w.apply(s.into_iter().rev().map(|(k, v)| (k, Some(v))).collect()) }
        1 => { let s = kv(&w, 0b0111, 0); w.apply_batch(vec![s.into_iter().rev().collect()]) }
        2 => { let s = vec![kv(&w, 0b0001, 0), kv(&w, 0b0110, 1)]; w.apply_batch(s) }
        _ => { let s = kv(&w, 0b0001, 0); w.apply_batch(vec![s]) }
    }
    hook(&w);
    let o = pick(0, 12);
    if o < 6 {
        let s = op(w.pool[(o % 3) as usize], 1 + o / 3, val(2, o as usize)).into_iter().collect();
        w.apply(s);
    } else {
        let s = kv(&w, [0b0001u8, 0b0011, 0b0010, 0b1001, 0b1111, 0b1100, 0b1010][o as usize - 6], 2);
        w.apply_batch(vec![s]);
    }
    hook(&w);
    match pick(0, 2) {
        0 => { let s = vec![(w.pool[0], None), (w.pool[3], Some(val(3, 0)))]; w.apply(s) }
        1 => { let s = vec![kv(&w, 0b1000, 3), kv(&w, 0b0101, 4)]; w.apply_batch(s) }
        _ => { let s = vec![vec![(w.pool[1], None)], vec![(w.pool[0], Some(val(3, 1)))]]; w.apply_many(s) }
    }
    hook(&w);
    w
}
/// L: a spine: keys that part from one another at any of the 256 bits; a fourth key near them is absent at first
pub fn scen_spine(hook: Hook) -> W {
    let mut w = W::new(0);
    let flip = |k: &KeyHash, at: usize| { let mut x = k.0; x[at / 8] ^= 0x80 >> (at % 8); KeyHash(x) };
    let a = pick(0, 31) as usize * 8 + pick(0, 7) as usize;
    let off = |d: u8, a: usize| -> usize {
        // 1 to 9 bits further down (1..=9) or up (10..=18)
        if d <= 9 { assume(a + d as usize <= 255); a + d as usize } else { assume(a >= d as usize - 9); a + 9 - d as usize }
    };
    let k0 = KeyHash([[0x5au8; 32], [0x0fu8; 32]][pick(0, 1) as usize]);
    let k1 = flip(&k0, a);
    let b = off(pick(1, 18), a);
    let k2 = flip(if pick(0, 1) == 0 { &k0 } else { &k1 }, b);
    let c = off(pick(1, 18), a);
    let k3 = flip(if pick(0, 1) == 0 { &k0 } else { &k1 }, c);
    assume(k3 != k2);
    w.pool = vec![k0, k1, k2, k3];
    let three = pick(0, 1) == 1;
    w.apply((0..if three { 3 } else { 2 }).rev().map(|i| (w.pool[i], Some(val(0, i)))).collect());
    hook(&w);
    let o = pick(0, 7);
    w.apply(op(w.pool[(o % 4) as usize], 1 + o / 4, val(1, 3)).into_iter().collect());
    hook(&w);
    w
}
/// K: a tree restored from chunks, then updated; the first published version is the restored one
pub fn scen_restored(hook: Hook) -> W {
    use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
    let mut src = W::new(0);
    let pos = [0usize, 1, 31][pick(0, 2) as usize];
    src.pool = sorted_keys(2, pos, 0x55, true);
    src.pool.push(key_at(0, 0x5c, 0x55));
    src.pool.push(key_at(0, 0x09, 0x55));
    let m = [0b0001u8, 0b0011, 0b0111, 0b1111, 0b1010][pick(0, 4) as usize];
    let s = (0..4).filter(|i| m >> i & 1 == 1).map(|i| (src.pool[i], Some(val(0, i)))).collect();
    src.apply(s);
    let all = src.cur();
    let mut w = W::new(9);
    w.pool = src.pool.clone();
    let mut r: JellyfishMerkleRestore<jmt::Sha256> = JellyfishMerkleRestore::new(w.db.clone(), 9, src.roots[0], true).must("restore cannot be opened");
    for c in all.chunks(pick(1, 2) as usize) {
        check(r.add_chunk(c.to_vec(), src.tree.get_range_proof(c[c.len() - 1].0, 0).must("range proof failed")).is_ok(), "honest chunk rejected");
    }
    check(r.finish().is_ok(), "finishing a complete restore fails");
    w.roots.push(src.roots[0]);
    w.model.push(all);
    hook(&w);
    let o = pick(0, 7);
    let s = op(w.pool[(o % 4) as usize], 1 + o / 4, val(1, 2)).into_iter().collect();
    w.apply(s);
    hook(&w);
    w
}

// ---------------------------------------------------------------- structure of a stored version
/// the root's node key among the nodes a batch writes at `v`
pub fn root_key(b: &TreeUpdateBatch, v: u64) -> Option<NodeKey> {
    b.node_batch.nodes().keys().filter(|k| k.version() == v).min_by_key(|k| enc(*k).len()).cloned()
}
pub fn enc<B: borsh::BorshSerialize>(x: &B) -> Vec<u8> { x.try_to_vec().must("encoding failed") }
pub fn children(nk: &NodeKey, n: &Node) -> Vec<NodeKey> {
    let mut out: Vec<NodeKey> = vec![];
    if let Node::Internal(i) = n {
        for x in 0..16u8 {
            if let Some(c) = i.get_child_without_siblings(nk, x.into()) { if !out.contains(&c) { out.push(c); } }
        }
    }
    out
}
/// all node keys reachable from a root
pub fn reachable(db: &S, root: &NodeKey) -> BTreeSet<NodeKey> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![root.clone()];
    while let Some(k) = todo.pop() {
        let n = db.get_node_option(&k).must("store read failed").must("a referenced node is not stored");
        todo.extend(children(&k, &n));
        seen.insert(k);
    }
    seen
}
/// everything observable of one version
#[derive(PartialEq)]
pub struct Snap { pub root: RootHash, pub vals: Vec<(Option<Vec<u8>>, Option<jmt::proof::SparseMerkleLeafNode>, Vec<[u8; 32]>)>, pub iter: Vec<KV> }
pub fn snap(w: &W, v: u64) -> Snap {
    Snap {
        root: w.tree.get_root_hash(v).must("root unreadable"),
        vals: w.pool.iter().map(|k| { let (x, p) = w.tree.get_with_proof(*k, v).must("get_with_proof failed"); (x, p.leaf(), p.siblings().to_vec()) }).collect(),
        iter: JellyfishMerkleIterator::new(w.db.clone(), v, KeyHash([0; 32])).must("iterator failed").map(|r| r.must("iteration failed")).collect(),
    }
}
/// whether stored nodes have the layout the harnesses that write nodes byte by byte assume
pub fn layout() -> bool {
    let mut w = W::new(3);
    w.apply(vec![(KeyHash([0x12; 32]), Some(vec![1])), (KeyHash([0x42; 32]), Some(vec![2]))]);
    w.apply(vec![(KeyHash([0x12; 32]), Some(vec![3]))]);
    let mut ok = 0;
    for (k, n) in w.batches[1].node_batch.nodes() {
        let e = enc(n);
        match n {
            Node::Internal(i) => {
                let mut b = vec![1u8];
                for x in 0..16u8 {
                    match i.child(x.into()) { None => b.push(0), Some(c) => { b.push(1); b.extend_from_slice(&c.hash); b.extend_from_slice(&c.version.to_le_bytes()); b.push(0); } }
                }
                b.extend_from_slice(&2u64.to_le_bytes());
                b.push(1);
                b.extend_from_slice(&2u64.to_le_bytes());
                b.push(1);
                ok += (e == b) as u8;
            }
            _ => ok += (e.len() == 65 && e[0] == 2 && e[1..33] == [0x12; 32]) as u8,
        }
        let mut b = 4u64.to_le_bytes().to_vec();
        if let Node::Leaf(_) = n { b.extend_from_slice(&1u64.to_le_bytes()); b.extend_from_slice(&1u32.to_le_bytes()); b.push(0x10); } else { b.extend_from_slice(&[0; 12]); }
        ok += (enc(k) == b) as u8;
    }
    ok == 4
}
/// M: a tree whose first version was stored before leaf counts were kept, updated in either mode
pub fn scen_legacy(hook: Hook) -> W {
    let mut w = W::new(0);
    w.migration = pick(0, 1) == 1;
    w.tree = T::new_migration(w.db.clone(), w.migration);
    let pos = [0usize, 1, 31][pick(0, 2) as usize];
    w.pool = sorted_keys(2, pos, 0x55, true);
    w.pool.push(key_at(0, 0x5c, 0x55));
    w.pool.push(key_at(if pos == 0 { 1 } else { pos - 1 }, 0x09, 0x55));
    let m = [0b0011u8, 0b0111, 0b1111, 0b1011, 0b1100][pick(0, 4) as usize];
    w.apply((0..4).filter(|i| m >> i & 1 == 1).map(|i| (w.pool[i], Some(val(0, i)))).collect());
    w.make_legacy();
    hook(&w);
    for v in 1..3u64 {
        let o = pick(0, 7);
        w.apply(op(w.pool[(o % 4) as usize], 1 + o / 4, val(v, 3)).into_iter().collect());
        hook(&w);
    }
    w
}
/// N: many versions over six keys: new values, the present value again, an earlier value again, deletions of present and
/// absent keys, empty updates, the tree emptied; one version of any number deviates
pub fn scen_lasting(n: usize, hook: Hook) -> W {
    let mut w = W::new([0u64, 250][pick(0, 1) as usize]);
    w.pool = vec![KeyHash([0x12; 32]), key_at(31, 0x13, 0x12), key_at(16, 0x82, 0x12), key_at(0, 0x19, 0x12), key_at(0, 0x90, 0x12), key_at(1, 0x02, 0x12)];
    let p = pick(1, n as u8 - 1) as usize;
    let q = pick(0, 7) as usize;
    let mut x = 0x9E37_79B9u32;
    for v in 0..n {
        for _ in 0..2 { x ^= x << 13; x ^= x >> 17; x ^= x << 5; }
        let cur = w.cur();
        let mut s: Set = vec![];
        for i in 0..6 {
            let k = w.pool[i];
            match x >> (5 + 4 * i) & 7 {
                0 | 1 => s.push((k, Some(val(v as u64, i)))),
                2 => if let Some(x) = lookup(&cur, &k) { s.push((k, Some(x.clone()))) },
                3 => s.push((k, None)),
                4 => if v > 3 { if let Some(x) = lookup(&w.model[v - 3], &k) { s.push((k, Some(x.clone()))) } },
                _ => {}
            }
        }
        if v == 0 && s.iter().all(|e| e.1.is_none()) { s = vec![(w.pool[2], Some(val(0, 2)))]; }
        if v % 7 == 5 { s.clear(); }
        if v == n / 2 { s = w.pool.iter().map(|k| (*k, None)).collect(); }
        if v == p {
            match q {
                0 => s.clear(),
                1 => s = cur.iter().map(|e| (e.0, None)).collect(),
                _ => { let k = w.pool[q - 2]; s.retain(|e| e.0 != k); s.push((k, if lookup(&cur, &k).is_some() { None } else { Some(val(v as u64, 1)) })); }
            }
        }
        w.apply(s);
        hook(&w);
    }
    w
}
/// R: hundreds of entries (random, or most below one byte), values up to 70 000 bytes, three versions, then one
/// symbolic operation
pub fn scen_crowd(n: usize, hook: Hook) -> W {
    let mut w = W::new(300);
    let dense = pick(0, 1) == 1;
    let mut x = 0x1B87_3593u32;
    for i in 0..n {
        let mut k = [0u8; 32];
        for b in k.iter_mut() { x ^= x << 13; x ^= x >> 17; x ^= x << 5; *b = (x >> 9) as u8; }
        // odd multiples run through every byte once
        if dense && i % 16 != 0 { k[0] = 0x5c; k[1] = (i as u8).wrapping_mul(7); if i >= 256 { k[2] = (i >> 8) as u8; } }
        w.pool.push(KeyHash(k));
    }
    let at = |i: usize| [0usize, 5, n / 2, n - 1][i];
    let big = |i: usize, v: u64| -> Vec<u8> {
        let mut x = val(v, i);
        match i % 64 { 5 => x.resize(4096, 0x5a), 6 => x.resize(65_535, 1), 7 => x.resize(65_536, 0), 8 => x.resize(70_001, 0xff), _ => {} }
        x
    };
    w.apply((0..n).filter(|i| i % 11 != 3).map(|i| (w.pool[i], Some(big(i, 0)))).collect());
    hook(&w);
    w.apply((0..n).filter(|i| i % 4 == 1 || i % 11 == 3).map(|i| (w.pool[i], if i % 3 == 1 { None } else { Some(big(i, 1)) })).collect());
    hook(&w);
    let k = at(pick(0, 3) as usize);
    let o = pick(0, 2);
    w.apply(op(w.pool[k], o, big(k, 2)).into_iter().collect());
    hook(&w);
    w
}
