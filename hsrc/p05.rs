//! P05 forged proofs, P07 malformed proofs, P08 missing nodes and store faults
#![allow(deprecated)]
use super::pm::*;
use super::sym::*;
use std::sync::atomic::{AtomicUsize, Ordering};

// ---------------------------------------------------------------- P05
fn judge(w: &PW, root: H256, k: &[u8], proof: Vec<B>) {
    let v = InnerTrie::new(Arc::new(MemoryDB::new(true)));
    match v.verify_proof(root, k, proof) {
        Ok(x) => {
            check(x.as_ref() == look(&w.m, k), "a forged proof is accepted for a false statement");
            reach(if x.is_some() { "truth, present" } else { "truth, absent" });
            obs(1);
        }
        Err(_) => { reach("rejected"); obs(0); }
    }
}
/// a trie of up to four keys whose nodes are partly inline, partly hashed
fn victim() -> PW {
    let mut w = PW::new(true, vec![vec![0x12], vec![0x12, 0x34], vec![0x12, 0x35], vec![0x52, 0x35], vec![]]);
    let l = pick(0, 2) as usize;
    if pick(0, 1) == 1 { w.put(4, 1); }
    for i in 0..4 { if i > 1 || pick(0, 1) == 1 { w.put(i, [1, 40, 33][(l + i) % 3]); } }
    w.commit();
    w
}
fn ask(w: &PW) -> B { let i = pick(0, 5) as usize; if i < 4 { w.pool[i].clone() } else if i == 4 { vec![] } else { vec![0x12, 0x36] } }
/// all stored nodes of the trie, root first, in the order the keys meet them
fn stored(w: &mut PW) -> Vec<B> {
    let mut v: Vec<B> = vec![];
    for k in &w.pool { for n in w.t.get_proof(k).must("proof query failed") { if !v.contains(&n) { v.push(n); } } }
    v
}
/// any one byte of any node replaced by any other, and nodes dropped
#[no_mangle]
pub extern "C-unwind" fn h_p05_mutate() {
    let mut w = victim();
    let root = w.roots.last().unwrap().0;
    let mut p = stored(&mut w);
    let i = pick(0, p.len() as u8 - 1) as usize;
    let j = pick(0, (p[i].len() - 1).min(99) as u8) as usize;
    p[i][j] = byte();
    let d = pick(0, p.len() as u8) as usize;
    if d < p.len() && d != i { p.remove(d); }
    let k = ask(&w);
    judge(&w, root, &k, p);
}
/// the largest nodes: sixteen hashed children and a value, any one byte at any offset replaced, or a child reference
#[no_mangle]
pub extern "C-unwind" fn h_p05_dense() {
    let mut w = PW::new(true, (0..16u8).map(|i| vec![i << 4 | 7]).collect());
    w.pool.push(vec![]);
    for i in 0..16 { w.put(i, 40); }
    match pick(0, 2) { 1 => w.put(16, 2), 2 => w.put(16, 100), _ => {} }
    w.commit();
    let root = w.roots.last().unwrap().0;
    let mut p = stored(&mut w);
    let n = p[0].len();
    let j = pick(0, (n / 8) as u8) as usize * 8 + pick(0, 7) as usize;
    assume(j < n);
    let b = byte();
    assume(b != 0);
    p[0][j] ^= b;
    // the leaves as they are, or one whose content is the attacker's
    let i = pick(0, 3) as usize * 5;
    if pick(0, 1) == 1 { let l = p[1 + i].len(); p[1 + i][l - 1] ^= 0x55; }
    let k = if pick(0, 1) == 1 { vec![(j.saturating_sub(3) / 33).min(15) as u8 * 16 + 7] } else { vec![[0x07, 0x57, 0xa7, 0xf7][i / 5]] };
    let k = if pick(0, 3) == 0 { vec![] } else { k };
    judge(&w, root, &k, p);
}
/// an arbitrary node in place of one of the nodes: any content of the same length
#[no_mangle]
pub extern "C-unwind" fn h_p05_arbitrary() {
    let mut w = victim();
    let root = w.roots.last().unwrap().0;
    let mut p = stored(&mut w);
    let i = pick(0, p.len() as u8 - 1) as usize;
    let n = p[i].len();
    let x: B = (0..n).map(|_| byte()).collect();
    if pick(0, 1) == 1 { p[i] = x } else { p.push(x) }
    let k = ask(&w);
    judge(&w, root, &k, p);
}
/// a subset of the true nodes in any order, some repeated, with another trie's nodes among them
#[no_mangle]
pub extern "C-unwind" fn h_p05_mix() {
    let mut w = victim();
    let root = w.roots.last().unwrap().0;
    let mut o = PW::new(true, w.pool.clone());
    for i in 0..4 { let v = uniq(45, i + 20); o.put_val(i, v); }
    o.commit();
    let (a, b) = (stored(&mut w), stored(&mut o));
    let mut p = vec![];
    for x in &a { if pick(0, 1) == 1 { p.push(x.clone()); } }
    match pick(0, 3) { 0 => p.extend(b), 1 => p.reverse(), 2 => p.extend(a), _ => p.insert(0, vec![]) }
    let k = ask(&w);
    judge(&w, root, &k, p);
}
/// a proof for one key offered for another, and a proof of an earlier trie offered against a later root
#[no_mangle]
pub extern "C-unwind" fn h_p05_replay() {
    let mut w = victim();
    let k0 = ask(&w);
    let p = w.t.get_proof(&k0).must("proof query failed");
    let o = pick(0, 8);
    if o < 8 { w.op(o as usize, 41); w.commit(); }
    let root = w.roots.last().unwrap().0;
    let k = ask(&w);
    judge(&w, root, &k, p);
}
/// the stored values are the attacker's: symbolic bytes, lengths of every encoding class
#[no_mangle]
pub extern "C-unwind" fn h_p05_value() {
    let mut w = PW::new(true, vec![vec![0x12], vec![0x12, 0x34], vec![0x13]]);
    let n = [1usize, 2, 32, 33, 56][pick(0, 4) as usize];
    let mut v = vec![0x20u8; n];
    v[0] = byte();
    v[n - 1] = byte();
    w.put_val(0, v.clone());
    w.put(1, 40);
    w.commit();
    let root = w.roots.last().unwrap().0;
    let mut p = stored(&mut w);
    match pick(0, 2) {
        0 => p.push(v),
        1 => { let i = pick(0, p.len() as u8 - 1) as usize; p.remove(i); }
        _ => { let i = pick(0, p.len() as u8 - 1) as usize; let n = p[i].len(); let b = byte(); assume(b != 0); p[i][n - 1] ^= b; }
    }
    let k = w.pool[pick(0, 2) as usize].clone();
    judge(&w, root, &k, p);
}

// ---------------------------------------------------------------- P07
fn survive(root: H256, k: &[u8], proof: Vec<B>) {
    let v = InnerTrie::new(Arc::new(MemoryDB::new(true)));
    let r = v.verify_proof(root, k, proof);
    reach(match &r { Ok(Some(_)) => "value", Ok(None) => "absent", Err(_) => "rejected" });
    obs(r.is_ok() as u64);
}
fn anykey() -> B { let n = pick(0, 2); (0..n).map(|_| byte()).collect() }
/// one arbitrary item of up to n bytes that hashes to the root
fn blob(n: u8) {
    let n = pick(0, n);
    let x: B = (0..n).map(|_| byte()).collect();
    let k = anykey();
    survive(H256(kec(&x)), &k, vec![x]);
}
#[no_mangle] pub extern "C-unwind" fn h_p07_blob() { blob(4) }
#[no_mangle] pub extern "C-unwind" fn h_p07_blob7() { blob(7) }
/// a list of two items: any path bytes, then an arbitrary encoding
#[no_mangle]
pub extern "C-unwind" fn h_p07_pair() {
    let a = pick(0, 3);
    let path: B = (0..a).map(|_| byte()).collect();
    let b = pick(0, 4);
    let rest: B = (0..b).map(|_| byte()).collect();
    let x = rlp_list(&[rlp_str(&path), rest]);
    let k = anykey();
    survive(H256(kec(&x)), &k, vec![x]);
}
/// a list of n items around an arbitrary one
#[no_mangle]
pub extern "C-unwind" fn h_p07_branch() {
    let n = [17u8, 16, 18, 3, 1, 0][pick(0, 5) as usize] as usize;
    let i = pick(0, 16) as usize;
    let b = pick(0, 4);
    let sub: B = (0..b).map(|_| byte()).collect();
    let mut items = vec![vec![0x80]; n];
    if i < n { items[i] = sub; }
    let x = rlp_list(&items);
    let k: B = if pick(0, 1) == 1 { vec![(i as u8) << 4 | range(0, 15)] } else { vec![] };
    survive(H256(kec(&x)), &k, vec![x]);
}
/// nested: an arbitrary node, embedded or by hash, below a branch, an extension or another of its kind
#[no_mangle]
pub extern "C-unwind" fn h_p07_nested() {
    let b = pick(0, 3);
    let path: B = (0..b).map(|_| byte()).collect();
    let leafish = rlp_list(&[rlp_str(&path), if pick(0, 1) == 1 { rlp_str(&vec![9; 33]) } else { vec![range(0, 255)] }]);
    let mut proof = vec![leafish.clone()];
    let mut x = leafish;
    for _ in 0..2 {
        let child = if x.len() < 32 && pick(0, 1) == 1 { x.clone() } else { rlp_str(&kec(&x)) };
        x = match pick(0, 2) {
            0 => rlp_list(&[rlp_str(&[0x11]), child]),
            1 => rlp_list(&[rlp_str(&[0x00, byte()]), child]),
            _ => { let mut i = vec![vec![0x80]; 17]; i[1] = child; rlp_list(&i) }
        };
        proof.push(x.clone());
    }
    let k: B = vec![0x11, byte(), 0x11];
    survive(H256(kec(&x)), &k, proof);
}
/// an honest proof with one arbitrary byte anywhere, the root taken from the altered node
#[no_mangle]
pub extern "C-unwind" fn h_p07_honest() {
    let mut w = victim();
    let mut p = stored(&mut w);
    let j = pick(0, (p[0].len() - 1).min(120) as u8) as usize;
    p[0][j] = byte();
    let r = kec(&p[0]);
    let k = ask(&w);
    survive(H256(r), &k, p);
}
/// lists nested d deep
#[no_mangle]
pub extern "C-unwind" fn h_p07_deep() {
    let d = [3usize, 10, 30, 3000, 40000][pick(0, 4) as usize];
    // built inside out, written back to front
    let mut rev: B = vec![];
    let kind = pick(0, 1);
    rev.push(if kind == 0 { 0x80 } else { 0x01 });
    for _ in 0..d {
        rev.push(if kind == 0 { 0x11 } else { 0x20 });
        let h = rlp_len(0xc0, rev.len());
        rev.extend(h.iter().rev());
    }
    rev.reverse();
    let k: B = vec![0x11; [1usize, 8][pick(0, 1) as usize]];
    survive(H256(kec(&rev)), &k, vec![rev]);
}

// ---------------------------------------------------------------- P08
/// the state after a failed operation is the state before it
fn restored(w: &mut PW, hash: &[u8], node: &B) {
    if pick(0, 1) == 1 {
        if let Ok(r) = w.t.commit() {
            check(r.0 == ref_root(&w.m), "a commit after a failed operation changes the root");
            reach("commit in between");
        }
    }
    w.db.insert(hash, node.clone()).must("db");
    let ks = w.pool.clone();
    for k in &ks { check(w.t.get(k).must("unreadable after the node came back").as_ref() == look(&w.m, k), "a failed operation changed the contents"); }
    let r = w.t.commit().must("commit failed after the node came back");
    check(r.0 == ref_root(&w.m), "a failed operation changed the root");
    let t = InnerTrie::new(w.db.clone()).at_root(r);
    for k in &ks { check(t.get(k).must("a failed operation lost a stored node").as_ref() == look(&w.m, k), "a failed operation changed the stored contents"); }
}
fn named(e: TrieError, h: &[u8]) {
    match e {
        TrieError::MissingTrieNode { node_hash, .. } => check(node_hash.as_bytes() == h, "the error names another node than the missing one"),
        _ => fail("a missing node is not reported as such"),
    }
    reach("missing reported");
}
fn missing(mut w: PW, long: bool) {
    w.commit();
    if pick(0, 1) == 1 { w.reopen(); }
    if long { w.any_op(41); }
    let mut re = InnerTrie::new(w.db.clone()).at_root(w.roots.last().unwrap().0);
    let mut nodes: Vec<(B, B)> = vec![];
    for k in w.pool.clone() { for n in re.get_proof(&k).must("proof query failed") { let h = kec(&n).to_vec(); if w.db.get(&h).must("db").is_some() && !nodes.iter().any(|e| e.0 == h) { nodes.push((h, n)); } } }
    assume(!nodes.is_empty());
    let i = pick(0, nodes.len().min(20) as u8 - 1) as usize;
    let (h, n) = nodes[i].clone();
    w.db.remove(&h).must("db");
    let o = pick(0, 4);
    let kn = pick(0, w.pool.len() as u8) as usize;
    let k = if kn < w.pool.len() { w.pool[kn].clone() } else { let mut k = w.pool[0].clone(); k.push(0x31); k };
    let had = look(&w.m, &k).cloned();
    match o {
        0 => match w.t.get(&k) { Ok(x) => check(x == had, "lookup is wrong over a missing node"), Err(e) => named(e, &h) },
        1 => match w.t.contains(&k) { Ok(x) => check(x == had.is_some(), "membership is wrong over a missing node"), Err(e) => named(e, &h) },
        2 => match w.t.insert(&k, &[0x77; 34]) {
            Ok(()) => { w.m.retain(|e| e.0 != k); w.m.push((k, vec![0x77; 34])); reach("insert without the node"); }
            Err(e) => named(e, &h),
        },
        3 => match w.t.remove(&k) {
            Ok(x) => { check(x == had.is_some(), "remove is wrong over a missing node"); w.m.retain(|e| e.0 != k); reach("remove without the node"); }
            Err(e) => named(e, &h),
        },
        _ => match w.t.get_proof(&k) {
            Ok(p) => {
                reach("proof without the node");
                // the proof is of the contents as they are, an uncommitted change included
                let v = InnerTrie::new(Arc::new(MemoryDB::new(true)));
                check(v.verify_proof(H256(ref_root(&w.m)), &k, p).must("a proof made over a missing node does not verify") == had, "a proof made over a missing node is wrong");
            }
            Err(e) => named(e, &h),
        },
    }
    restored(&mut w, &h, &n);
    obs(o as u64);
}
macro_rules! all_p08 { ($($n:ident $s:expr;)*) => { $(#[no_mangle] pub extern "C-unwind" fn $n() { missing($s, false) })* } }
/// keys that are prefixes of one another, any subset, every stored node missing in turn
#[no_mangle]
pub extern "C-unwind" fn h_p08_prefix() {
    let mut w = PW::new(true, vec![vec![], vec![0x61], vec![0x61, 0x62], vec![0x61, 0x6c], vec![0x71]]);
    for i in 0..5 { if pick(0, 1) == 1 { w.put(i, 40); } }
    missing(w, false)
}
#[no_mangle]
pub extern "C-unwind" fn h_p08_ops() {
    let mut w = PW::new(true, vec![vec![0x61], vec![0x61, 0x62], vec![0x61, 0x6c], vec![0x71]]);
    for i in 0..4 { if i > 1 || pick(0, 1) == 1 { w.put(i, 40); } }
    missing(w, true)
}
#[no_mangle]
pub extern "C-unwind" fn h_p08_sym() {
    let k = || -> B { (0..2).map(|_| { let b = range(0, 15); (b & 3) | (b >> 2) << 4 }).collect() };
    let pool = vec![k(), k(), vec![0x12]];
    assume(pool[0] != pool[1]);
    let mut w = PW::new(true, pool);
    for i in 0..3 { w.put(i, 40); }
    missing(w, false)
}
all_p08! { h_p08_wide s_wide(0); h_p08_spine s_spine(0); h_p08_long s_long(0); h_p08_chain s_chain(0); h_p08_dense s_dense(0); }
/// a store whose n-th access fails
#[derive(Default, Clone, Debug)]
struct Flaky { inner: MemoryDB, left: Arc<AtomicUsize> }
#[derive(Debug)]
struct Fault;
impl std::fmt::Display for Fault { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Fault {}
impl Flaky {
    fn tick(&self) -> Result<(), Fault> {
        let n = self.left.load(Ordering::SeqCst);
        if n == 1 { self.left.store(0, Ordering::SeqCst); return Err(Fault); }
        if n > 1 { self.left.store(n - 1, Ordering::SeqCst); }
        Ok(())
    }
}
impl Database for Flaky {
    type Error = Fault;
    fn get(&self, k: &[u8]) -> Result<Option<B>, Fault> { self.tick()?; self.inner.get(k).map_err(|_| Fault) }
    fn insert(&self, k: &[u8], v: B) -> Result<(), Fault> { self.tick()?; self.inner.insert(k, v).map_err(|_| Fault) }
    fn remove(&self, k: &[u8]) -> Result<(), Fault> { self.tick()?; self.inner.remove(k).map_err(|_| Fault) }
    fn flush(&self) -> Result<(), Fault> { Ok(()) }
    fn len(&self) -> Result<usize, Fault> { self.inner.len().map_err(|_| Fault) }
    fn values(&self) -> Result<Vec<(B, B)>, Fault> { self.inner.values().map_err(|_| Fault) }
    fn is_empty(&self) -> Result<bool, Fault> { self.inner.is_empty().map_err(|_| Fault) }
}
#[no_mangle]
pub extern "C-unwind" fn h_p08_fault() {
    let db = Arc::new(Flaky { inner: MemoryDB::new(true), left: Arc::new(AtomicUsize::new(0)) });
    let mut t = InnerTrie::new(db.clone());
    let pool: Vec<B> = vec![vec![0x61], vec![0x61, 0x62], vec![0x61, 0x6c], vec![0x71]];
    let mut m: Vec<(B, B)> = vec![];
    for i in 0..4 { if i > 1 || pick(0, 1) == 1 { let v = uniq(40, i); t.insert(&pool[i], &v).must("insert"); m.push((pool[i].clone(), v)); } }
    let r = t.commit().must("commit");
    if pick(0, 1) == 1 { t = InnerTrie::new(db.clone()).at_root(r); }
    let first = pick(1, 6) as usize;
    db.left.store(first, Ordering::SeqCst);
    for j in 0..2 {
        let o = pick(0, 8) as usize;
        if o == 8 {
            if t.commit().is_err() { reach("commit failed"); }
        } else {
            let k = &pool[o % 4];
            if o < 4 {
                let v = uniq(34, 10 + j);
                if t.insert(k, &v).is_ok() { m.retain(|e| e.0 != *k); m.push((k.clone(), v)); } else { reach("insert failed"); }
            } else {
                match t.remove(k) { Ok(x) => { check(x == look(&m, k).is_some(), "remove misreports"); m.retain(|e| e.0 != *k); } Err(_) => reach("remove failed") }
            }
        }
    }
    if t.commit().is_err() { reach("commit failed"); }
    db.left.store(0, Ordering::SeqCst);
    for k in &pool { check(t.get(k).must("unreadable after a store fault").as_ref() == look(&m, k), "a store fault changed the contents"); }
    let r = t.commit().must("commit failed after a store fault");
    check(r.0 == ref_root(&m), "a store fault changed the root");
    let t = InnerTrie::new(db.clone()).at_root(r);
    for k in &pool { check(t.get(k).must("a store fault lost a stored node").as_ref() == look(&m, k), "a store fault changed the stored contents"); }
    obs(m.len() as u64);
}
