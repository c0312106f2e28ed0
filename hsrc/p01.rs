//! P01 map, P02 canonical root, P03 re-opening, P04 honest proofs, P06 iteration
use super::pm::*;
use super::sym::*;

fn reads(t: &Tr, m: &[(B, B)], keys: &[B], label: &'static str) {
    for k in keys {
        let g = t.get(k).must("lookup failed on a complete store");
        check(g.as_ref() == look(m, k), label);
        check(t.contains(k).must("membership test failed on a complete store") == look(m, k).is_some(), "membership test disagrees with the contents");
    }
    obs(m.len() as u64);
}
fn map(w: &PW) {
    let ks = probes(w);
    reads(&w.t, &w.m, &ks, "lookup disagrees with the operations performed");
    reach(if w.m.is_empty() { "empty" } else { "some" });
}
fn root(w: &mut PW) {
    let r = w.t.root_hash().must("root hash failed on a complete store");
    check(r.0 == ref_root(&w.m), "root is not the Merkle-Patricia root of the contents");
    let r2 = w.t.commit().must("second commit failed");
    check(r2 == r, "a commit without changes alters the root");
    for (r, m) in &w.roots { check(r.0 == ref_root(m), "an earlier committed root is not the Merkle-Patricia root of its contents"); }
    reach(match w.m.len() { 0 => "empty", 1 => "one", _ => "many" });
    obs(w.m.len() as u64);
}
fn reopen(w: &mut PW) {
    let ks = probes(w);
    w.commit();
    let (r, m) = w.roots.last().unwrap().clone();
    reads(&w.t, &m, &ks, "contents change at a commit");
    let t = InnerTrie::new(w.db.clone()).at_root(r);
    reads(&t, &m, &ks, "the trie re-opened at its root has other contents");
    if !w.light {
        // nothing is deleted from such a store: every earlier root stays readable
        for (r, m) in &w.roots { reads(&InnerTrie::new(w.db.clone()).at_root(*r), m, &w.pool, "an earlier root re-opened has other contents"); }
        reach("old roots");
    }
    // a re-opened trie commits to the same root
    let mut t = t;
    check(t.commit().must("committing a re-opened trie failed") == r, "committing a re-opened trie changes its root");
    reach("reopened");
}
fn proofs(w: &mut PW) {
    let ks = probes(w);
    let v = InnerTrie::new(Arc::new(MemoryDB::new(true)));
    if pick(0, 1) == 1 {
        // before the commit: against the root it will have
        let r = H256(ref_root(&w.m));
        for k in few(&ks, 25) {
            let p = w.t.get_proof(k).must("proof query failed on a complete store");
            let got = v.verify_proof(r, k, p).must("a proof of uncommitted contents does not verify");
            check(got.as_ref() == look(&w.m, k), "a proof of uncommitted contents yields the wrong answer");
        }
        reach("uncommitted");
    }
    w.commit();
    let (r, m) = w.roots.last().unwrap().clone();
    let mut re = InnerTrie::new(w.db.clone()).at_root(r);
    for k in few(&ks, 70) {
        let p = w.t.get_proof(k).must("proof query failed on a complete store");
        let got = v.verify_proof(r, k, p).must("an honest proof does not verify");
        check(got.as_ref() == look(&m, k), "an honest proof yields the wrong answer");
        let p = re.get_proof(k).must("proof query failed on a re-opened trie");
        let got = v.verify_proof(r, k, p).must("an honest proof from a re-opened trie does not verify");
        check(got.as_ref() == look(&m, k), "an honest proof from a re-opened trie yields the wrong answer");
        reach(if got.is_some() { "present" } else { "absent" });
    }
    // asking for proofs changes nothing
    check(w.t.commit().must("commit failed on a complete store") == r, "asking for proofs changes the root");
    obs(m.len() as u64);
}
fn same(t: &Tr, m: &[(B, B)], label: &'static str) {
    let got: Vec<(B, B)> = t.iter().take(m.len() + 2).collect();
    check(got.len() == m.len(), label);
    for e in m { check(got.iter().any(|g| g == e), label); }
    let vs = t.values().must("values failed");
    check(vs == got, "values differs from iteration");
    let own: Vec<(B, B)> = pmt::OwnedTrieIterator::new(t.clone()).take(m.len() + 2).collect();
    check(own == got, "the owning iterator differs from iteration");
}
fn iter(w: &mut PW) {
    same(&w.t, &w.m, "iteration does not yield each pair exactly once");
    w.commit();
    same(&w.t, &w.m, "iteration after a commit does not yield each pair exactly once");
    let t = InnerTrie::new(w.db.clone()).at_root(w.roots.last().unwrap().0);
    same(&t, &w.m, "iteration of a re-opened trie does not yield each pair exactly once");
    reach(if w.m.is_empty() { "empty" } else { "some" });
    obs(w.m.len() as u64);
}
macro_rules! fam {
    ($o:ident: $($n:ident $s:expr;)*) => { $(#[no_mangle] pub extern "C-unwind" fn $n() { #[allow(unused_mut)] let mut w = $s; $o(&mut w); })* };
}
fam! { map:
    h_p01_prefix s_prefix(2); h_p01_prefix3 s_prefix(3); h_p01_sym s_sym(1); h_p01_sym2 s_sym(2); h_p01_long s_long(2); h_p01_long3 s_long(3);
    h_p01_wide s_wide(2); h_p01_full s_full(); h_p01_spine s_spine(1); h_p01_value s_value(); h_p01_dense s_dense(1); h_p01_many s_many(1); h_p01_chain s_chain(1); h_p01_crowd s_crowd(); }
fam! { root:
    h_p02_prefix s_prefix(2); h_p02_prefix3 s_prefix(3); h_p02_sym s_sym(1); h_p02_sym2 s_sym(2); h_p02_long s_long(2); h_p02_long3 s_long(3);
    h_p02_wide s_wide(2); h_p02_full s_full(); h_p02_spine s_spine(1); h_p02_value s_value(); h_p02_dense s_dense(1); h_p02_many s_many(1); h_p02_chain s_chain(1); h_p02_crowd s_crowd(); }
fam! { reopen:
    h_p03_prefix s_prefix(2); h_p03_prefix3 s_prefix(3); h_p03_sym s_sym(1); h_p03_sym2 s_sym(2); h_p03_long s_long(2); h_p03_long3 s_long(3);
    h_p03_wide s_wide(2); h_p03_full s_full(); h_p03_spine s_spine(1); h_p03_value s_value(); h_p03_dense s_dense(1); h_p03_many s_many(1); h_p03_chain s_chain(1); h_p03_crowd s_crowd(); }
fam! { proofs:
    h_p04_prefix s_prefix(2); h_p04_sym s_sym(1); h_p04_sym2 s_sym(2); h_p04_long s_long(2); h_p04_long3 s_long(3);
    h_p04_wide s_wide(1); h_p04_full s_full(); h_p04_spine s_spine(1); h_p04_value s_value(); h_p04_dense s_dense(1); h_p04_many s_many(1); h_p04_chain s_chain(1); h_p04_crowd s_crowd(); }
fam! { iter:
    h_p06_prefix s_prefix(2); h_p06_prefix3 s_prefix(3); h_p06_sym s_sym(1); h_p06_sym2 s_sym(2); h_p06_long s_long(2);
    h_p06_wide s_wide(2); h_p06_full s_full(); h_p06_spine s_spine(1); h_p06_value s_value(); h_p06_dense s_dense(1); h_p06_many s_many(1); h_p06_chain s_chain(1); h_p06_crowd s_crowd(); }

/// equal subtrees in several places of one trie
#[no_mangle]
pub extern "C-unwind" fn h_p03_shared() {
    let mut w = PW::new(true, vec![vec![0x12, 0x34], vec![0x22, 0x34], vec![0x32, 0x34], vec![0x22, 0x35]]);
    for i in 0..3 { w.put_val(i, vec![7; 40]); }
    if pick(0, 1) == 1 { w.put_val(3, vec![7; 40]); }
    w.commit();
    for _ in 0..2 {
        let o = pick(0, 7) as usize;
        if o < 4 { w.put_val(o, vec![8; 40]) } else { w.del(o - 4) }
    }
    w.commit();
    let t = InnerTrie::new(w.db.clone()).at_root(w.roots.last().unwrap().0);
    for k in &w.pool {
        let g = match t.get(k) { Ok(g) => g, Err(_) => fail("a-commit-deletes-a-node-that-an-identical-subtree-still-needs") };
        check(g.as_ref() == look(&w.m, k), "the trie re-opened at its root has other contents");
    }
}
/// uncommitted changes, then the same trie taken to a committed root (or a handle made elsewhere): what is read there is
/// that root's, and what is committed from there is that plus the later changes
#[no_mangle]
pub extern "C-unwind" fn h_p03_switch() {
    let mut w = PW::new(false, vec![vec![], vec![0x61], vec![0x61, 0x62], vec![0x71]]);
    for i in 0..4 { if pick(0, 1) == 1 { w.put(i, 40); } }
    w.commit();
    if pick(0, 1) == 1 { let o = pick(0, 7) as usize; w.op(o, 41); w.commit(); }
    // left uncommitted
    for _ in 0..2 { let o = pick(0, 8) as usize; if o < 8 { w.op(o, 42); } }
    let (r, m) = w.roots[pick(0, w.roots.len() as u8 - 1) as usize].clone();
    let left = w.m.clone();
    let ks = w.pool.clone();
    let mut t = w.t.at_root(r);
    reads(&t, &m, &ks, "a trie taken to a committed root has other contents");
    let mut c = m.clone();
    if pick(0, 1) == 1 {
        let k = &ks[pick(0, 3) as usize];
        t.insert(k, &[0x99; 43]).must("insert failed on a complete store");
        c.retain(|e| e.0 != *k);
        c.push((k.clone(), vec![0x99; 43]));
    }
    let r2 = t.commit().must("commit failed on a complete store");
    check(r2.0 == ref_root(&c), "the root committed after taking a trie to a committed root is wrong");
    reads(&InnerTrie::new(w.db.clone()).at_root(r2), &c, &ks, "the trie committed after taking a trie to a committed root has other contents");
    // the changes left uncommitted are still there
    reads(&w.t, &left, &ks, "taking another handle to a root changes the trie");
    let r3 = w.t.commit().must("commit failed on a complete store");
    check(r3.0 == ref_root(&left), "taking another handle to a root changes the root of the trie");
    reads(&InnerTrie::new(w.db.clone()).at_root(r3), &left, &ks, "the trie re-opened at its root has other contents");
    for (r, m) in &w.roots { reads(&InnerTrie::new(w.db.clone()).at_root(*r), m, &ks, "an earlier root re-opened has other contents"); }
    obs(c.len() as u64);
}
/// the same in a light store, where only the last committed root is kept: the changes left uncommitted are not part of
/// it, nor does committing the handle take anything from it
#[no_mangle]
pub extern "C-unwind" fn h_p03_abandon() {
    let mut w = PW::new(true, vec![vec![], vec![0x61], vec![0x61, 0x62], vec![0x71]]);
    for i in 0..4 { if pick(0, 1) == 1 { w.put(i, 40); } }
    w.commit();
    let (r, mut m) = w.roots[0].clone();
    for _ in 0..2 { let o = pick(0, 8) as usize; if o < 8 { w.op(o, 42); } }
    let ks = w.pool.clone();
    // proofs and reads in between touch the caches
    if pick(0, 1) == 1 { for k in &ks { w.t.get_proof(k).must("proof query failed on a complete store"); } }
    let mut t = w.t.at_root(r);
    reads(&t, &m, &ks, "a trie taken to a committed root has other contents");
    if pick(0, 1) == 1 {
        let k = &ks[pick(0, 3) as usize];
        if pick(0, 1) == 1 {
            t.insert(k, &[0x99; 43]).must("insert failed on a complete store");
            m.retain(|e| e.0 != *k);
            m.push((k.clone(), vec![0x99; 43]));
        } else {
            check(t.remove(k).must("remove failed on a complete store") == look(&m, k).is_some(), "remove misreports whether the key was present");
            m.retain(|e| e.0 != *k);
        }
    }
    let r2 = t.commit().must("commit failed on a complete store");
    check(r2.0 == ref_root(&m), "the root committed after taking a trie to a committed root is wrong");
    reads(&t, &m, &ks, "contents change at a commit");
    reads(&InnerTrie::new(w.db.clone()).at_root(r2), &m, &ks, "the trie committed after taking a trie to a committed root has other contents");
    obs(m.len() as u64);
}
/// an empty value is refused, and the attempt changes nothing
#[no_mangle]
pub extern "C-unwind" fn h_p01_empty() {
    let mut w = s_prefix(0);
    let k = match pick(0, 5) { 5 => vec![0x61, 0x66], i => w.pool[i as usize].clone() };
    check(w.t.insert(&k, &[]).is_err(), "an empty value is accepted");
    map(&w);
    root(&mut w);
    map(&w);
}
