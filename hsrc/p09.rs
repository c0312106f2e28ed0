//! P09 the in-memory store is a map, P10 copies of a trie are faithful and independent
use super::pm::*;
use super::sym::*;

// ---------------------------------------------------------------- P09
fn agrees(db: &MemoryDB, m: &[(B, B)], keys: &[B]) {
    for k in keys { check(db.get(k).must("get fails").as_ref() == look(m, k), "a store lookup disagrees with the writes"); }
    check(db.len().must("len fails") == m.len(), "the store miscounts its entries");
    check(db.is_empty().must("is_empty fails") == m.is_empty(), "the store misreports emptiness");
    let vs = db.values().must("values fails");
    check(vs.len() == m.len(), "values does not list every entry exactly once");
    for e in m { check(vs.iter().any(|v| v == e), "values does not list every entry exactly once"); }
    let t = InnerTrie::new(Arc::new(db.clone()));
    check(t.len() == m.len() && t.is_empty() == m.is_empty(), "the trie miscounts the nodes of its store");
}
fn mput(m: &mut Vec<(B, B)>, k: &B, v: B) { match m.iter_mut().find(|e| e.0 == *k) { Some(e) => e.1 = v, None => m.push((k.clone(), v)) } }
fn store(pool: Vec<B>, nops: usize) {
    let light = pick(0, 1) == 1;
    let db = MemoryDB::new(light);
    let mut m: Vec<(B, B)> = vec![];
    let n = pool.len();
    agrees(&db, &m, &pool);
    for j in 0..nops {
        let i = pick(0, n as u8 - 1) as usize;
        let k = pool[i].clone();
        let k2 = pool[(i + 1) % n].clone();
        // a copy of the store shares its contents
        let h = if pick(0, 1) == 1 { db.clone() } else { db.clone().clone() };
        match pick(0, 5) {
            0 => { let v = uniq(2, j); h.insert(&k, v.clone()).must("insert fails"); mput(&mut m, &k, v); }
            1 => { h.remove(&k).must("remove fails"); if light { m.retain(|e| e.0 != k); } }
            2 => {
                // different values, equal ones, one empty, one key twice, all keys, none
                let (a, b) = (uniq(1, 2 * j), uniq(3, 2 * j + 1));
                let e: Vec<(B, B)> = match pick(0, 5) {
                    0 => vec![(k.clone(), a), (k2.clone(), b)],
                    1 => vec![(k.clone(), a.clone()), (k2.clone(), a)],
                    2 => vec![(k.clone(), vec![]), (k2.clone(), b)],
                    3 => vec![(k.clone(), a), (k.clone(), b)],
                    4 => pool.iter().map(|k| (k.clone(), a.clone())).collect(),
                    _ => vec![],
                };
                h.insert_batch(e.iter().map(|x| x.0.clone()).collect(), e.iter().map(|x| x.1.clone()).collect()).must("insert_batch fails");
                for (k, v) in e { mput(&mut m, &k, v); }
            }
            3 => {
                let e: Vec<B> = match pick(0, 3) { 0 => vec![k.clone(), k2.clone()], 1 => vec![k.clone(), k.clone(), k2.clone()], 2 => pool.clone(), _ => vec![] };
                h.remove_batch(&e).must("remove_batch fails");
                if light { m.retain(|x| !e.contains(&x.0)); }
            }
            4 => { h.insert(&k, vec![]).must("insert fails"); mput(&mut m, &k, vec![]); }
            _ => h.flush().must("flush fails"),
        }
        agrees(&db, &m, &pool);
    }
    reach(if m.is_empty() { "empty" } else { "some" });
    obs(m.len() as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_p09_fixed() { store(vec![vec![], vec![1], vec![1, 0]], 3) }
#[no_mangle]
pub extern "C-unwind" fn h_p09_sym() {
    // any two short keys (equal or not) and a 32-byte one
    let a = vec![byte()];
    let b = if pick(0, 1) == 1 { vec![byte()] } else { vec![byte(), byte()] };
    let mut c = vec![7u8; 32];
    c[31] = byte();
    store(vec![a, b, c], 2)
}

// ---------------------------------------------------------------- P10
fn reads(t: &Tr, m: &[(B, B)], keys: &[B], label: &'static str) {
    for k in keys { check(t.get(k).must("lookup failed on a complete store").as_ref() == look(m, k), label); }
    let got: Vec<(B, B)> = t.iter().take(m.len() + 2).collect();
    check(got.len() == m.len() && m.iter().all(|e| got.contains(e)), label);
}
/// after cloning, an operation on one of the two leaves the other as it was (the store keeps old nodes)
fn clones(w: &mut PW) {
    let ks = probes(w);
    let mut c = w.t.clone();
    let before = w.m.clone();
    // the operation is done on the clone or on the original
    if pick(0, 1) == 1 { std::mem::swap(&mut c, &mut w.t); }
    w.any_op(33);
    reads(&w.t, &w.m, &ks, "the copy operated on has wrong contents");
    reads(&c, &before, &ks, "an operation on one copy of a trie shows in the other");
    check(c.commit().must("commit failed").0 == ref_root(&before), "an operation on one copy of a trie alters the root of the other");
    reads(&c, &before, &ks, "contents change at a commit");
    w.commit();
    check(w.roots.last().unwrap().0 .0 == ref_root(&w.m), "the root of a copy is wrong");
    obs(w.m.len() as u64);
}
/// a serialised trie: what it holds in memory comes back, what only its store holds is missing, never misread
fn serial(w: &mut PW) {
    let ks = probes(w);
    let d = bincode::serialize(&w.t).must("a trie does not serialise");
    let mut t: Tr = match bincode::deserialize(&d) { Ok(t) => t, Err(_) => fail("a serialised trie does not deserialise") };
    let fresh = w.roots.is_empty();
    for k in &ks {
        match t.get(k) {
            Ok(v) => check(v.as_ref() == look(&w.m, k), "a deserialised trie has other contents"),
            Err(TrieError::MissingTrieNode { .. }) => check(!fresh, "a deserialised trie misses a node it held in memory"),
            Err(_) => fail("a deserialised trie fails to read"),
        }
    }
    let d2 = bincode::serialize(&t).must("a trie does not serialise");
    check(d == d2, "serialising a deserialised trie gives another encoding");
    if fresh {
        let c = t.commit().must("committing a deserialised trie failed");
        check(c.0 == ref_root(&w.m), "the root of a deserialised trie is wrong");
        reads(&t, &w.m, &ks, "a deserialised trie has other contents after a commit");
        reach("in memory");
    } else {
        // committing knows the roots of the nodes it does not have
        if let Ok(c) = t.commit() { check(c.0 == ref_root(&w.m), "the root of a deserialised trie is wrong"); }
        reach("partly stored");
    }
    obs(w.m.len() as u64);
}
fn keep(mut w: PW) -> PW {
    // the same trie over a store that deletes nothing
    let db = Arc::new(MemoryDB::new(false));
    let mut t = InnerTrie::new(db.clone());
    for (k, v) in &w.m { t.insert(k, v).must("insert failed on a complete store"); }
    w.roots.clear();
    if pick(0, 1) == 1 { t.commit().must("commit failed"); }
    w.t = t; w.db = db; w.light = false;
    w
}
macro_rules! fam {
    ($o:ident: $($n:ident $s:expr;)*) => { $(#[no_mangle] pub extern "C-unwind" fn $n() { #[allow(unused_mut)] let mut w = $s; $o(&mut w); })* };
}
fam! { clones:
    h_p10_cloneprefix keep(s_prefix(0)); h_p10_clonesym keep(s_sym(0)); h_p10_clonelong keep(s_long(0)); h_p10_clonewide keep(s_wide(0)); h_p10_clonespine keep(s_spine(0)); }
fam! { serial:
    h_p10_prefix s_prefix(1); h_p10_sym s_sym(1); h_p10_long s_long(1); h_p10_wide s_wide(1); h_p10_value s_value(); h_p10_spine s_spine(1); h_p10_crowd s_crowd(); }
