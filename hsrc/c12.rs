//! C12 the reference store keeps an exact value history
use super::jm::*;
use super::sym::*;

type V = jmt::db::Version;
fn ver() -> u64 { u64::from_be_bytes([byte(), byte(), byte(), byte(), byte(), byte(), byte(), byte()]) }
struct M(Vec<Vec<(u64, Option<Vec<u8>>)>>);
impl M {
    fn put(&mut self, k: usize, v: u64, x: Option<Vec<u8>>) -> bool {
        if let Some(l) = self.0[k].last_mut() {
            if v < l.0 { return false; }
            if v == l.0 { l.1 = x; return true; }
        }
        self.0[k].push((v, x));
        true
    }
    fn get(&self, k: usize, v: u64) -> Option<Vec<u8>> {
        let mut r = None;
        for e in &self.0[k] { if e.0 <= v { r = e.1.clone(); } }
        r
    }
}
fn key(k: usize) -> KeyHash { KeyHash([7 + k as u8; 32]) }
fn write(db: &S, k: usize, v: u64, x: Option<Vec<u8>>) -> bool {
    let mut b = NodeBatch::default();
    b.extend([], [((v, key(k)), x)]);
    db.write_node_batch(&b).is_ok()
}
fn run(n: usize, keys: usize) {
    let db = S::default();
    check(VersionedDatabase::is_empty(&db) && VersionedDatabase::len(&db) == 0, "a new store is not empty");
    let mut m = M(vec![vec![]; keys + 1]);
    for i in 0..n {
        let (k, v) = (if keys == 1 { 0 } else { pick(0, keys as u8 - 1) as usize }, ver());
        let x = if pick(0, 1) == 1 { Some(vec![i as u8; i]) } else { None };
        let ok = write(&db, k, v, x.clone());
        let want = m.put(k, v, x);
        check(ok == want, if want { "a legal write was refused" } else { "a write backwards in version was accepted" });
        if want { reach("written"); } else { reach("refused"); }
    }
    let q = ver();
    for k in 0..=keys {
        let w = m.get(k, q);
        check(db.get_value_option(V::from(q), key(k)).must("lookup failed") == w, "lookup disagrees with the history");
        check(VersionedDatabase::get(&db, V::from(q), key(k)).must("lookup failed") == w, "lookup disagrees with the history");
        check(TreeReader::get_value(&db, V::from(q), key(k)).ok() == w, "get_value disagrees with the history");
    }
    let live = m.0.iter().filter(|h| h.last().map_or(false, |e| e.1.is_some())).count();
    check(VersionedDatabase::len(&db) == live, "len disagrees with the history");
    check(VersionedDatabase::is_empty(&db) == (live == 0), "is_empty disagrees with the history");
    let mut top = 0;
    for h in &m.0 { for e in h { if e.0 > top { top = e.0; } } }
    check(u64::from(VersionedDatabase::version(&db)) == top, "version is not the newest written");
    let mut seen = 0;
    for (k, h) in VersionedDatabase::value_history(&db) {
        let i = (k.0[0] - 7) as usize;
        check(h.len() == m.0[i].len(), "recorded history has the wrong length");
        for (a, b) in h.iter().zip(&m.0[i]) { check(u64::from(a.0) == b.0 && a.1 == b.1, "recorded history is wrong"); }
        seen += 1;
    }
    check(seen == m.0.iter().filter(|h| !h.is_empty()).count(), "recorded history names the wrong keys");
    obs(live as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_c12_one() { run(4, 1) }
#[no_mangle]
pub extern "C-unwind" fn h_c12_two() { run(3, 2) }
#[no_mangle]
pub extern "C-unwind" fn h_c12_five() { run(5, 1) }
/// several values in one batch, in any order of versions and keys
#[no_mangle]
pub extern "C-unwind" fn h_c12_batch() {
    let db = S::default();
    let base = ver();
    check(write(&db, 0, base, Some(vec![1])), "a first write was refused");
    let mut b = NodeBatch::default();
    let vs = [ver(), ver()];
    let k = pick(0, 1) as usize;
    assume(vs[0] >= base && vs[1] >= base);
    b.extend([], [((vs[0], key(k)), Some(vec![2])), ((vs[1], key(0)), None)]);
    b.insert_value(vs[0], key(1), vec![3]);
    check(!b.is_empty(), "a batch with values is empty");
    check(db.write_node_batch(&b).is_ok(), "a legal batch was refused");
    let mut m = M(vec![vec![]; 2]);
    m.put(0, base, Some(vec![1]));
    // the batch in order of version; entries for one key and version: the last one counts
    let mut es: Vec<(u64, usize, Option<Vec<u8>>)> = vec![];
    let mut add = |v: u64, k: usize, x: Option<Vec<u8>>| { for e in es.iter_mut() { if e.0 == v && e.1 == k { e.2 = x; return; } } es.push((v, k, x)); };
    add(vs[0], k, Some(vec![2]));
    add(vs[1], 0, None);
    add(vs[0], 1, Some(vec![3]));
    es.sort_by(|a, b| a.0.cmp(&b.0));
    for e in es { check(m.put(e.1, e.0, e.2), "model"); }
    let q = ver();
    for k in 0..2 { check(db.get_value_option(V::from(q), key(k)).must("lookup failed") == m.get(k, q), "lookup disagrees with the history"); }
    obs(1);
}
/// the tree's writes and reads, as seen by the store
#[no_mangle]
pub extern "C-unwind" fn h_c12_tree() {
    let w = scen_history(3, &mut |_| {});
    let q = ver();
    for k in &w.pool {
        let mut want = None;
        for (i, m) in w.model.iter().enumerate() { if w.v0 + i as u64 <= q { want = lookup(m, k).cloned(); } }
        check(w.db.get_value_option(V::from(q), *k).must("lookup failed") == want, "lookup disagrees with the history");
    }
    obs(w.cur().len() as u64);
}
/// the node side: leaves written one by one or in a batch together with their values, some of them refused
#[no_mangle]
pub extern "C-unwind" fn h_c12_nodes() {
    let db = S::default();
    let nk = |v: u64, path: u8| -> NodeKey {
        let mut b = v.to_le_bytes().to_vec();
        b.extend_from_slice(&1u64.to_le_bytes());
        b.extend_from_slice(&1u32.to_le_bytes());
        b.push(path << 4);
        borsh::BorshDeserialize::try_from_slice(&b).must("a node key does not decode")
    };
    if !layout() { return; }
    let mut m = M(vec![vec![]; 3]);
    let mut nodes: Vec<(NodeKey, KeyHash)> = vec![];
    for i in 0..3u8 {
        let (k, v, path) = (pick(0, 2) as usize, pick(0, 2) as u64 * 70000, pick(0, 1));
        let x = vec![i; 1 + i as usize];
        let leaf = || jmt::storage::LeafNode::new(key(k), jmt::ValueHash([i; 32]));
        let at = nk(v, path);
        let there = nodes.iter().any(|n| n.0 == at);
        let late = m.0[k].last().map_or(false, |e| v < e.0);
        let ok = match pick(0, 2) {
            0 => db.put_leaf(at.clone(), leaf(), x.clone()).is_ok(),
            1 => {
                // a value for another key comes along: it is kept exactly when the whole batch is
                assume(!there);
                let mut b = NodeBatch::default();
                check(b.is_empty(), "a new batch is not empty");
                b.insert_node(at.clone(), leaf().into());
                check(b.get_node(&at).is_some() && b.nodes().len() == 1 && b.values().is_empty(), "a batch loses its node");
                b.insert_value(v, key(k), x.clone());
                let o = (k + 1) % 3;
                let early = v / 2;
                b.insert_value(early, key(o), vec![9]);
                let late_o = m.0[o].last().map_or(false, |e| early < e.0);
                let ok = db.write_node_batch(&b).is_ok();
                check(ok == (!late && !late_o), "a batch is refused or accepted wrongly");
                if ok { m.put(o, early, Some(vec![9])); }
                if ok { reach("batch"); } else { reach("refused batch"); }
                ok
            }
            _ => { if late { check(!write(&db, k, v, Some(x.clone())), "a write backwards in version was accepted"); } continue }
        };
        check(ok || there || late || m.0[(k + 1) % 3].last().is_some(), "a legal write was refused");
        if there || late { check(!ok, "a write over a stored node or backwards in version was accepted"); }
        if ok { m.put(k, v, Some(x)); nodes.push((at, key(k))); }
    }
    // exactly what was accepted is there
    check(db.num_nodes() == nodes.len(), "a refused write leaves a node behind, or an accepted one none");
    for (a, k) in &nodes {
        match db.get_node_option(a).must("node lookup failed") { Some(Node::Leaf(l)) => check(l.key_hash() == *k, "another node is found"), _ => fail("a stored node is not found") }
    }
    let mut n = 0;
    for (a, _) in VersionedDatabase::nodes(&db) { check(nodes.iter().any(|x| x.0 == a), "a node is listed that was not stored"); n += 1; }
    check(n == nodes.len(), "not every stored node is listed");
    let top = nodes.iter().map(|x| x.1).max();
    check(db.get_rightmost_leaf().must("rightmost leaf lookup failed").map(|x| x.1.key_hash()) == top, "the rightmost leaf is not the one with the largest key");
    for k in 0..3 {
        for q in [0u64, 35000, 69999, 70000, 140000, u64::MAX] { check(db.get_value_option(V::from(q), key(k)).must("lookup failed") == m.get(k, q), "a refused write changes a value, or an accepted one is lost"); }
    }
    obs(n as u64);
}
/// the history on its own
#[no_mangle]
pub extern "C-unwind" fn h_c12_put() {
    let mut h = Default::default();
    let mut m = M(vec![vec![]; 2]);
    for i in 0..4usize {
        let (k, v) = (pick(0, 1) as usize, ver());
        let x = match pick(0, 2) { 0 => None, 1 => Some(vec![1]), _ => Some(vec![i as u8, 2]) };
        let ok = jmt::mock::put_value(&mut h, V::from(v), key(k), x.clone()).is_ok();
        check(ok == m.put(k, v, x), "the history accepts a write backwards in version or refuses another");
        if ok { reach("written"); } else { reach("refused"); }
    }
    for k in 0..2 {
        let e: Vec<(u64, Option<Vec<u8>>)> = h.get(&key(k)).map(|l| l.iter().map(|e| (u64::from(e.0), e.1.clone())).collect()).unwrap_or_default();
        check(e == m.0[k], "recorded history is wrong");
    }
    obs(m.0[0].len() as u64);
}
