//! C14 missing storage is reported, never misread
use super::jm::*;
use super::sym::*;
use anyhow::Result;
use jmt::proof::SparseMerkleRangeProof;
use jmt::reader::Preimage;
use jmt::ExclusionProof;

/// the reference store with one node, or one key's values, gone or unreadable
#[derive(Clone, Debug, Default)]
pub struct Lossy { inner: S, node: Option<NodeKey>, value: Option<KeyHash>, fault: bool }
impl Lossy {
    fn lost<X>(&self) -> Result<Option<X>> { if self.fault { Err(anyhow::anyhow!("fault")) } else { Ok(None) } }
}
impl TreeReader for Lossy {
    type Version = jmt::db::Version;
    fn get_node_option(&self, k: &NodeKey) -> Result<Option<Node>> { if self.node.as_ref() == Some(k) { return self.lost(); } self.inner.get_node_option(k) }
    fn get_value_option(&self, v: jmt::db::Version, k: KeyHash) -> Result<Option<Vec<u8>>> { if self.value == Some(k) { return self.lost(); } self.inner.get_value_option(v, k) }
    fn get_rightmost_leaf(&self) -> Result<Option<(NodeKey, LeafNode)>> { self.inner.get_rightmost_leaf() }
}
impl VersionedDatabase for Lossy {
    type Version = jmt::db::Version;
    type NodeIter = <S as VersionedDatabase>::NodeIter;
    type HistoryIter = <S as VersionedDatabase>::HistoryIter;
    fn get(&self, v: jmt::db::Version, k: KeyHash) -> Result<Option<Vec<u8>>> { self.get_value_option(v, k) }
    fn update_batch(&self, b: TreeUpdateBatch) -> Result<()> { self.inner.update_batch(b) }
    fn nodes(&self) -> Self::NodeIter { VersionedDatabase::nodes(&self.inner) }
    fn value_history(&self) -> Self::HistoryIter { VersionedDatabase::value_history(&self.inner) }
}
impl HasPreimage for Lossy { fn preimage(&self, k: KeyHash) -> Result<Option<Preimage>> { self.inner.preimage(k) } }
type L = Sha256Jmt<Lossy>;

fn same_or_err<X: PartialEq>(got: Result<X>, want: &X, label: &'static str) {
    match got { Ok(x) => { check(x == *want, label); reach("unaffected"); } Err(_) => reach("reported") }
}
fn proof_of<R: TreeReader + VersionedDatabase>(t: &Sha256Jmt<R>, k: KeyHash, v: u64) -> Result<(Option<Vec<u8>>, Option<jmt::proof::SparseMerkleLeafNode>, Vec<[u8; 32]>)> {
    t.get_with_proof(k, v).map(|(x, p)| (x, p.leaf(), p.siblings().to_vec()))
}
fn excl_of<R: TreeReader + VersionedDatabase>(t: &Sha256Jmt<R>, k: KeyHash, v: u64) -> Result<Vec<Option<jmt::proof::SparseMerkleLeafNode>>> {
    t.get_with_exclusion_proof(k, v).map(|r| match r {
        Ok((_, p)) => vec![p.leaf()],
        Err(ExclusionProof::Leftmost { leftmost_right_proof: p }) => vec![None, p.leaf()],
        Err(ExclusionProof::Rightmost { rightmost_left_proof: p }) => vec![p.leaf(), None],
        Err(ExclusionProof::Middle { leftmost_right_proof: p, rightmost_left_proof: q }) => vec![q.leaf(), p.leaf(), None],
    })
}
fn walk(it: Result<JellyfishMerkleIterator<Lossy>>, want: &[KV], label: &'static str) {
    let it = match it { Ok(i) => i, Err(_) => { reach("reported"); return; } };
    let mut n = 0;
    for x in it {
        match x {
            Ok(e) => { check(n < want.len() && e == want[n], label); n += 1; }
            Err(_) => { reach("reported while iterating"); return; }
        }
    }
    check(n == want.len(), "iteration omits entries instead of reporting the missing node");
}
fn hidden(w: &W, v: u64) -> Lossy {
    let b = w.batches.iter().find(|b| root_key(b, v).is_some()).must("no batch writes a root for a version");
    let nodes: Vec<NodeKey> = reachable(&w.db, &root_key(b, v).unwrap()).into_iter().collect();
    let i = pick(0, (nodes.len() + w.pool.len() - 1) as u8) as usize;
    let (inner, fault) = ((*w.db).clone(), pick(0, 1) == 1);
    if i < nodes.len() { Lossy { inner, node: Some(nodes[i].clone()), value: None, fault } } else { Lossy { inner, node: None, value: Some(w.pool[i - nodes.len()]), fault } }
}
/// reads of one version with something of that version gone
fn reads(w: &W) {
    let i = pick(0, (w.versions() - 1) as u8) as usize;
    let (v, m) = (w.v0 + i as u64, &w.model[i]);
    let db = Arc::new(hidden(w, v));
    let t = L::new_migration(db.clone(), w.migration);
    same_or_err(t.get_root_hash(v), &w.roots[i], "a wrong root");
    match t.get_root_hash_option(v) {
        Ok(Some(r)) => check(r == w.roots[i], "a wrong root"),
        Ok(None) => { check(!db.fault, "a fault of the store is taken for a version never written"); reach("reported") }
        Err(_) => reach("reported"),
    }
    same_or_err(t.get_leaf_count(v), &w.tree.get_leaf_count(v).must("leaf count failed"), "a wrong leaf count");
    for k in &w.pool {
        let want = proof_of(&w.tree, *k, v).must("get_with_proof failed");
        check(want.0.as_ref() == lookup(m, k), "get_with_proof disagrees with the map");
        same_or_err(proof_of(&t, *k, v), &want, "a wrong value or proof");
        let mut a = *k;
        a.0[31] ^= 1;
        for q in [*k, a] { if !m.is_empty() { same_or_err(excl_of(&t, q, v), &excl_of(&w.tree, q, v).must("exclusion proof failed"), "a wrong exclusion proof"); } }
        let r: Result<SparseMerkleRangeProof> = t.get_range_proof(*k, v);
        match w.tree.get_range_proof(*k, v) { Ok(p) => same_or_err(r, &p, "a wrong range proof"), Err(_) => check(r.is_err(), "a range proof for an absent key") }
        let rest: Vec<KV> = m.iter().filter(|e| e.0 >= *k).cloned().collect();
        walk(JellyfishMerkleIterator::new(db.clone(), v, *k), &rest, "iteration yields something else");
    }
    walk(JellyfishMerkleIterator::new(db.clone(), v, KeyHash([0; 32])), m, "iteration yields something else");
    walk(VersionedTrie::iter(&t, v), m, "iteration yields something else");
    if m.len() > 1 { walk(JellyfishMerkleIterator::new_by_index(db.clone(), v, 1), &m[1..], "iteration yields something else"); }
    obs(m.len() as u64);
}
/// an update on a version with a node gone (an update whose base has no root starts from nothing: not a missing node)
fn updates(w: &W) {
    let v = w.last();
    let db = hidden(w, v);
    if let (Some(k), false) = (&db.node, db.fault) { assume(*k != root_key(w.batches.last().unwrap(), v).must("no root")); }
    let t = L::new_migration(Arc::new(db), w.migration);
    let k = w.pool[pick(0, w.pool.len() as u8 - 1) as usize];
    let set: Set = vec![(k, if pick(0, 1) == 1 { Some(b"new".to_vec()) } else { None })];
    let (root, batch) = w.tree.put_value_set(set.clone(), v + 1).must("update failed on a complete store");
    match t.put_value_set(set.clone(), v + 1) {
        Ok((r, b)) => { check(r == root, "an update computes a wrong root"); check(b == batch, "an update computes a wrong batch"); reach("unaffected"); }
        Err(_) => reach("reported"),
    }
    if let Some(x) = &set[0].1 {
        let (r1, b1) = w.tree.batch_put_value_sets(vec![vec![(k, x.clone())]], None, v + 1).must("update failed on a complete store");
        match t.batch_put_value_sets(vec![vec![(k, x.clone())]], None, v + 1) {
            Ok((r, b)) => { check(r == r1, "a batch update computes a wrong root"); check(b == b1, "a batch update computes a wrong batch"); }
            Err(_) => reach("reported"),
        }
    }
    obs(w.cur().len() as u64);
}
/// versions before the first and after the last
fn unwritten(w: &W) {
    let v = match pick(0, 3) { 0 => w.next(), 1 => w.next() + 1, 2 => u64::MAX - 1, _ => { assume(w.v0 > 0); w.v0.saturating_sub(1) } };
    check(w.tree.get_root_hash(v).is_err(), "a version never written has a root");
    check(matches!(w.tree.get_root_hash_option(v), Ok(None)), "a version never written has a root");
    check(w.tree.get_leaf_count(v).is_err(), "a version never written has a leaf count");
    for k in &w.pool {
        check(w.tree.get_with_proof(*k, v).is_err(), "a version never written answers a query");
        check(w.tree.get_proof(*k, v).is_err(), "a version never written answers a query");
        check(w.tree.get_with_exclusion_proof(*k, v).is_err(), "a version never written answers a query");
        check(w.tree.get_range_proof(*k, v).is_err(), "a version never written answers a query");
        check(JellyfishMerkleIterator::new(w.db.clone(), v, *k).is_err(), "a version never written can be iterated");
    }
    check(VersionedTrie::iter(&w.tree, v).is_err(), "a version never written can be iterated");
    check(JellyfishMerkleIterator::new_by_index(w.db.clone(), v, 7).is_err(), "a version never written can be iterated");
    obs(1);
}
all! { reads:
    h_c14_flat scen_flat(&mut |_| {});
    h_c14_history scen_history(3, &mut |_| {});
    h_c14_symhist scen_symhist(2, &mut |_| {});
    h_c14_churn scen_churn(&mut |_| {});
    h_c14_deep scen_deep(&mut |_| {});
    h_c14_lasting scen_lasting(8, &mut |_| {});
    h_c14_spine scen_spine(&mut |_| {});
    h_c14_wide scen_wide(&mut |_| {});
    h_c14_big scen_seeded(14);
    h_c14_routes scen_routes(&mut |_| {});
}
all! { updates:
    h_c14_uflat scen_flat(&mut |_| {});
    h_c14_uhistory scen_history(3, &mut |_| {});
    h_c14_uchurn scen_churn(&mut |_| {});
    h_c14_udeep scen_deep(&mut |_| {});
    h_c14_uspine scen_spine(&mut |_| {});
    h_c14_ubig scen_seeded(14);
    h_c14_uroutes scen_routes(&mut |_| {});
}
all! { unwritten: h_c14_unwritten scen_history(3, &mut |_| {}); h_c14_unwrittenkeys scen_symhist(2, &mut |_| {}); }
