//! C05 immutability of published versions, C06 pruning and statistics
use super::jm::*;
use super::sym::*;

/// collects a snapshot of every version when it is published and compares it after every later one
fn watch(scen: impl FnOnce(Hook) -> W) {
    let mut snaps: Vec<Snap> = vec![];
    let mut w = scen(&mut |w: &W| {
        for (i, s) in snaps.iter().enumerate() {
            let n = snap(w, w.v0 + i as u64);
            check(n.root == s.root, "an earlier root changed");
            check(n.vals == s.vals, "an earlier value or proof changed");
            check(n.iter == s.iter, "an earlier iteration changed");
            reach("compared");
        }
        for i in snaps.len()..w.versions() {
            let s = snap(w, w.v0 + i as u64);
            check(s.root == w.roots[i], "stored root differs from the published one");
            snaps.push(s);
        }
        obs(snaps.len() as u64);
    });
    // one more update that touches everything
    let s: Set = w.pool.iter().enumerate().map(|(i, k)| (*k, if i % 2 == 0 { Some(b"zz".to_vec()) } else { None })).collect();
    w.apply(s);
    for (i, s) in snaps.iter().enumerate() { check(*s == snap(&w, w.v0 + i as u64), "a later update changed an earlier version"); }
}
macro_rules! with { ($f:ident: $($n:ident $s:expr;)*) => { $(#[no_mangle] pub extern "C-unwind" fn $n() { $f($s); })* }; }
with! { watch:
    h_c05_flat |h: Hook| scen_flat(h);
    h_c05_deep |h: Hook| scen_deep(h);
    h_c05_lasting |h: Hook| scen_lasting(10, h);
    h_c05_spine |h: Hook| scen_spine(h);
    h_c05_history |h: Hook| scen_history(4, h);
    h_c05_churn |h: Hook| scen_churn(h);
    h_c05_bulk |h: Hook| scen_bulk(h);
    h_c05_wide |h: Hook| scen_wide(h);
    h_c05_big |h: Hook| scen_big(24, h);
    h_c05_crowd |h: Hook| scen_crowd(300, h);
    h_c05_symhist |h: Hook| scen_symhist(4, h);
    h_c05_routes |h: Hook| scen_routes(h);
    h_c05_restored |h: Hook| scen_restored(h);
}

fn prune(w: &W) {
    // bookkeeping of every batch against what the versions really reference
    let mut retired: BTreeSet<NodeKey> = BTreeSet::new();
    let mut prev: BTreeSet<NodeKey> = BTreeSet::new();
    let mut stats = w.batches.iter().flat_map(|b| b.node_stats.iter());
    for i in 0..w.versions() {
        let v = w.v0 + i as u64;
        let b = w.batches.iter().find(|b| root_key(b, v).is_some()).must("no batch writes a root for a version");
        let cur = reachable(&w.db, &root_key(b, v).unwrap());
        let new: BTreeSet<NodeKey> = b.node_batch.nodes().keys().filter(|k| k.version() == v).cloned().collect();
        let stale: BTreeSet<NodeKey> = b.stale_node_index_batch.iter().filter(|s| s.stale_since_version == v).map(|s| s.node_key.clone()).collect();
        for k in &new { check(cur.contains(k), "a version writes a node it does not reference"); }
        for k in &cur { check(prev.contains(k) || new.contains(k), "a version references a node that was neither new nor in the version before"); }
        for k in &stale {
            check(!cur.contains(k), "a node reported stale is still referenced");
            check(k.version() < v, "a node is stale in the version that creates it");
            check(retired.insert(k.clone()), "a node is retired twice");
            check(w.db.get_node_option(k).must("store read failed").is_some(), "a stale entry names a node that is not stored");
        }
        for k in &prev { check(cur.contains(k) || stale.contains(k), "a node dropped by a version is not reported stale"); }
        let leaves = |s: &BTreeSet<NodeKey>| s.iter().filter(|k| matches!(w.db.get_node_option(k), Ok(Some(Node::Leaf(_))))).count();
        let st = stats.next().must("statistics missing for a version");
        check(st.new_nodes == new.len(), "new node count wrong");
        check(st.new_leaves == leaves(&new), "new leaf count wrong");
        check(st.stale_nodes == stale.len(), "stale node count wrong");
        check(st.stale_leaves == leaves(&stale), "stale leaf count wrong");
        if !stale.is_empty() { reach("stale"); }
        obs(stale.len() as u64);
        prev = cur;
    }
    check(stats.next().is_none(), "too many statistics");
    // purge up to a version: that version and all later ones stay as they were
    let keep = pick(0, (w.versions() - 1) as u8) as usize;
    let before: Vec<Snap> = (keep..w.versions()).map(|i| snap(w, w.v0 + i as u64)).collect();
    let n = w.db.num_nodes();
    check(w.db.purge_stale_nodes(w.v0 + keep as u64).is_ok(), "purging fails");
    let gone: usize = w.batches.iter().map(|b| b.stale_node_index_batch.iter().filter(|s| s.stale_since_version <= w.v0 + keep as u64).count()).sum();
    check(w.db.num_nodes() + gone == n, "purging removed the wrong number of nodes");
    for (i, s) in before.iter().enumerate() { check(*s == snap(w, w.v0 + (keep + i) as u64), "purging changed a retained version"); }
    // and updates on top of the retained latest version still work
    let mut m = w.cur();
    let set: Set = vec![(w.pool[0], Some(b"after".to_vec())), (w.pool[w.pool.len() - 1], None)];
    model_apply(&mut m, &set);
    let (root, _) = w.tree.put_value_set(set, w.next()).must("update after purging failed");
    check(root == ref_root(&m), "update after purging gives a wrong root");
}
all! { prune:
    h_c06_flat scen_flat(&mut |_| {});
    h_c06_deep scen_deep(&mut |_| {});
    h_c06_lasting scen_lasting(12, &mut |_| {});
    h_c06_spine scen_spine(&mut |_| {});
    h_c06_legacy scen_legacy(&mut |_| {});
    h_c06_history scen_history(4, &mut |_| {});
    h_c06_churn scen_churn(&mut |_| {});
    h_c06_bulk scen_bulk(&mut |_| {});
    h_c06_wide scen_wide(&mut |_| {});
    h_c06_big scen_big(24, &mut |_| {});
    h_c06_crowd scen_crowd(300, &mut |_| {});
    h_c06_symhist scen_symhist(4, &mut |_| {});
    h_c06_routes scen_routes(&mut |_| {});
}
