//! C15 bulk and incremental updates are interchangeable
use super::jm::*;
use super::sym::*;

fn base(v0: u64, with: bool) -> (W, Vec<KeyHash>) {
    let mut w = W::new(v0);
    let ks = vec![KeyHash([0x21; 32]), key_at(1, 0x2f, 0x21), key_at(0, 0xc1, 0x21), key_at(31, 0x20, 0x21)];
    w.pool = ks.clone();
    if with { w.apply(vec![(ks[0], Some(b"base0".to_vec())), (ks[2], Some(b"base2".to_vec()))]); }
    (w, ks)
}
/// the same sets applied in chunks of the given sizes
fn apply_split(w: &mut W, sets: &[Set], split: &[usize]) {
    let mut i = 0;
    for n in split { w.apply_many(sets[i..i + n].to_vec()); i += n; }
}
fn merged(w: &W) -> TreeUpdateBatch {
    let mut t = TreeUpdateBatch::default();
    for b in &w.batches {
        t.node_batch.merge(b.node_batch.clone());
        t.stale_node_index_batch.extend(b.stale_node_index_batch.iter().cloned());
        t.node_stats.extend(b.node_stats.iter().cloned());
    }
    t
}
fn same(sets: &[Set], v0: u64, with: bool, split: &[usize], pool: &[KeyHash]) {
    let (mut a, _) = base(v0, with);
    let (mut b, _) = base(v0, with);
    for s in sets { a.apply(s.clone()); }
    apply_split(&mut b, sets, split);
    check(a.roots == b.roots, "bulk and one-by-one updates give different roots");
    let (x, y) = (merged(&a), merged(&b));
    check(x.node_batch.nodes() == y.node_batch.nodes(), "bulk and one-by-one updates persist different nodes");
    check(x.node_batch.values() == y.node_batch.values(), "bulk and one-by-one updates persist different values");
    check(x.stale_node_index_batch == y.stale_node_index_batch, "bulk and one-by-one updates retire different nodes");
    check(x.node_stats == y.node_stats, "bulk and one-by-one updates give different statistics");
    check(a.db.num_nodes() == b.db.num_nodes(), "bulk and one-by-one updates leave different stores");
    a.pool = pool.to_vec();
    b.pool = pool.to_vec();
    for i in 0..a.versions() { check(snap(&a, v0 + i as u64) == snap(&b, v0 + i as u64), "bulk and one-by-one updates are observably different"); check(a.roots[i] == ref_root(&a.model[i]), "published root is not the sparse Merkle root of the contents"); }
    obs(a.versions() as u64);
}
const SPLITS: [&[usize]; 4] = [&[3], &[1, 2], &[2, 1], &[1, 1, 1]];
fn symset(ks: &[KeyHash], v: u64, ops: usize) -> Set {
    let mut s = vec![];
    for j in 0..ops {
        let n = ks.len() as u8;
        let o = pick(0, 2 * n);
        if o == 2 * n { continue; }
        let k = ks[(o % n) as usize];
        s.push((k, if o < n { Some(val(v, j + o as usize)) } else { None }));
    }
    s
}
/// three versions of one operation each
#[no_mangle]
pub extern "C-unwind" fn h_c15_ops() {
    let v0 = [0u64, 41][pick(0, 1) as usize];
    let with = pick(0, 1) == 1;
    let (_, ks) = base(0, false);
    let sets: Vec<Set> = (0..3).map(|v| symset(&ks[..3], v, 1)).collect();
    same(&sets, v0, with, SPLITS[pick(0, 2) as usize], &ks);
}
/// two versions of two operations each (repeats on one key included)
#[no_mangle]
pub extern "C-unwind" fn h_c15_pairs() {
    let (_, ks) = base(0, false);
    let sets: Vec<Set> = (0..2).map(|v| symset(&ks[..3], v, 2)).collect();
    same(&sets, 5, pick(0, 1) == 1, &[2], &ks);
}
/// symbolic keys
#[no_mangle]
pub extern "C-unwind" fn h_c15_keys() {
    let mut ks = sorted_keys(2, 0, 0x21, true);
    ks.push(key_at(1, 0x2f, 0x21));
    let sets: Vec<Set> = (0..3).map(|v| symset(&ks, v, 1)).collect();
    same(&sets, 0, pick(0, 1) == 1, &[3], &ks);
}
/// deep splits and re-merges
#[no_mangle]
pub extern "C-unwind" fn h_c15_deep() {
    let ks = vec![KeyHash([0x21; 32]), key_at(31, 0x20, 0x21), key_at(16, 0x61, 0x21)];
    let sets: Vec<Set> = (0..3).map(|v| symset(&ks, v, 1)).collect();
    same(&sets, 0, true, SPLITS[pick(0, 2) as usize], &ks);
}
/// the order of the operations on distinct keys inside a set does not matter
#[no_mangle]
pub extern "C-unwind" fn h_c15_order() {
    let ks = sorted_keys(3, 0, 0x66, true);
    let first: Set = ks.iter().enumerate().filter(|_| pick(0, 1) == 1).map(|(i, k)| (*k, Some(val(0, i)))).collect();
    let mut s: Set = vec![];
    for (i, k) in ks.iter().enumerate() { match pick(0, 2) { 0 => {} 1 => s.push((*k, Some(val(1, i)))), _ => s.push((*k, None)) } }
    let mut a = W::new(0);
    let mut b = W::new(0);
    for w in [&mut a, &mut b] { w.apply(first.clone()); w.pool = ks.clone(); }
    a.apply(s.clone());
    let n = s.len();
    if n > 0 { s.rotate_left(1); }
    b.apply(s);
    check(a.roots == b.roots, "the order inside a set changes the root");
    check(snap(&a, 1) == snap(&b, 1), "the order inside a set is observable");
    obs(n as u64);
}

// ---------------------------------------------------------------- the other batch entry point
fn batch(sets: Vec<Vec<(KeyHash, Vec<u8>)>>, with: bool, pool: &[KeyHash], migration: bool) {
    let (mut a, _) = base(0, with);
    let (mut b, _) = base(0, with);
    if !migration { b.tree = T::new_migration(b.db.clone(), false); }
    a.pool = pool.to_vec();
    b.pool = pool.to_vec();
    for s in &sets { a.apply(s.iter().map(|(k, v)| (*k, Some(v.clone()))).collect()); }
    let first = b.next();
    let again = sets.clone();
    let (roots, tb) = b.tree.batch_put_value_sets(sets, None, first).must("batch update failed on a complete store");
    // the same with the hashes of the new nodes given
    {
        let maps: Vec<_> = (0..again.len() as u64).map(|i| {
            tb.node_batch.nodes().iter().filter(|(k, _)| k.version() == first + i).map(|(k, n)| {
                let h = match n { Node::Internal(i) => i.hash(), Node::Leaf(l) => l.hash(), Node::Null => PLACEHOLDER };
                (borsh::BorshDeserialize::try_from_slice(&enc(k)[8..]).must("a nibble path does not decode"), h)
            }).collect()
        }).collect();
        let (r2, t2) = b.tree.batch_put_value_sets(again, Some(maps.iter().collect()), first).must("batch update with given hashes failed");
        check(r2 == roots, "giving the node hashes changes the root");
        check(t2 == tb, "giving the node hashes changes the update");
    }
    b.db.update_batch(tb.clone()).must("store rejected the update batch");
    b.roots.extend(roots);
    b.batches.push(tb);
    b.model = a.model.clone();
    check(a.roots == b.roots, "the batch entry point gives different roots");
    check(merged(&a).node_batch.values() == merged(&b).node_batch.values(), "the batch entry point persists different values");
    for i in 0..a.versions() { check(snap(&a, i as u64) == snap(&b, i as u64), "the batch entry point is observably different"); check(a.roots[i] == ref_root(&a.model[i]), "published root is not the sparse Merkle root of the contents"); }
    if migration {
        // what it reports stale can be purged
        let last = b.last();
        let s = snap(&b, last);
        check(b.db.purge_stale_nodes(last).is_ok(), "purging what a batch reported stale fails");
        check(s == snap(&b, last), "purging what a batch reported stale changes the retained version");
    }
    obs(a.cur().len() as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_c15_batch() {
    let mut ks = sorted_keys(2, 0, 0x21, true);
    ks.push(key_at(1, 0x2f, 0x21));
    let with = pick(0, 1) == 1;
    let n = pick(1, 2);
    let sets = (0..n as u64).map(|v| {
        let m = pick(1, 7);
        (0..3).filter(|i| m >> i & 1 == 1).map(|i| (ks[i], val(v, i))).collect()
    }).collect();
    batch(sets, with, &ks, pick(0, 1) == 1);
}
/// keys with long shared prefixes on top of a leaf, an inner node, or nothing; repeats: the last one counts
#[no_mangle]
pub extern "C-unwind" fn h_c15_batchdeep() {
    let (_, ks) = base(0, false);
    let pos = [1usize, 2, 16, 31][pick(0, 3) as usize];
    let mut pool = ks.clone();
    pool.push(key_at(pos, kbyte(), 0x21));
    pool.push(key_at(pos, kbyte(), 0x21));
    let with = pick(0, 1) == 1;
    let mut first = vec![(pool[4], b"x".to_vec()), (pool[3], b"y".to_vec())];
    if pick(0, 1) == 1 { first.push((pool[4], b"again".to_vec())); }
    batch(vec![first, vec![(pool[5], b"z".to_vec()), (pool[0], b"".to_vec())]], with, &pool, true);
}
