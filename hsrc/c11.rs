//! C11 stored and transmitted data survives encoding
use super::jm::*;
use super::sym::*;
use super::c04::P;
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::{SparseMerkleLeafNode, SparseMerkleRangeProof};

fn back<B: BorshSerialize + BorshDeserialize + PartialEq>(x: &B, label: &'static str) -> Vec<u8> {
    let e = enc(x);
    check(B::try_from_slice(&e).ok().as_ref() == Some(x), label);
    e
}
fn back2<B: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(x: &B, label: &'static str) {
    let e = bincode::serialize(x).must("encoding failed");
    check(bincode::deserialize::<B>(&e).ok().as_ref() == Some(x), label);
}
fn data(w: &W) {
    for b in &w.batches {
        back(b, "an update batch is changed by encoding");
        back(&b.node_batch, "a node batch is changed by encoding");
        let mut ks: Vec<Vec<u8>> = vec![];
        for (k, n) in b.node_batch.nodes() {
            let e = back(k, "a node key is changed by encoding");
            for o in &ks { check(*o != e, "two node keys have the same encoding"); }
            ks.push(e);
            back(n, "a node is changed by encoding");
            back2(k, "a node key is changed by its serde encoding");
            back2(n, "a node is changed by its serde encoding");
            match n { Node::Leaf(_) => reach("leaf"), Node::Internal(_) => reach("inner"), Node::Null => reach("null") }
        }
        for s in &b.stale_node_index_batch { back(s, "a stale index is changed by encoding"); reach("stale"); }
        for s in &b.node_stats { back(s, "statistics are changed by encoding"); }
        for (k, _) in b.node_batch.values() { back(&k.1, "a key hash is changed by encoding"); back2(&k.1, "a key hash is changed by its serde encoding"); }
    }
    for (i, m) in w.model.iter().enumerate() {
        let v = w.v0 + i as u64;
        back2(&w.roots[i], "a root hash is changed by its serde encoding");
        for k in &w.pool {
            let (x, p) = w.tree.get_with_proof(*k, v).must("get_with_proof failed");
            let q = P::try_from_slice(&enc(&p)).must("a proof does not decode");
            check(q.leaf() == p.leaf() && q.siblings() == p.siblings(), "a proof is changed by encoding");
            check(q.verify(w.roots[i], *k, x).is_ok(), "a decoded proof does not verify");
            if let Some(l) = p.leaf() { back::<SparseMerkleLeafNode>(&l, "a proof leaf is changed by encoding"); back2(&l, "a proof leaf is changed by its serde encoding"); }
            if lookup(m, k).is_some() {
                let r: SparseMerkleRangeProof = w.tree.get_range_proof(*k, v).must("range proof failed");
                back(&r, "a range proof is changed by encoding");
                back2(&r, "a range proof is changed by its serde encoding");
                reach("range proof");
            }
        }
    }
    // a batch that went through bytes serves a second store just as well
    let db = S::default();
    for b in &w.batches { db.update_batch(TreeUpdateBatch::try_from_slice(&enc(b)).must("a batch does not decode")).must("a decoded batch is refused"); }
    let t = T::new(Arc::new(db));
    for i in 0..w.versions() {
        let v = w.v0 + i as u64;
        check(t.get_root_hash(v).ok() == Some(w.roots[i]), "a store filled from decoded batches has another root");
        for k in &w.pool { check(t.get_with_proof(*k, v).must("get_with_proof failed").0.as_ref() == lookup(&w.model[i], k), "a store filled from decoded batches has other contents"); }
    }
    obs(w.batches.len() as u64);
}
all! { data:
    h_c11_flat scen_flat(&mut |_| {});
    h_c11_history scen_history(3, &mut |_| {});
    h_c11_symhist scen_symhist(3, &mut |_| {});
    h_c11_churn scen_churn(&mut |_| {});
    h_c11_bulk scen_bulk(&mut |_| {});
    h_c11_deep scen_deep(&mut |_| {});
    h_c11_spine scen_spine(&mut |_| {});
    h_c11_wide scen_wide(&mut |_| {});
    h_c11_full scen_full(&mut |_| {});
    h_c11_big scen_big(12, &mut |_| {});
    h_c11_crowd scen_crowd(300, &mut |_| {});
    h_c11_routes scen_routes(&mut |_| {});
}
fn u64s() -> u64 { u64::from_be_bytes([byte(), byte(), byte(), byte(), byte(), byte(), byte(), byte()]) }
/// version numbers and bytes
#[no_mangle]
pub extern "C-unwind" fn h_c11_version() {
    type V = jmt::db::Version;
    let (x, y) = (u64s(), u64s());
    let a = V::from(x);
    let ab: Vec<u8> = a.into();
    let bb: Vec<u8> = V::from(y).into();
    check(V::from(ab.clone()) == a, "a version is changed by its byte form");
    check(u64::from(a) == x && u64::from(V::from(&x)) == x, "a version is changed by its number");
    check((ab == bb) == (x == y), "different versions have the same bytes");
    check((V::from(x) < V::from(y)) == (x < y), "versions are not ordered as their numbers");
    check((ab < bb) == (x < y), "the bytes of versions are not ordered as their numbers");
    obs(1);
}
/// one leaf, any first version, any value
#[no_mangle]
pub extern "C-unwind" fn h_c11_symversion() {
    let v0 = u64s();
    assume(v0 < u64::MAX - 4);
    let mut w = W::new(v0);
    w.pool = vec![KeyHash([0x12; 32]), key_at(1, 0x19, 0x12)];
    w.apply(vec![(w.pool[0], Some(vec![byte(), 1]))]);
    w.apply(vec![(w.pool[pick(0, 1) as usize], if pick(0, 1) == 1 { Some(vec![byte()]) } else { None })]);
    data(&w);
}
/// arbitrary nodes, node keys and batches: whatever decodes, encodes back to the same bytes
#[no_mangle]
pub extern "C-unwind" fn h_c11_nodekey() {
    // version and path length symbolic, path bytes symbolic
    let mut b: Vec<u8> = (0..8).map(|_| byte()).collect();
    let n = pick(0, 4) as usize;
    b.extend_from_slice(&(n as u64).to_le_bytes());
    let bytes = (n + 1) / 2;
    b.extend_from_slice(&(bytes as u32).to_le_bytes());
    for _ in 0..bytes { b.push(byte()); }
    if n % 2 == 1 { let l = b.len() - 1; b[l] &= 0xf0; }
    let k = NodeKey::try_from_slice(&b).must("a node key does not decode");
    check(back(&k, "a node key is changed by encoding") == b, "a node key encodes to other bytes than it came from");
    back2(&k, "a node key is changed by its serde encoding");
    check(k.version() == u64::from_le_bytes(b[..8].try_into().unwrap()), "a node key's version is changed by encoding");
    obs(n as u64);
}
/// any inner node: children of every kind at any 64-bit versions with any leaf counts, known or not
#[no_mangle]
pub extern "C-unwind" fn h_c11_node() {
    let le = |x: u64| x.to_le_bytes();
    let mut b = vec![1u8];
    let mut n = 0u64;
    let mut known = vec![];
    let at = [[0usize, 7], [8, 15], [3, 4]][pick(0, 2) as usize];
    for i in 0..16 {
        if !at.contains(&i) { b.push(0); continue; }
        b.push(1);
        let mut h = [i as u8; 32];
        h[0] = byte();
        h[31] = byte();
        b.extend_from_slice(&h);
        let v = u64s();
        b.extend_from_slice(&le(v));
        let k = pick(0, 2);
        b.push(k);
        let c = u64s();
        if k == 2 { b.extend_from_slice(&le(c)); }
        known.push((i, h, v, k, c));
        n += 1;
    }
    b.extend_from_slice(&le(n));
    let total = if pick(0, 1) == 1 { Some(u64s()) } else { None };
    match total { Some(t) => { b.push(1); b.extend_from_slice(&le(t)); } None => b.push(0) }
    b.push(pick(0, 1));
    if !layout() { return; }
    let x = Node::try_from_slice(&b).must("an inner node does not decode");
    check(back(&x, "a node is changed by encoding") == b, "a node encodes to other bytes than it came from");
    back2(&x, "a node is changed by its serde encoding");
    let i = match &x { Node::Internal(i) => i, _ => fail("decoding changed the kind of a node") };
    check(i.leaf_count() == total.map(|t| t as usize), "a leaf count is changed by encoding");
    for (j, h, v, k, c) in known {
        let ch = i.child((j as u8).into()).must("a child is lost by encoding");
        check(ch.hash == h && ch.version == v, "a child is changed by encoding");
        check(ch.is_leaf() == (k == 0) && ch.leaf_count() == match k { 0 => Some(1), 1 => None, _ => Some(c as usize) }, "a child's leaf count is changed by encoding");
    }
    check(i.children_sorted().count() as u64 == n, "children are lost or added by encoding");
    reach("any inner node");
    obs(n);
}
/// any leaf node, any stale index, any statistics
#[no_mangle]
pub extern "C-unwind" fn h_c11_records() {
    let le = |x: u64| x.to_le_bytes();
    let mut l = vec![2u8];
    for _ in 0..64 { l.push(byte()); }
    if !layout() { return; }
    let x = Node::try_from_slice(&l).must("a leaf does not decode");
    check(back(&x, "a node is changed by encoding") == l, "a node encodes to other bytes than it came from");
    back2(&x, "a node is changed by its serde encoding");
    match &x { Node::Leaf(f) => check(f.key_hash().0[..] == l[1..33], "a leaf's key is changed by encoding"), _ => fail("decoding changed the kind of a node") }
    // stale index: version, node key
    let mut s = vec![];
    let (since, v) = (u64s(), u64s());
    s.extend_from_slice(&le(since));
    s.extend_from_slice(&le(v));
    s.extend_from_slice(&le(2));
    s.extend_from_slice(&1u32.to_le_bytes());
    s.push(byte());
    let i = StaleNodeIndex::try_from_slice(&s).must("a stale index does not decode");
    check(back(&i, "a stale index is changed by encoding") == s, "a stale index encodes to other bytes than it came from");
    check(i.stale_since_version == since && i.node_key.version() == v, "a stale index is changed by encoding");
    let mut t = vec![];
    let c: Vec<u64> = (0..4).map(|_| u64s()).collect();
    for x in &c { t.extend_from_slice(&le(*x)); }
    let st = NodeStats::try_from_slice(&t).must("statistics do not decode");
    check(back(&st, "statistics are changed by encoding") == t, "statistics encode to other bytes than they came from");
    reach("any record");
    check(c == [st.new_nodes as u64, st.new_leaves as u64, st.stale_nodes as u64, st.stale_leaves as u64], "statistics are changed by encoding");
    obs(1);
}
