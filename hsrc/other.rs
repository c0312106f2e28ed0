//! A tree over a hasher of the user's own: value hashes (and the proofs about them) are that hasher's, nodes are
//! hashed as documented
use super::jm::*;
use super::sym::*;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::{ExclusionProof, JellyfishMerkleTree, SimpleHasher};

#[derive(Clone, Debug)]
pub struct Kh(Vec<u8>);
impl SimpleHasher for Kh {
    fn new() -> Self { Kh(vec![]) }
    fn update(&mut self, data: &[u8]) { self.0.extend_from_slice(data) }
    fn finalize(self) -> [u8; 32] { super::pm::kec(&self.0) }
}
type KT = JellyfishMerkleTree<S, Kh>;
fn kleaf(e: &KV) -> [u8; 32] {
    let mut m = b"JMT::LeafNode".to_vec();
    m.extend_from_slice(&e.0 .0);
    m.extend_from_slice(&super::pm::kec(&e.1));
    sha(&m)
}
fn ksub(kvs: &[KV], d: usize) -> [u8; 32] {
    if kvs.is_empty() { return PLACEHOLDER; }
    if kvs.len() == 1 { return kleaf(&kvs[0]); }
    let s = kvs.iter().take_while(|e| !bit(&e.0, d)).count();
    inner_hash(ksub(&kvs[..s], d + 1), ksub(&kvs[s..], d + 1))
}
struct KW { db: Arc<S>, t: KT, pool: Vec<KeyHash>, models: Vec<Vec<KV>>, roots: Vec<RootHash> }
fn kworld() -> KW {
    let db = Arc::new(S::default());
    let pos = [0usize, 2, 31][pick(0, 2) as usize];
    let mut pool = sorted_keys(2, pos, 0x77, true);
    pool.push(key_at(if pos == 0 { 1 } else { pos - 1 }, 0x7f, 0x77));
    let mut w = KW { t: KT::new(db.clone()), db, pool, models: vec![], roots: vec![] };
    let mut m: Vec<KV> = vec![];
    for v in 0..2u64 {
        let set: Set = if v == 0 {
            let n = [0b001u8, 0b011, 0b111, 0b101][pick(0, 3) as usize];
            (0..3).filter(|i| n >> i & 1 == 1).map(|i| (w.pool[i], Some(val(0, i)))).collect()
        } else {
            let o = pick(0, 6) as usize;
            if o == 6 { vec![] } else { vec![(w.pool[o % 3], if o < 3 { Some(val(1, o)) } else { None })] }
        };
        model_apply(&mut m, &set);
        let batch_way = v == 0 && pick(0, 1) == 1;
        let (r, b) = if batch_way {
            let kv = set.into_iter().map(|(k, x)| (k, x.unwrap())).collect();
            let (r, b) = w.t.batch_put_value_sets(vec![kv], None, v).must("batch update failed on a complete store");
            (r[0], b)
        } else { w.t.put_value_set(set, v).must("update failed on a complete store") };
        w.db.update_batch(b).must("store rejected the update batch");
        w.models.push(m.clone());
        w.roots.push(r);
    }
    w
}
/// root, reads, proofs of presence and absence, neighbours
#[no_mangle]
pub extern "C-unwind" fn h_c03_hasher() {
    let w = kworld();
    for v in 0..2usize {
        let (m, root) = (&w.models[v], w.roots[v]);
        check(root.0 == ksub(m, 0), "the root of a tree with another hasher is not the sparse Merkle root of its contents");
        let mut keys = w.pool.clone();
        keys.push(KeyHash([0x31; 32]));
        for k in keys {
            let want = lookup(m, &k);
            let (got, p) = w.t.get_with_proof(k, v as u64).must("get_with_proof failed");
            check(got.as_ref() == want, "get_with_proof returns the wrong value");
            check(p.verify(root, k, got).is_ok(), "honest proof rejected");
            check(w.t.verify_proof(k, v as u64, root, p.clone()).is_ok(), "verify_proof rejects an honest proof");
            match want {
                Some(x) => {
                    check(p.verify_existence(root, k, x).is_ok(), "honest existence proof rejected");
                    check(p.verify_existence(root, k, b"another value").is_err(), "proof accepted for another value");
                    check(p.verify_nonexistence(root, k).is_err(), "existence proof accepted as non-existence");
                    check(p.root_hash() == root, "root recomputed from an inclusion proof differs");
                    reach("present");
                }
                None => {
                    check(p.verify_nonexistence(root, k).is_ok(), "honest non-existence proof rejected");
                    check(p.verify_existence(root, k, b"x").is_err(), "non-existence proof accepted as existence");
                    reach("absent");
                    if m.is_empty() { continue; }
                    let right = m.iter().find(|e| e.0 > k);
                    let left = m.iter().rev().find(|e| e.0 < k);
                    let (a, b) = match w.t.get_with_exclusion_proof(k, v as u64).must("exclusion proof query failed") {
                        Ok(_) => fail("exclusion proof query confuses presence and absence"),
                        Err(ExclusionProof::Leftmost { leftmost_right_proof: r }) => (None, Some(r)),
                        Err(ExclusionProof::Rightmost { rightmost_left_proof: l }) => (Some(l), None),
                        Err(ExclusionProof::Middle { leftmost_right_proof: r, rightmost_left_proof: l }) => (Some(l), Some(r)),
                    };
                    for (p, e) in [(a, left), (b, right)] {
                        match (p, e) {
                            (Some(p), Some(e)) => check(p.verify_existence(root, e.0, &e.1).is_ok(), "a neighbour's proof does not verify"),
                            (None, None) => {}
                            _ => fail("a neighbour is missing or made up"),
                        }
                    }
                }
            }
        }
    }
    obs(w.models[1].len() as u64);
}
/// the same restored in chunks
#[no_mangle]
pub extern "C-unwind" fn h_c08_hasher() {
    let w = kworld();
    let v = pick(0, 1) as usize;
    let (m, root) = (&w.models[v], w.roots[v]);
    assume(!m.is_empty());
    let db = Arc::new(S::default());
    let mut r = JellyfishMerkleRestore::<Kh>::new(db.clone(), 4, root, true).must("restore cannot be opened");
    let n = pick(1, 2) as usize;
    for c in m.chunks(n) {
        let p = w.t.get_range_proof(c[c.len() - 1].0, v as u64).must("range proof failed");
        check(r.add_chunk(c.to_vec(), p).is_ok(), "honest chunk rejected");
        if pick(0, 1) == 1 && m.len() > n { reach("several"); }
    }
    check(Box::new(r).finish_box().is_ok(), "finishing a complete restore fails");
    let t = KT::new(db.clone());
    check(t.get_root_hash(4).must("restored root unreadable") == root, "restored tree has another root");
    for k in &w.pool {
        let (a, p) = t.get_with_proof(*k, 4).must("restored key unreadable");
        check(a.as_ref() == lookup(m, k), "restored value differs");
        check(p.verify(root, *k, a).is_ok(), "a proof of the restored tree does not verify");
    }
    obs(m.len() as u64);
}
