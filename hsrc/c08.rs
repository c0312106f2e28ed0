//! C08 chunked restore, C09 rejection of anything that is not the committed tree
use super::jm::*;
use super::sym::*;
use jmt::proof::SparseMerkleRangeProof;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};

type R = JellyfishMerkleRestore<jmt::Sha256>;

/// the restored store holds exactly the source's latest version, and can be updated further
fn same(w: &W, db: &Arc<S>, target: u64) {
    let (v, m) = (w.last(), w.cur());
    let t = Sha256Jmt::new(db.clone());
    check(t.get_root_hash(target).must("restored root unreadable") == *w.roots.last().unwrap(), "restored tree has another root");
    check(t.get_leaf_count(target).must("restored leaf count unreadable") == Some(m.len()), "restored leaf count differs");
    let it: Vec<KV> = JellyfishMerkleIterator::new(db.clone(), target, KeyHash([0; 32])).must("restored tree not iterable").map(|r| r.must("iteration of the restored tree failed")).collect();
    check(it == m, "restored tree iterates other entries");
    let ix: Vec<usize> = (0..m.len()).collect();
    for i in few(&ix, 8) {
        let i = *i;
        let it: Vec<KV> = JellyfishMerkleIterator::new_by_index(db.clone(), target, i).must("restored tree not iterable by index").map(|r| r.must("iteration of the restored tree failed")).collect();
        check(it.as_slice() == &m[i..], "restored tree iterates other entries from an index");
    }
    for k in few(&w.pool, 40) {
        let (a, p) = t.get_with_proof(*k, target).must("restored key unreadable");
        let (b, q) = w.tree.get_with_proof(*k, v).must("source key unreadable");
        check(a == b, "restored value differs");
        check(p.leaf() == q.leaf() && p.siblings() == q.siblings(), "restored proof differs");
    }
    let mut n = m.clone();
    let set: Set = vec![(w.pool[0], Some(b"after".to_vec())), (w.pool[w.pool.len() - 1], None)];
    model_apply(&mut n, &set);
    let (r, b) = t.put_value_set(set, target.wrapping_add(1)).must("update of the restored tree failed");
    check(r == ref_root(&n), "update of the restored tree gives a wrong root");
    db.update_batch(b).must("store rejected the update of the restored tree");
    let it: Vec<KV> = JellyfishMerkleIterator::new(db.clone(), target.wrapping_add(1), KeyHash([0; 32])).must("updated tree not iterable").map(|r| r.must("iteration of the updated tree failed")).collect();
    check(it == n, "updated restored tree iterates other entries");
}
fn open(db: &Arc<S>, target: u64, root: RootHash) -> R { open_as(db, target, root, true) }
fn open_as(db: &Arc<S>, target: u64, root: RootHash, migration: bool) -> R { R::new(db.clone(), target, root, migration).must("restore cannot be opened") }

fn restore_to(w: &W, target: u64, maxchunk: usize) {
    let (v, all) = (w.last(), w.cur());
    let root = *w.roots.last().unwrap();
    let db = Arc::new(S::default());
    let migration = target != 900 || pick(0, 1) == 0;
    let mut r = open_as(&db, target, root, migration);
    let mut i = 0;
    let mut crashes = 0;
    while i < all.len() {
        let take = pick(1, (all.len() - i).min(maxchunk) as u8) as usize;
        let chunk = all[i..i + take].to_vec();
        let proof = w.tree.get_range_proof(chunk[take - 1].0, v).must("range proof failed");
        check(r.add_chunk(chunk, proof).is_ok(), "honest chunk rejected");
        i += take;
        if crashes < 2 && pick(0, 1) == 1 {
            crashes += 1;
            drop(r);
            r = open_as(&db, target, root, migration);
            i = match db.get_rightmost_leaf().must("store read failed") {
                None => 0,
                Some((_, l)) => all.iter().position(|e| e.0 == l.key_hash()).must("a foreign leaf was stored") + 1,
            };
            if i > 0 && i < all.len() { reach("resumed in the middle"); }
        }
    }
    check(r.finish().is_ok(), "finishing a complete restore fails");
    if all.len() > 1 { reach("several"); }
    obs(i as u64);
    same(w, &db, target);
    // a restore opened again after it has finished must not crash
    let _ = R::new(db.clone(), target, root, migration);
}
fn restore0(w: &W) { restore_to(w, 0, 3); }
fn restore9(w: &W) { restore_to(w, 900, 2); }
/// a restored pre-genesis state is the base of the update to version 0
fn restore_pre(w: &W) {
    let all = w.cur();
    let root = *w.roots.last().unwrap();
    let db = Arc::new(S::default());
    let mut r = open(&db, u64::MAX, root);
    for c in all.chunks(2) { check(r.add_chunk(c.to_vec(), w.tree.get_range_proof(c[c.len() - 1].0, w.last()).must("range proof failed")).is_ok(), "honest chunk rejected"); }
    check(r.finish().is_ok(), "finishing a complete restore fails");
    let t = Sha256Jmt::new(db.clone());
    check(t.get_root_hash(u64::MAX).must("restored root unreadable") == root, "restored tree has another root");
    let mut n = all.clone();
    let i = pick(0, w.pool.len() as u8 - 1) as usize;
    let set: Set = vec![(w.pool[i], if flag() { Some(b"after".to_vec()) } else { None })];
    let effective = set[0].1.is_some() || lookup(&n, &set[0].0).is_some();
    model_apply(&mut n, &set);
    let (r, _) = t.put_value_set(set, 0).must("update of the restored tree failed");
    check(r == ref_root(&n), "update of the restored tree gives a wrong root");
    obs(effective as u64);
}
all! { restore0:
    h_c08_flat scen_flat(&mut |_| {});
    h_c08_symhist scen_symhist(2, &mut |_| {});
}
all! { restore9:
    h_c08_deep scen_deep(&mut |_| {});
    h_c08_churn scen_churn(&mut |_| {});
    h_c08_spine scen_spine(&mut |_| {});
}
all! { restore_pre: h_c08_pregenesis scen_churn(&mut |_| {}); }

/// a larger tree: symbolic chunk size, one interruption anywhere
fn restore_big(w: &W) {
    let (v, all) = (w.last(), w.cur());
    let root = *w.roots.last().unwrap();
    let db = Arc::new(S::default());
    let mut r = open(&db, 5, root);
    let big = all.len() > 100;
    let size = if big { [60usize, 127, 256, 300] } else { [1, 2, 3, 7] }[pick(0, 3) as usize];
    let crash = if big { [0, 61, all.len()][pick(0, 2) as usize] } else { pick(0, all.len() as u8) as usize };
    let (mut i, mut c) = (0, false);
    while i < all.len() {
        let take = size.min(all.len() - i);
        let proof = w.tree.get_range_proof(all[i + take - 1].0, v).must("range proof failed");
        check(r.add_chunk(all[i..i + take].to_vec(), proof).is_ok(), "honest chunk rejected");
        i += take;
        if !c && i >= crash {
            c = true;
            drop(r);
            r = open(&db, 5, root);
            i = match db.get_rightmost_leaf().must("store read failed") { None => 0, Some((_, l)) => all.iter().position(|e| e.0 == l.key_hash()).must("a foreign leaf was stored") + 1 };
        }
    }
    check(Box::new(r).finish_box().is_ok(), "finishing a complete restore fails");
    same(w, &db, 5);
    obs(size as u64);
}
fn big_world() -> W { scen_seeded(16) }
all! { restore_big: h_c08_big big_world(); h_c08_crowd scen_crowd(300, &mut |_| {}); }
fn wide_world() -> W {
    let mut w = scen_wide(&mut |_| {});
    w.pool.truncate(16);
    w
}
fn restore_wide(w: &W) {
    let all = w.cur();
    let db = Arc::new(S::default());
    let root = *w.roots.last().unwrap();
    let mut r = open(&db, 3, root);
    for c in all.chunks(4) { check(r.add_chunk(c.to_vec(), w.tree.get_range_proof(c[c.len() - 1].0, w.last()).must("range proof failed")).is_ok(), "honest chunk rejected"); }
    check(r.finish().is_ok(), "finishing a complete restore fails");
    same(w, &db, 3);
    obs(all.len() as u64);
}
all! { restore_wide: h_c08_wide wide_world(); }
/// overwrite mode on a store that already holds another tree at the same version
#[no_mangle]
pub extern "C-unwind" fn h_c08_overwrite() {
    let db = Arc::new(S::new(true));
    for round in 0..2 {
        let mut w = W::new(0);
        w.pool = sorted_keys(3, 0, if round == 0 { 0x13 } else { 0x14 }, false);
        w.apply((0..3).map(|i| (w.pool[i], Some(val(round, i)))).collect());
        let mut r = R::new_overwrite(db.clone(), 4, w.roots[0], true).must("overwriting restore cannot be opened");
        let all = w.cur();
        let cut = pick(1, 3) as usize;
        for c in [&all[..cut], &all[cut..]] {
            if c.is_empty() { continue; }
            check(r.add_chunk(c.to_vec(), w.tree.get_range_proof(c[c.len() - 1].0, 0).must("range proof failed")).is_ok(), "honest chunk rejected");
        }
        check(r.finish().is_ok(), "finishing a complete restore fails");
        let t = Sha256Jmt::new(db.clone());
        check(t.get_root_hash(4).must("restored root unreadable") == w.roots[0], "restored tree has another root");
        for e in &all { check(t.get_with_proof(e.0, 4).must("restored key unreadable").0.as_ref() == Some(&e.1), "restored value differs"); }
        obs(cut as u64);
    }
}

// ---------------------------------------------------------------- C09
fn contents(db: &S) -> (usize, usize) { (db.num_nodes(), db.value_history().map(|(_, h)| h.len()).sum()) }
fn arbitrary_proof(n: usize, free: bool) -> SparseMerkleRangeProof {
    let mut b = (n as u32).to_le_bytes().to_vec();
    for i in 0..n { for j in 0..32 { b.push(if free { byte() } else { (i * 7 + j) as u8 }); } }
    <SparseMerkleRangeProof as borsh::BorshDeserialize>::try_from_slice(&b).must("range proof encoding")
}
/// whatever the chunk and the proof: accepted only if the chunk is exactly the next entries
fn judge(w: &W, db: &Arc<S>, mut r: R, next: &[KV], chunk: Vec<KV>, proof: SparseMerkleRangeProof) {
    let before = contents(db);
    let exact = chunk.len() <= next.len() && chunk.as_slice() == &next[..chunk.len()];
    let complete = chunk.len() == next.len();
    match r.add_chunk(chunk, proof) {
        Ok(()) => {
            check(exact, "a chunk that is not the next entries was accepted");
            reach("accepted");
            if !complete { check(r.finish().is_err(), "an incomplete restore finished"); reach("finished early"); }
            else { check(r.finish().is_ok(), "finishing a complete restore fails"); check(Sha256Jmt::new(db.clone()).get_root_hash(0).must("restored root unreadable") == *w.roots.last().unwrap(), "restored tree has another root"); }
        }
        Err(_) => {
            check(contents(db) == before, "a rejected chunk reached the store");
            // the honest continuation offered to the same receiver is accepted or refused, never mixed up
            if !next.is_empty() && pick(0, 1) == 1 {
                let proof = w.tree.get_range_proof(next[next.len() - 1].0, w.last()).must("range proof failed");
                if r.add_chunk(next.to_vec(), proof).is_ok() { reach("recovered after a rejection"); } else { check(contents(db) == before, "a rejected chunk reached the store"); }
                reach("continued after a rejection");
            }
            let before = contents(db);
            // a genuine tail whose proof was bad may still complete the tree; anything else must not finish
            match r.finish() {
                Err(_) => check(contents(db) == before, "a rejected chunk reached the store when finishing"),
                Ok(()) => {
                    reach("completed without a chunk proof");
                    let t = Sha256Jmt::new(db.clone());
                    check(t.get_root_hash(0).must("restored root unreadable") == *w.roots.last().unwrap(), "a restore with another root finished");
                    let it: Vec<KV> = JellyfishMerkleIterator::new(db.clone(), 0, KeyHash([0; 32])).must("restored tree not iterable").map(|r| r.must("iteration of the restored tree failed")).collect();
                    check(it == w.cur(), "a restore with other entries finished");
                    check(contents(db).1 == it.len(), "a rejected value reached the store");
                }
            }
            reach("rejected");
        }
    }
    obs(exact as u64);
}
fn tamper(w: &W) {
    let all = w.cur();
    let root = *w.roots.last().unwrap();
    let db = Arc::new(S::default());
    let mut r = open(&db, 0, root);
    if all.is_empty() { return; }
    let j = pick(0, all.len() as u8 - 1) as usize;
    if j > 0 { check(r.add_chunk(all[..j].to_vec(), w.tree.get_range_proof(all[j - 1].0, w.last()).must("range proof failed")).is_ok(), "honest chunk rejected"); }
    let mut j = j;
    if j > 0 && pick(0, 1) == 1 {
        // interrupted and re-opened before the altered chunk arrives
        drop(r);
        r = open(&db, 0, root);
        j = match db.get_rightmost_leaf().must("store read failed") { None => 0, Some((_, l)) => all.iter().position(|e| e.0 == l.key_hash()).must("a foreign leaf was stored") + 1 };
        if j > 0 { reach("reopened"); }
    }
    let mut c = all[j..].to_vec();
    let n = c.len();
    match pick(0, 7) {
        0 => { let i = pick(0, n as u8 - 1) as usize; c[i].1.push(byte()); }
        1 => { c.remove(pick(0, n as u8 - 1) as usize); }
        2 => { let mut k = c[0].0; k.0[0] = kbyte(); k.0[31] ^= 1; let at = pick(0, n as u8) as usize; c.insert(at, (k, vec![1])); }
        3 => { if n > 1 { let i = pick(0, n as u8 - 2) as usize; c.swap(i, i + 1); } }
        4 => { let i = pick(0, n as u8 - 1) as usize; c[i].0 .0[31] = byte(); }
        5 => { let i = pick(0, n as u8 - 1) as usize; let e = c[i].clone(); c.insert(i, e); }
        6 => { if j > 0 { c.insert(0, all[j - 1].clone()); } else { c.truncate(1); } }
        _ => {}
    }
    // the proof that would be honest for the last entry of the original list, or for the last of the chunk
    let key = if pick(0, 1) == 1 { all[all.len() - 1].0 } else { match c.last() { Some(e) if lookup(&all, &e.0).is_some() => e.0, _ => all[j].0 } };
    let proof = w.tree.get_range_proof(key, w.last()).must("range proof failed");
    judge(w, &db, r, &all[j..], c, proof);
}
fn world3() -> W {
    let mut w = W::new(0);
    w.pool = sorted_keys(2, 0, 0x32, false);
    w.pool.push(key_at(1, 0x3a, 0x32));
    w.apply((0..3).map(|i| (w.pool[i], Some(val(0, i)))).collect());
    w
}
all! { tamper:
    h_c09_tamper world3();
    h_c09_deep { let mut w = W::new(0); w.pool = vec![KeyHash([0x32; 32]), key_at(31, 0x33, 0x32), key_at(3, 0xb2, 0x32)]; w.apply((0..3).map(|i| (w.pool[i], Some(val(0, i)))).collect()); w };
}
/// any siblings at all in the accompanying proof, together with any altered or foreign entry
fn forge(w: &W) {
    let all = w.cur();
    let db = Arc::new(S::default());
    let mut r = open(&db, 0, *w.roots.last().unwrap());
    let j = pick(0, 1) as usize;
    if j > 0 { check(r.add_chunk(all[..j].to_vec(), w.tree.get_range_proof(all[j - 1].0, w.last()).must("range proof failed")).is_ok(), "honest chunk rejected"); }
    let len = pick(1, (all.len() - j) as u8) as usize;
    let mut c = all[j..j + len].to_vec();
    match pick(0, 2) {
        0 => {}
        1 => { let i = pick(0, len as u8 - 1) as usize; c[i].1 = vec![byte(), byte()]; }
        _ => { let mut k = c[len - 1].0; k.0[0] = kbyte(); k.0[1] = kbyte(); c[len - 1] = (k, vec![byte()]); }
    }
    let n = pick(0, 3) as usize;
    judge(w, &db, r, &all[j..], c, arbitrary_proof(n, true));
}
all! { forge: h_c09_forge world3(); }

/// the reference store, one of whose writes fails
#[derive(Clone, Default)]
pub struct Refuses { inner: S, left: Arc<std::sync::atomic::AtomicUsize> }
impl TreeReader for Refuses {
    type Version = jmt::db::Version;
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> { self.inner.get_node_option(k) }
    fn get_value_option(&self, v: jmt::db::Version, k: KeyHash) -> anyhow::Result<Option<Vec<u8>>> { self.inner.get_value_option(v, k) }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> { self.inner.get_rightmost_leaf() }
}
impl TreeWriter for Refuses {
    fn write_node_batch(&self, b: &NodeBatch) -> anyhow::Result<()> {
        use std::sync::atomic::Ordering::SeqCst;
        let n = self.left.load(SeqCst);
        if n > 0 { self.left.store(n - 1, SeqCst); }
        if n == 1 { return Err(anyhow::anyhow!("fault")); }
        self.inner.write_node_batch(b)
    }
}
/// a write of the store fails: the call that needed it says so, nothing of the chunk is stored, and the restore
/// opened again goes on from the last entry that is
fn restore_fault(w: &W) {
    let (v, all) = (w.last(), w.cur());
    assume(!all.is_empty());
    let root = *w.roots.last().unwrap();
    let db = Arc::new(Refuses::default());
    let reopen = || R::new(db.clone(), 900, root, true).must("restore cannot be opened");
    let next = || match db.get_rightmost_leaf().must("store read failed") { None => 0, Some((_, l)) => all.iter().position(|e| e.0 == l.key_hash()).must("a foreign leaf was stored") + 1 };
    db.left.store(pick(1, all.len() as u8 + 1) as usize, std::sync::atomic::Ordering::SeqCst);
    let size = pick(1, 2) as usize;
    let mut r = reopen();
    let (mut i, mut done) = (0, false);
    for _ in 0..3 * all.len() + 3 {
        if i < all.len() {
            let take = size.min(all.len() - i);
            let proof = w.tree.get_range_proof(all[i + take - 1].0, v).must("range proof failed");
            let before: Vec<_> = VersionedDatabase::nodes(&db.inner).collect();
            match r.add_chunk(all[i..i + take].to_vec(), proof) {
                Ok(()) => i += take,
                Err(_) => {
                    check(VersionedDatabase::nodes(&db.inner).collect::<Vec<_>>() == before, "a chunk reported as failed was stored");
                    reach("chunk failed");
                    r = reopen();
                    i = next();
                }
            }
        } else {
            match r.finish() {
                Ok(()) => { done = true; break }
                Err(_) => { check(Sha256Jmt::new(Arc::new(db.inner.clone())).get_root_hash_option(900).must("store read failed").is_none(), "a restore reported as failed was finished"); reach("finish failed"); r = reopen(); i = next(); }
            }
        }
    }
    check(done, "a restore never ends after a fault of the store");
    same(w, &Arc::new(db.inner.clone()), 900);
    obs(all.len() as u64);
}
all! { restore_fault: h_c08_fault scen_churn(&mut |_| {}); h_c08_faultdeep scen_deep(&mut |_| {}); }
