//! C07 iteration
use super::jm::*;
use super::sym::*;

fn from(w: &W, v: u64, m: &[KV], start: KeyHash) {
    let it = JellyfishMerkleIterator::new(w.db.clone(), v, start).must("iterator failed");
    let got: Vec<KV> = it.map(|r| r.must("iteration failed")).collect();
    let want: Vec<KV> = m.iter().filter(|e| e.0 >= start).cloned().collect();
    check(got == want, "iteration from a key is not the live entries from it on");
    if want.len() < m.len() && !want.is_empty() { reach("proper suffix"); }
    if want.is_empty() { reach("nothing left"); }
}
fn iter_at(w: &W, i: usize) {
    let (m, v) = (&w.model[i], w.v0 + i as u64);
    let count = w.tree.get_leaf_count(v).must("leaf count failed");
    match VersionedTrie::iter(&w.tree, v) {
        Ok(it) => { let all: Vec<KV> = it.map(|r| r.must("iteration failed")).collect(); check(all == *m, "full iteration is not the live entries in key order"); }
        // starts by number, which a store of unknown leaf counts refuses
        Err(_) => check(w.legacy && (count.is_none() || !w.migration), "iter failed"),
    }
    check(count == if w.migration { Some(m.len()) } else { None } || w.legacy && count.is_none(), "leaf count wrong");
    let n = m.len();
    let mut idx = vec![0, 1, n / 2, n.wrapping_sub(1), n, n + 1, usize::MAX];
    if n <= 4 { idx.extend(2..n); }
    if n > 200 { idx = vec![0, n / 4, n - 40, n - 1, 255, 256, 257]; }
    for i in idx {
        let it = match JellyfishMerkleIterator::new_by_index(w.db.clone(), v, i) {
            Ok(it) => it,
            // a store of unknown leaf counts cannot find an entry by its number
            Err(_) => { check(w.legacy && (count.is_none() || !w.migration), "index iterator failed"); reach("unknown count"); continue }
        };
        let got: Vec<KV> = it.map(|r| r.must("iteration failed")).collect();
        check(got.as_slice() == if i < n { &m[i..] } else { &[] }, "iteration from an index is not the entries from it on");
    }
    // after the end, an iterator stays at the end
    let mut it = JellyfishMerkleIterator::new(w.db.clone(), v, KeyHash([0; 32])).must("iterator failed");
    for _ in 0..n { check(matches!(it.next(), Some(Ok(_))), "iterator ends early"); }
    check(it.next().is_none() && it.next().is_none(), "iterator continues after its end");
    obs(n as u64);
}
fn iter(w: &W) {
    for i in 0..w.versions() {
        iter_at(w, i);
        let (m, v) = (&w.model[i], w.v0 + i as u64);
        for k in few(&w.pool, 6) {
            from(w, v, m, *k);
            // just above and just below
            let mut a = *k;
            a.0[31] = a.0[31].wrapping_add(1);
            from(w, v, m, a);
            let mut b = *k;
            b.0[31] = b.0[31].wrapping_sub(1);
            from(w, v, m, b);
        }
        from(w, v, m, KeyHash([0; 32]));
        from(w, v, m, KeyHash([0xff; 32]));
    }
}
/// any start key that differs from a pool key in a byte near the top or at the end
fn start(w: &W) {
    let i = w.versions() - 1;
    let mut k = w.pool[pick(0, 1) as usize];
    match pick(0, 2) { 0 => k.0[0] = kbyte(), 1 => k.0[1] = kbyte(), _ => k.0[31] = byte() }
    from(w, w.v0 + i as u64, &w.model[i], k);
    obs(i as u64);
}
all! { iter:
    h_c07_flat scen_flat(&mut |_| {});
    h_c07_history scen_history(4, &mut |_| {});
    h_c07_churn scen_churn(&mut |_| {});
    h_c07_bulk scen_bulk(&mut |_| {});
    h_c07_deep scen_deep(&mut |_| {});
    h_c07_lasting scen_lasting(14, &mut |_| {});
    h_c07_spine scen_spine(&mut |_| {});
    h_c07_legacy scen_legacy(&mut |_| {});
    h_c07_big scen_big(20, &mut |_| {});
    h_c07_crowd scen_crowd(300, &mut |_| {});
    h_c07_routes scen_routes(&mut |_| {});
    h_c07_restored scen_restored(&mut |_| {});
}
fn iter_wide(w: &W) { iter_at(w, 0); iter_at(w, 1); start(w); }
all! { iter_wide: h_c07_wide scen_wide(&mut |_| {}); h_c07_full scen_full(&mut |_| {}); }
all! { start: h_c07_start scen_churn(&mut |_| {}); h_c07_startdeep scen_deep(&mut |_| {}); }
