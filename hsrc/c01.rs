//! C01 versioned map, C02 canonical root
use super::jm::*;
use super::sym::*;

/// every key of the pool, and a never written one, read back at every version
fn reads(w: &W) {
    let mut keys = w.pool.clone();
    keys.push(KeyHash([0xfe; 32]));
    for (i, m) in w.model.iter().enumerate() {
        let v = w.v0 + i as u64;
        for k in &keys {
            let want = lookup(m, k);
            check(VersionedTrie::get(&w.tree, *k, v).must("get failed").as_ref() == want, "get disagrees with the map");
            check(w.tree.contains(*k, v).must("contains failed") == want.is_some(), "contains disagrees with the map");
            let (got, _) = w.tree.get_with_proof(*k, v).must("get_with_proof failed");
            check(got.as_ref() == want, "get_with_proof disagrees with the map");
            check(w.db.get_value_option(v.into(), *k).must("store lookup failed").as_ref() == want, "store lookup disagrees with the map");
            if want.is_some() { reach("present"); } else { reach("absent"); }
            obs(got.map(|x| x.len() as u64 + 1).unwrap_or(0));
        }
    }
    let m = w.model.last().unwrap();
    check(VersionedTrie::len(&w.tree) == m.len(), "len disagrees with the map");
    check(VersionedTrie::is_empty(&w.tree) == m.is_empty(), "is_empty disagrees with the map");
    // the latest version with any recorded write
    let wrote = (0..w.versions()).rev().find(|i| w.batches.iter().any(|b| b.node_batch.values().keys().any(|k| k.0 == w.v0 + *i as u64)));
    check(VersionedTrie::version(&w.tree) == wrote.map(|i| w.v0 + i as u64).unwrap_or(0), "version is not the latest written");
}
all! { reads:
    h_c01_flat scen_flat(&mut |_| {});
    h_c01_deep scen_deep(&mut |_| {});
    h_c01_lasting scen_lasting(14, &mut |_| {});
    h_c01_spine scen_spine(&mut |_| {});
    h_c01_legacy scen_legacy(&mut |_| {});
    h_c01_history scen_history(5, &mut |_| {});
    h_c01_churn scen_churn(&mut |_| {});
    h_c01_bulk scen_bulk(&mut |_| {});
    h_c01_wide scen_wide(&mut |_| {});
    h_c01_full scen_full(&mut |_| {});
    h_c01_big scen_big(40, &mut |_| {});
    h_c01_crowd scen_crowd(300, &mut |_| {});
    h_c01_symhist scen_symhist(4, &mut |_| {});
    h_c01_routes scen_routes(&mut |_| {});
}

fn roots(w: &W) {
    for (i, m) in w.model.iter().enumerate() {
        let v = w.v0 + i as u64;
        let want = ref_root(m);
        check(w.roots[i] == want, "published root is not the sparse Merkle root of the contents");
        check(w.tree.get_root_hash(v).must("root of a published version unreadable") == want, "stored root differs from the published one");
        check(w.tree.get_root_hash_option(v).must("root of a published version unreadable") == Some(want), "stored root differs from the published one");
        for j in 0..i { check((w.roots[i] == w.roots[j]) == (*m == w.model[j]), "roots equal without equal contents (or the reverse)"); }
        if m.is_empty() { reach("empty"); }
        if m.len() == 1 { reach("one"); }
        if m.len() > 2 { reach("many"); }
        obs(m.len() as u64);
    }
}
all! { roots:
    h_c02_flat scen_flat(&mut |_| {});
    h_c02_deep scen_deep(&mut |_| {});
    h_c02_lasting scen_lasting(14, &mut |_| {});
    h_c02_spine scen_spine(&mut |_| {});
    h_c02_legacy scen_legacy(&mut |_| {});
    h_c02_history scen_history(5, &mut |_| {});
    h_c02_churn scen_churn(&mut |_| {});
    h_c02_bulk scen_bulk(&mut |_| {});
    h_c02_wide scen_wide(&mut |_| {});
    h_c02_full scen_full(&mut |_| {});
    h_c02_big scen_big(40, &mut |_| {});
    h_c02_crowd scen_crowd(300, &mut |_| {});
    h_c02_symhist scen_symhist(4, &mut |_| {});
    h_c02_routes scen_routes(&mut |_| {});
    h_c02_restored scen_restored(&mut |_| {});
}
/// two different histories with the same final contents
#[no_mangle]
pub extern "C-unwind" fn h_c02_twohist() {
    let ks = sorted_keys(3, 0, 0x66, true);
    let mut a = W::new(0);
    a.apply((0..3).map(|i| (ks[i], Some(val(9, i)))).collect());
    // the other tree: one key per version, in a symbolic order, with a detour
    let mut b = W::new(0);
    let p = [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][pick(0, 5) as usize];
    let detour = pick(0, 2);
    for j in 0..3 {
        let i = p[j];
        b.apply(vec![(ks[i], Some(if detour == 1 { val(1, 7) } else { val(9, i) }))]);
        if detour == 2 { b.apply(vec![(ks[p[0]], None)]); b.apply(vec![(ks[p[0]], Some(val(9, p[0])))]); }
    }
    if detour == 1 { b.apply((0..3).rev().map(|i| (ks[i], Some(val(9, i)))).collect()); }
    check(a.roots.last() == b.roots.last(), "the same contents reached by two histories have different roots");
    check(*a.roots.last().unwrap() == ref_root(&a.cur()), "published root is not the sparse Merkle root of the contents");
    obs(detour as u64);
}

/// values that differ in one byte anywhere, or in length only, give different roots
#[no_mangle]
pub extern "C-unwind" fn h_c02_value() {
    let n = [1usize, 2, 5, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 300][pick(0, 13) as usize];
    let b = range(0, 3);
    let a = vec![b; n];
    let mut c = a.clone();
    match pick(0, 5) {
        0 => c[n - 1] = byte(),
        1 => c[0] = byte(),
        2 => c[n / 2] = byte(),
        3 => { c.pop(); }
        4 => c.push(range(0, 3)),
        _ => c.insert(0, range(0, 3)),
    }
    let k = key_at(0, kbyte(), 0x5b);
    let two = pick(0, 1) == 1;
    let mut r = vec![];
    for v in [&a, &c] {
        let mut w = W::new(0);
        w.pool = vec![k];
        let mut s: Set = vec![(k, Some(v.clone()))];
        if two { s.push((KeyHash([0xe0; 32]), Some(b"other".to_vec()))); }
        w.apply(s);
        let w = w;
        roots(&w);
        r.push(w.roots[0]);
    }
    check((r[0] == r[1]) == (a == c), "different contents have the same root");
}
