//! C03 honest proofs verify
use super::jm::*;
use super::sym::*;

fn proof_ok(w: &W, v: u64, root: RootHash, m: &[KV], k: KeyHash) {
    let want = lookup(m, &k);
    let (got, p) = w.tree.get_with_proof(k, v).must("get_with_proof failed");
    check(got.as_ref() == want, "get_with_proof returns the wrong value");
    check(p.verify(root, k, got.clone()).is_ok(), "honest proof rejected");
    check(VersionedTrie::verify_proof(&w.tree, k, v, root, p.clone()).is_ok(), "verify_proof rejects an honest proof");
    let q = VersionedTrie::get_proof(&w.tree, k, v).must("get_proof failed");
    check(q.leaf() == p.leaf() && q.siblings() == p.siblings(), "get_proof differs from get_with_proof");
    match want {
        Some(x) => {
            check(p.verify_existence(root, k, x).is_ok(), "honest existence proof rejected");
            check(p.verify_nonexistence(root, k).is_err(), "existence proof accepted as non-existence");
            check(p.verify_existence(root, k, [x.as_slice(), b"!"].concat()).is_err(), "proof accepted for another value");
            check(p.leaf().is_some(), "existence proof without leaf");
            check(p.root_hash() == root, "root recomputed from an inclusion proof differs");
            reach("present");
        }
        None => {
            check(p.verify_nonexistence(root, k).is_ok(), "honest non-existence proof rejected");
            check(p.verify_existence(root, k, b"x").is_err(), "non-existence proof accepted as existence");
            if p.leaf().is_some() { reach("absent, other leaf"); } else { reach("absent, empty subtree"); }
        }
    }
    check(p.siblings().len() <= 256, "too many siblings");
    obs(p.siblings().len() as u64);
}
fn proofs(w: &W) {
    for (i, m) in w.model.iter().enumerate() {
        for k in few(&w.pool, 60) { proof_ok(w, w.v0 + i as u64, w.roots[i], m, *k); }
        proof_ok(w, w.v0 + i as u64, w.roots[i], m, KeyHash([0x31; 32]));
    }
}
/// at the latest version, an arbitrary further key
fn probe(w: &W) {
    let m = w.model.last().unwrap();
    let mut k = w.pool[0];
    k.0[0] = kbyte();
    if pick(0, 1) == 1 { k.0[31] ^= 1; }
    proof_ok(w, w.last(), *w.roots.last().unwrap(), m, k);
}
all! { proofs:
    h_c03_flat scen_flat(&mut |_| {});
    h_c03_deep scen_deep(&mut |_| {});
    h_c03_lasting scen_lasting(12, &mut |_| {});
    h_c03_spine scen_spine(&mut |_| {});
    h_c03_legacy scen_legacy(&mut |_| {});
    h_c03_history scen_history(4, &mut |_| {});
    h_c03_churn scen_churn(&mut |_| {});
    h_c03_bulk scen_bulk(&mut |_| {});
    h_c03_wide scen_wide(&mut |_| {});
    h_c03_full scen_full(&mut |_| {});
    h_c03_big scen_big(40, &mut |_| {});
    h_c03_crowd scen_crowd(300, &mut |_| {});
    h_c03_symhist scen_symhist(4, &mut |_| {});
    h_c03_routes scen_routes(&mut |_| {});
    h_c03_restored scen_restored(&mut |_| {});
}
all! { probe:
    h_c03_probe scen_churn(&mut |_| {});
}
/// two keys whose first difference is at any of the 256 bits
#[no_mangle]
pub extern "C-unwind" fn h_c03_bits() {
    let mut w = W::new(0);
    let pos = pick(0, 31) as usize;
    let x = byte();
    assume(x != 0x5a);
    w.pool = vec![KeyHash([0x5a; 32]), key_at(pos, x, 0x5a)];
    w.apply(vec![(w.pool[0], Some(val(0, 2)))]);
    w.apply(vec![(w.pool[1], Some(val(1, 4)))]);
    proofs(&w);
}
