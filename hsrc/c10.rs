//! C10 exclusion proofs and ics23 proofs
use super::jm::*;
use super::sym::*;
use super::c04::parts;
use jmt::{ics23_spec, ExclusionProof};
use jmt::proof::SparseMerkleProof;

type P = SparseMerkleProof<jmt::Sha256>;
fn neighbour(root: RootHash, p: &P, want: Option<&KV>, label: &'static str) {
    let e = want.must(label);
    check(p.leaf().map(|l| parts(&l)) == Some((e.0 .0, sha(&e.1))), label);
    check(p.verify_existence(root, e.0, &e.1).is_ok(), "a neighbour's proof does not verify");
}
/// the neighbours named for an absent key are the true ones, and their proofs verify
fn excl(w: &W, i: usize, k: KeyHash) {
    let (m, v, root) = (&w.model[i], w.v0 + i as u64, w.roots[i]);
    if m.is_empty() {
        // there is nothing an exclusion could name
        check(w.tree.get_with_exclusion_proof(k, v).is_err(), "exclusion proof for the empty tree");
        reach("empty");
        return;
    }
    let r = w.tree.get_with_exclusion_proof(k, v).must("exclusion proof query failed");
    let right = m.iter().find(|e| e.0 > k);
    let left = m.iter().rev().find(|e| e.0 < k);
    match (lookup(m, &k), r) {
        (Some(x), Ok((got, p))) => {
            check(got == *x, "exclusion proof query returns the wrong value");
            check(p.verify_existence(root, k, x).is_ok(), "existence proof does not verify");
            reach("present");
        }
        (None, Err(e)) => match e {
            ExclusionProof::Leftmost { leftmost_right_proof } => {
                check(left.is_none(), "a left neighbour is missing");
                neighbour(root, &leftmost_right_proof, right, "wrong right neighbour");
                reach("leftmost");
            }
            ExclusionProof::Rightmost { rightmost_left_proof } => {
                check(right.is_none(), "a right neighbour is missing");
                neighbour(root, &rightmost_left_proof, left, "wrong left neighbour");
                reach("rightmost");
            }
            ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof } => {
                neighbour(root, &leftmost_right_proof, right, "wrong right neighbour");
                neighbour(root, &rightmost_left_proof, left, "wrong left neighbour");
                reach("middle");
            }
        },
        _ => fail("exclusion proof query confuses presence and absence"),
    }
    obs(m.len() as u64);
}
fn exclusion(w: &W) {
    for i in 0..w.versions() {
        for k in few(&w.pool, 60) {
            excl(w, i, *k);
            let mut a = *k;
            a.0[31] ^= 1;
            excl(w, i, a);
        }
        excl(w, i, KeyHash([0; 32]));
        excl(w, i, KeyHash([0xff; 32]));
    }
}
fn near(w: &W) {
    let mut k = w.pool[pick(0, (w.pool.len() - 1).min(3) as u8) as usize];
    match pick(0, 2) { 0 => k.0[0] = kbyte(), 1 => k.0[1] = kbyte(), _ => k.0[31] = byte() }
    for i in 0..w.versions() { excl(w, i, k); }
}
all! { exclusion:
    h_c10_flat scen_flat(&mut |_| {});
    h_c10_history scen_history(4, &mut |_| {});
    h_c10_symhist scen_symhist(3, &mut |_| {});
    h_c10_churn scen_churn(&mut |_| {});
    h_c10_bulk scen_bulk(&mut |_| {});
    h_c10_deep scen_deep(&mut |_| {});
    h_c10_lasting scen_lasting(10, &mut |_| {});
    h_c10_spine scen_spine(&mut |_| {});
    h_c10_legacy scen_legacy(&mut |_| {});
    h_c10_full scen_full(&mut |_| {});
    h_c10_wide scen_wide(&mut |_| {});
    h_c10_big scen_big(20, &mut |_| {});
    h_c10_crowd scen_crowd(300, &mut |_| {});
    h_c10_routes scen_routes(&mut |_| {});
    h_c10_restored scen_restored(&mut |_| {});
}
all! { near: h_c10_near scen_churn(&mut |_| {}); h_c10_neardeep scen_deep(&mut |_| {}); }

// ---------------------------------------------------------------- ics23
type HF = ics23::HostFunctionsManager;
fn name(i: usize) -> Vec<u8> { [b"a".to_vec(), b"bank/x".to_vec(), b"key".to_vec(), vec![0xff; 40], b"k3".to_vec(), vec![0], b"notexist".to_vec(), b"zz".to_vec()][i].clone() }
/// every key, present or not, at every version: the ics23 proof verifies as what is true and as nothing else
fn ics(w: &W, names: &[Vec<u8>]) {
    let spec = ics23_spec();
    for i in 0..w.versions() {
        let (m, v) = (&w.model[i], w.v0 + i as u64);
        if m.is_empty() { continue; }
        let root = w.roots[i].0.to_vec();
        for n in names {
            let k = KeyHash(sha(n));
            let (got, p) = w.tree.get_with_ics23_proof(n.clone(), v).must("ics23 proof query failed");
            let want = lookup(m, &k);
            check(got.as_ref() == want, "ics23 query returns the wrong value");
            match want {
                Some(x) => {
                    check(ics23::verify_membership::<HF>(&p, &spec, &root, n, x), "ics23 existence proof does not verify");
                    check(!ics23::verify_non_membership::<HF>(&p, &spec, &root, n), "ics23 existence proof verifies as non-existence");
                    check(!ics23::verify_membership::<HF>(&p, &spec, &root, n, b"other value"), "ics23 existence proof verifies another value");
                    reach("ics23 present");
                }
                None => {
                    check(ics23::verify_non_membership::<HF>(&p, &spec, &root, n), "ics23 non-existence proof does not verify");
                    check(!ics23::verify_membership::<HF>(&p, &spec, &root, n, b"x"), "ics23 non-existence proof verifies as existence");
                    reach("ics23 absent");
                }
            }
            obs(m.len() as u64);
        }
    }
}
fn ics_world(n: usize) -> (W, Vec<Vec<u8>>) {
    let mut w = W::new(0);
    let names: Vec<Vec<u8>> = (0..8).map(name).collect();
    for x in &names { w.db.put_key_preimage::<jmt::Sha256>(&jmt::reader::Preimage(x.clone())); }
    w.pool = names.iter().take(n).map(|x| KeyHash(sha(x))).collect();
    (w, names)
}
fn nonempty(ver: u64, i: usize) -> Vec<u8> { let mut v = val(ver, i); v.push(7); v }
#[no_mangle]
pub extern "C-unwind" fn h_c10_ics() {
    let (mut w, names) = ics_world(5);
    let mut s: Set = vec![];
    for i in 0..5 { if pick(0, 1) == 1 { s.push((w.pool[i], Some(nonempty(0, i)))); } }
    w.apply(s);
    let o = pick(0, 9) as usize;
    w.apply(vec![(w.pool[o % 5], if o < 5 { Some(nonempty(1, o)) } else { None })]);
    ics(&w, &names);
}
/// one write per version, so that every neighbour has another version
#[no_mangle]
pub extern "C-unwind" fn h_c10_icshist() {
    let (mut w, names) = ics_world(4);
    w.v0 = 1000;
    for v in 0..4 {
        let o = pick(0, 7) as usize;
        w.apply(vec![(w.pool[o % 4], if o < 4 { Some(nonempty(v, o)) } else { None })]);
    }
    ics(&w, &names[..6]);
}
/// a symbolic value
#[no_mangle]
pub extern "C-unwind" fn h_c10_icsval() {
    let (mut w, names) = ics_world(3);
    w.apply((0..3).map(|i| (w.pool[i], Some(vec![byte(), byte()]))).collect());
    ics(&w, &names[..5]);
}
