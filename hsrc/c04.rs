//! C04 no proof convinces a verifier of a false statement
use super::jm::*;
use super::sym::*;
use jmt::proof::SparseMerkleProof;

pub type P = SparseMerkleProof<jmt::Sha256>;
pub fn bytes32() -> [u8; 32] { let mut b = [0u8; 32]; for x in b.iter_mut() { *x = byte(); } b }
pub fn make(leaf: Option<([u8; 32], [u8; 32])>, sib: &[[u8; 32]]) -> P {
    let mut b = vec![leaf.is_some() as u8];
    if let Some((k, v)) = leaf { b.extend_from_slice(&k); b.extend_from_slice(&v); }
    b.extend_from_slice(&(sib.len() as u32).to_le_bytes());
    for s in sib { b.extend_from_slice(s); }
    <P as borsh::BorshDeserialize>::try_from_slice(&b).must("proof encoding")
}
/// key hash and value hash of a leaf
pub fn parts(l: &jmt::proof::SparseMerkleLeafNode) -> ([u8; 32], [u8; 32]) {
    let e = enc(l);
    let (mut a, mut b) = ([0; 32], [0; 32]);
    a.copy_from_slice(&e[..32]);
    b.copy_from_slice(&e[32..]);
    (a, b)
}
fn judge(w: &W, i: usize, p: &P, k: KeyHash, claim: Option<Vec<u8>>) {
    let (root, m) = (w.roots[i], &w.model[i]);
    let truth = lookup(m, &k).cloned();
    if p.verify(root, k, claim.clone()).is_ok() {
        check(claim == truth, "a proof of a false statement was accepted");
        if claim.is_some() { reach("true inclusion accepted"); } else { reach("true exclusion accepted"); }
    } else { reach("rejected"); }
    match &claim {
        Some(v) => {
            if p.verify_existence(root, k, v).is_ok() { check(claim == truth, "verify_existence accepted a false statement"); }
        }
        None => {
            if p.verify_nonexistence(root, k).is_ok() { check(truth.is_none(), "verify_nonexistence accepted a false statement"); }
        }
    }
    if VersionedTrie::verify_proof(&w.tree, k, w.v0 + i as u64, root, p.clone()).is_ok() {
        // the trait's check looks the value up itself: it can only confirm what is stored
        obs(1);
    }
}
fn claimed_key(w: &W) -> KeyHash {
    let c = pick(0, w.pool.len() as u8) as usize;
    if c < w.pool.len() { return w.pool[c]; }
    let mut k = w.pool[0];
    k.0[0] = kbyte();
    k.0[31] = range(0, 1) ^ k.0[31];
    k
}
fn claim(w: &W, i: usize, k: KeyHash) -> Option<Vec<u8>> {
    match pick(0, 4) {
        0 => None,
        1 => lookup(&w.model[i], &k).cloned(),
        2 => Some(vec![]),
        3 => Some(vec![byte(), byte()]),
        _ => Some(w.model[i].first().map(|e| e.1.clone()).unwrap_or(vec![1])),
    }
}
/// an arbitrary proof object: any leaf or none, any siblings
fn forge(w: &W, lo: u8, hi: u8) {
    let i = w.versions() - 1;
    let k = claimed_key(w);
    let cl = claim(w, i, k);
    let leaf = match pick(0, 3) {
        0 => None,
        1 => Some((k.0, bytes32())),
        2 => Some((bytes32(), bytes32())),
        _ => Some((k.0, sha(cl.as_deref().unwrap_or(b"")))),
    };
    let n = pick(lo, hi) as usize;
    let mut s: Vec<[u8; 32]> = vec![];
    for _ in 0..n { s.push(bytes32()); }
    judge(w, i, &make(leaf, &s), k, cl);
    obs(n as u64);
}
fn world2() -> W {
    let mut w = W::new(0);
    w.pool = vec![key_at(0, kbyte_hi(), 0x32), key_at(0, 0x91, 0x32)];
    if pick(0, 1) == 1 { w.pool.push(key_at(1, 0x3a, 0x32)); w.pool[1] = KeyHash([0x32; 32]); }
    assume(w.pool[0] != w.pool[1]);
    let mut s: Set = vec![];
    for i in 0..w.pool.len() { if i > 0 || pick(0, 1) == 1 { s.push((w.pool[i], Some(val(2, i + 1)))); } }
    w.apply(s);
    w
}
fn forge_short(w: &W) { forge(w, 0, 2); }
fn forge_mid(w: &W) { forge(w, 3, 5); }
all! { forge_short: h_c04_forge world2(); }
all! { forge_mid: h_c04_forge5 world2(); }
/// the empty and the one-entry tree
fn world01() -> W {
    let mut w = W::new(0);
    w.pool = vec![key_at(0, kbyte(), 0x32), key_at(0, 0x23, 0x32)];
    w.apply(vec![(w.pool[1], Some(val(0, 0)))]);
    let s = if pick(0, 1) == 1 { vec![(w.pool[1], None)] } else { vec![] };
    w.apply(s);
    w
}
all! { forge_short: h_c04_small world01(); }
/// an honest proof of another key, version or value with symbolic damage
fn mutate(w: &W) {
    let i = pick(0, (w.versions() - 1) as u8) as usize;
    let j = pick(0, (w.versions() - 1) as u8) as usize;
    let a = w.pool[pick(0, (w.pool.len() - 1) as u8) as usize];
    let k = claimed_key(w);
    let (_, p) = w.tree.get_with_proof(a, w.v0 + j as u64).must("get_with_proof failed");
    let mut leaf = p.leaf().map(|l| parts(&l));
    let mut s = p.siblings().to_vec();
    let at = |n: usize| if n == 0 { 0 } else { pick(0, (n - 1).min(8) as u8) as usize };
    match pick(0, 8) {
        0 => {}
        1 => { if !s.is_empty() { s.remove(at(s.len())); } }
        2 => { let x = at(s.len() + 1); s.insert(x, bytes32()); }
        3 => { if s.len() > 1 { let x = at(s.len() - 1); s.swap(x, x + 1); } }
        4 => { if !s.is_empty() { let x = at(s.len()); s[x] = bytes32(); } }
        5 => leaf = None,
        6 => leaf = Some((k.0, bytes32())),
        7 => { leaf = Some((bytes32(), bytes32())); }
        _ => { if !s.is_empty() { let x = s.remove(0); leaf = Some((k.0, x)); } }
    }
    let cl = match pick(0, 2) { 0 => None, 1 => lookup(&w.model[j], &a).cloned(), _ => lookup(&w.model[i], &k).cloned() };
    judge(w, i, &make(leaf, &s), k, cl);
    obs(s.len() as u64);
}
all! { mutate:
    h_c04_mutate scen_symhist(2, &mut |_| {});
    h_c04_mutatedeep { let mut w = W::new(0); w.pool = vec![KeyHash([0x32; 32]), key_at(31, 0x33, 0x32), key_at(3, 0xb2, 0x32)]; w.apply((0..3).map(|i| (w.pool[i], Some(val(0, i)))).collect()); w.apply(vec![(w.pool[pick(0, 2) as usize], None)]); w };
}
/// deep proofs: two keys that differ only in the last bits, one sibling anywhere replaced
#[no_mangle]
pub extern "C-unwind" fn h_c04_long() {
    let mut w = W::new(0);
    w.pool = vec![KeyHash([0x5a; 32]), key_at(31, 0x5b, 0x5a)];
    w.apply(vec![(w.pool[0], Some(val(0, 2))), (w.pool[1], Some(val(1, 4)))]);
    let mut k = w.pool[0];
    k.0[31] = byte();
    let (_, p) = w.tree.get_with_proof(w.pool[0], 0).must("get_with_proof failed");
    let mut s = p.siblings().to_vec();
    let x = pick(0, 255) as usize;
    match pick(0, 2) {
        0 => { if x < s.len() { s[x] = bytes32(); } }
        1 => { s.truncate(x); }
        _ => { let d: Vec<_> = s.drain(..x.min(s.len())).collect(); s.extend(d); }
    }
    let leaf = if pick(0, 1) == 1 { Some((k.0, sha(&val(0, 2)))) } else { p.leaf().map(|l| parts(&l)) };
    let cl = if pick(0, 1) == 1 { None } else { Some(val(0, 2)) };
    judge(&w, 0, &make(leaf, &s), k, cl);
}
