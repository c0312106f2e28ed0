//! C13 verifying untrusted proofs never crashes (a panic anywhere is a violation)
use super::jm::*;
use super::sym::*;
use super::c04::{make, P};
use jmt::proof::{SparseMerkleLeafNode, SparseMerkleRangeProof};
use borsh::BorshDeserialize;

fn some_key() -> KeyHash { let mut k = [0x5au8; 32]; k[0] = byte(); k[31] = byte(); KeyHash(k) }
fn exercise(p: &P, k: KeyHash) {
    let root = RootHash([byte(); 32]);
    let v: Option<Vec<u8>> = match pick(0, 2) { 0 => None, 1 => Some(vec![]), _ => Some(vec![byte(), 7]) };
    let a = p.verify(root, k, v.clone()).is_ok();
    let b = match &v { Some(v) => p.verify_existence(root, k, v).is_ok(), None => p.verify_nonexistence(root, k).is_ok() };
    check(a == b, "verify and its two wrappers disagree");
    if p.siblings().len() > 256 { check(!a, "a proof longer than any path was accepted"); reach("too long"); }
    if p.leaf().is_some() { let r = p.root_hash(); obs(r.0[0] as u64 & 0); reach("with leaf"); } else { reach("without leaf"); }
    obs(a as u64);
}
fn range(right: &[[u8; 32]]) -> SparseMerkleRangeProof {
    let mut b = (right.len() as u32).to_le_bytes().to_vec();
    for s in right { b.extend_from_slice(s); }
    SparseMerkleRangeProof::try_from_slice(&b).must("range proof encoding")
}
fn leaf(k: KeyHash) -> SparseMerkleLeafNode { let mut b = k.0.to_vec(); b.extend_from_slice(&[byte(); 32]); SparseMerkleLeafNode::try_from_slice(&b).must("leaf encoding") }

const LENS: [usize; 9] = [0, 1, 2, 3, 64, 255, 256, 257, 300];
#[no_mangle]
pub extern "C-unwind" fn h_c13_lengths() {
    let n = LENS[pick(0, 8) as usize];
    let sib: Vec<[u8; 32]> = (0..n).map(|i| [(i % 251) as u8; 32]).collect();
    let k = KeyHash([0x5a; 32]);
    let l = match pick(0, 3) { 0 => None, 1 => Some(k.0), 2 => Some([0x5b; 32]), _ => Some([0xff; 32]) };
    exercise(&make(l.map(|l| (l, [3; 32])), &sib), k);
}
/// few siblings, everything symbolic
#[no_mangle]
pub extern "C-unwind" fn h_c13_small() {
    let n = pick(0, 3) as usize;
    let sib: Vec<[u8; 32]> = (0..n).map(|_| [byte(); 32]).collect();
    let k = some_key();
    let l = match pick(0, 2) { 0 => None, 1 => Some(k.0), _ => Some(some_key().0) };
    exercise(&make(l.map(|l| (l, [byte(); 32])), &sib), k);
}
#[no_mangle]
pub extern "C-unwind" fn h_c13_range() {
    let nl = LENS[pick(0, 8) as usize];
    let nr = LENS[pick(0, 8) as usize];
    let k = KeyHash([[0u8, 0xff, 0x5a][pick(0, 2) as usize]; 32]);
    let p = range(&(0..nr).map(|i| [(i % 251) as u8; 32]).collect::<Vec<_>>());
    let ok = p.verify(RootHash([1; 32]), leaf(k), (0..nl).map(|i| [(i % 13) as u8; 32]).collect()).is_ok();
    if nl + nr > 256 { check(!ok, "a range proof longer than any path was accepted"); reach("too long"); } else { reach("possible"); }
    obs(ok as u64);
}
#[no_mangle]
pub extern "C-unwind" fn h_c13_rangesmall() {
    let (nl, nr) = (pick(0, 3), pick(0, 3));
    let k = some_key();
    let p = range(&(0..nr).map(|_| [byte(); 32]).collect::<Vec<_>>());
    let ok = p.verify(RootHash([byte(); 32]), leaf(k), (0..nl).map(|_| [byte(); 32]).collect()).is_ok();
    obs(ok as u64);
}
/// arbitrary bytes decoded as a proof; what decodes is verified
#[no_mangle]
pub extern "C-unwind" fn h_c13_decode() {
    let n = [0usize, 1, 4, 5, 6, 36, 37, 38, 68, 69, 101, 102][pick(0, 11) as usize];
    // tags and the length field are fully symbolic, hash bytes are not
    let mut b: Vec<u8> = vec![0x33; n];
    for i in 0..n { if i == 0 || (1..5).contains(&i) || (65..69).contains(&i) { b[i] = byte(); } }
    match pick(0, 2) {
        0 => if let Ok(p) = P::try_from_slice(&b) { exercise(&p, some_key()); reach("decoded"); } else { reach("refused"); },
        1 => if let Ok(p) = SparseMerkleRangeProof::try_from_slice(&b) { p.verify(RootHash([2; 32]), leaf(some_key()), vec![[1; 32]]).is_ok(); reach("range decoded"); } else { reach("refused"); },
        _ => if let Ok(p) = bincode::deserialize::<SparseMerkleRangeProof>(&b) { p.verify(RootHash([2; 32]), leaf(some_key()), vec![]).is_ok(); reach("range decoded"); } else { reach("refused"); },
    }
    obs(n as u64);
}
/// fully arbitrary short strings
#[no_mangle]
pub extern "C-unwind" fn h_c13_bytes() {
    let n = pick(0, 7) as usize;
    let b: Vec<u8> = (0..n).map(|_| byte()).collect();
    if let Ok(p) = P::try_from_slice(&b) { exercise(&p, some_key()); reach("decoded"); }
    if let Ok(p) = SparseMerkleRangeProof::try_from_slice(&b) { p.verify(RootHash([2; 32]), leaf(some_key()), vec![]).is_ok(); }
    let _ = Node::try_from_slice(&b).is_ok();
    let _ = NodeKey::try_from_slice(&b).is_ok();
    let _ = TreeUpdateBatch::try_from_slice(&b).is_ok();
    obs(n as u64);
}
