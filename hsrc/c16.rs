//! C16 a node's hash and its child lookups agree
use super::jm::*;
use super::sym::*;

#[derive(Clone, Copy, PartialEq)]
enum K { No, Leaf, Inner, Old }
fn kid(x: u8) -> K { match x { 0 => K::No, 1 => K::Leaf, 2 => K::Inner, _ => K::Old } }
fn hash_of(i: usize) -> [u8; 32] { let mut h = [i as u8 + 1; 32]; h[31] = 0x80; h }
/// a node with the given children, child i at version 100 + i
fn node(ks: &[K; 16]) -> Node {
    let mut b = vec![1u8];
    let mut n = 0u64;
    let mut leaves = 0u64;
    let mut old = false;
    for (i, k) in ks.iter().enumerate() {
        if *k == K::No { b.push(0); continue; }
        n += 1;
        b.push(1);
        b.extend_from_slice(&hash_of(i));
        b.extend_from_slice(&(100 + i as u64).to_le_bytes());
        match k {
            K::Leaf => { b.push(0); leaves += 1; }
            // an inner child whose leaf count is not known
            K::Old => { b.push(1); old = true; }
            _ => { b.push(2); b.extend_from_slice(&5u64.to_le_bytes()); leaves += 5; }
        }
    }
    b.extend_from_slice(&n.to_le_bytes());
    if old { b.push(0); } else { b.push(1); b.extend_from_slice(&leaves.to_le_bytes()); }
    b.push(1);
    match <Node as borsh::BorshDeserialize>::try_from_slice(&b) { Ok(x) => x, Err(_) => { assume(false); unreachable!() } }
}
fn node_key() -> NodeKey {
    // version 9, path "ab c"
    let mut b = 9u64.to_le_bytes().to_vec();
    b.extend_from_slice(&3u64.to_le_bytes());
    b.extend_from_slice(&2u32.to_le_bytes());
    b.extend_from_slice(&[0xab, 0xc0]);
    match <NodeKey as borsh::BorshDeserialize>::try_from_slice(&b) { Ok(x) => x, Err(_) => { assume(false); unreachable!() } }
}
/// (existing, leaves, only child) of children[start..start+width]
fn census(ks: &[K; 16], s: usize, w: usize) -> (usize, usize, usize) {
    let (mut n, mut l, mut at) = (0, 0, 0);
    for i in s..s + w { if ks[i] != K::No { n += 1; at = i; if ks[i] == K::Leaf { l += 1; } } }
    (n, l, at)
}
fn ref_node(ks: &[K; 16], hs: &[[u8; 32]; 16], s: usize, w: usize) -> [u8; 32] {
    let (n, l, at) = census(ks, s, w);
    if n == 0 { return PLACEHOLDER; }
    if w == 1 || (n == 1 && l == 1) { return hs[at]; }
    inner_hash(ref_node(ks, hs, s, w / 2), ref_node(ks, hs, s + w / 2, w / 2))
}
/// the child a lookup of n must find, and at which depth it stops (1..=4)
fn ref_child(ks: &[K; 16], n: usize) -> (Option<usize>, usize) {
    let mut d = 0;
    let mut w = 16;
    loop {
        w /= 2;
        d += 1;
        let s = n / w * w;
        let (c, l, at) = census(ks, s, w);
        if c == 0 { return (None, d); }
        if w == 1 || (c == 1 && l == 1) { return (Some(at), d); }
    }
}
fn judge(ks: &[K; 16], from: usize, to: usize) {
    let hs: [[u8; 32]; 16] = core::array::from_fn(hash_of);
    let nd = node(ks);
    let nk = node_key();
    let want = ref_node(ks, &hs, 0, 16);
    let i = match &nd { Node::Internal(i) => i, _ => fail("decoding changed the kind of a node") };
    check(i.hash() == want, "the hash of a node is not that of its four-level tree");
    let (n, l, _) = census(ks, 0, 16);
    check(i.leaf_count() == if ks.contains(&K::Old) { None } else { Some(l + 5 * (n - l)) }, "leaf count wrong");
    check(i.children_sorted().count() == n, "children missing from the listing");
    for x in from..to {
        let (c, d) = ref_child(ks, x);
        let (got, sib) = i.get_child_with_siblings(&nk, (x as u8).into());
        check(got.as_ref().map(|k| k.version()) == c.map(|c| 100 + c as u64), "a lookup finds the wrong child");
        check(got == i.get_child_without_siblings(&nk, (x as u8).into()), "the two child lookups disagree");
        if let Some(k) = &got {
            // the child's key: one nibble longer than the node's
            let mut b = k.version().to_le_bytes().to_vec();
            b.extend_from_slice(&4u64.to_le_bytes());
            b.extend_from_slice(&2u32.to_le_bytes());
            b.extend_from_slice(&[0xab, 0xc0 | c.unwrap() as u8]);
            check(enc(k) == b, "a child's key is not its parent's path plus its index");
        }
        check(i.child((x as u8).into()).is_some() == (ks[x] != K::No), "child() disagrees with the children");
        check(sib.len() == d, "wrong number of siblings");
        let mut h = c.map(|c| hs[c]).unwrap_or(PLACEHOLDER);
        for (j, s) in sib.iter().enumerate().rev() {
            h = if x >> (3 - j) & 1 == 1 { inner_hash(*s, h) } else { inner_hash(h, *s) };
        }
        check(h == want, "child and siblings do not recombine to the node's hash");
        match c { None => reach("nothing there"), Some(c) if c != x => reach("another leaf"), _ => reach("the child itself") }
    }
    obs(n as u64);
}
fn legal(ks: &[K; 16]) -> bool { let (n, l, _) = census(ks, 0, 16); n > 1 || (n == 1 && l == 0) }
/// each quarter of the children: nothing, one leaf or one inner child anywhere, or two of any kind
#[no_mangle]
pub extern "C-unwind" fn h_c16_quarters() {
    let mut ks = [K::No; 16];
    for q in 0..4 {
        let c = pick(0, if q < 2 { 5 } else { 3 });
        let at = |p: u8| q * 4 + p as usize;
        match c {
            0 => {}
            1 => ks[at(if q % 2 == 0 { pick(0, 3) } else { 1 })] = K::Leaf,
            2 => ks[at(if q % 2 == 0 { 3 } else { pick(0, 3) })] = K::Inner,
            3 => { ks[at(0)] = K::Leaf; ks[at(3)] = K::Leaf; }
            4 => { ks[at(2)] = K::Leaf; ks[at(3)] = K::Inner; }
            _ => { for j in 0..4 { ks[at(j)] = K::Leaf; } }
        }
    }
    assume(legal(&ks));
    judge(&ks, 0, 16);
}
/// any four adjacent children (a symbolic quarter) arbitrary, the others one of four patterns
#[no_mangle]
pub extern "C-unwind" fn h_c16_window() {
    let mut ks = [K::No; 16];
    let q = pick(0, 3) as usize;
    let bg = pick(0, 3);
    for i in 0..16 { ks[i] = if i / 4 == q { kid(pick(0, 2)) } else { match bg { 0 => K::No, 1 => if i % 8 == 3 { K::Leaf } else { K::No }, 2 => if i == 15 - 4 * q { K::Inner } else { K::No }, _ => if i % 2 == 0 { K::Leaf } else { K::Inner } } }; }
    assume(legal(&ks));
    judge(&ks, q * 4, q * 4 + 4);
}
/// one or two children of any kind anywhere, every index
#[no_mangle]
pub extern "C-unwind" fn h_c16_pairs() {
    let mut ks = [K::No; 16];
    let (a, b) = (pick(0, 15) as usize, pick(0, 15) as usize);
    ks[a] = kid(pick(1, 3));
    ks[b] = kid(pick(1, 3));
    assume(a <= b);
    assume(legal(&ks));
    judge(&ks, 0, 16);
}
/// eight arbitrary children in one half
#[no_mangle]
pub extern "C-unwind" fn h_c16_half() {
    let mut ks = [K::No; 16];
    let hi = pick(0, 1) as usize * 8;
    for i in 0..8 { ks[hi + i] = kid(pick(0, 2)); }
    let o = pick(0, 2);
    if o > 0 { ks[8 - hi + 5] = kid(o); }
    assume(legal(&ks));
    judge(&ks, hi, hi + 8);
}
/// all sixteen arbitrary
#[no_mangle]
pub extern "C-unwind" fn h_c16_any() {
    let mut ks = [K::No; 16];
    for i in 0..16 { ks[i] = kid(pick(0, 2)); }
    assume(legal(&ks));
    judge(&ks, 0, 16);
}
/// nodes the tree itself builds: each of the groups holds leaves or inner children
#[no_mangle]
pub extern "C-unwind" fn h_c16_tree() {
    let mut w = W::new(0);
    let mut ks = [K::No; 16];
    let at: [usize; 6] = [[0, 1, 2, 3, 8, 15], [4, 6, 7, 9, 12, 13], [0, 5, 10, 11, 14, 15]][pick(0, 2) as usize];
    let mut s: Set = vec![];
    for i in at {
        ks[i] = kid(pick(0, 2));
        for j in 0..(match ks[i] { K::No => 0, K::Leaf => 1, _ => 2 }) { let mut k = [0x50u8; 32]; k[0] = (i << 4) as u8; k[1] = 16 * j + 3; s.push((KeyHash(k), Some(vec![i as u8]))); }
    }
    assume(legal(&ks));
    w.apply(s);
    let nk = root_key(&w.batches[0], 0).must("no root written");
    let nd = w.db.get_node_option(&nk).must("store read failed").must("root not stored");
    let i = match &nd { Node::Internal(i) => i, _ => fail("the root of several entries is not an inner node") };
    check(i.hash() == w.roots[0].0, "the root node's hash is not the root");
    for x in 0..16usize {
        let (c, d) = ref_child(&ks, x);
        let (got, sib) = i.get_child_with_siblings(&nk, (x as u8).into());
        check(got.is_some() == c.is_some() && sib.len() == d, "a lookup finds the wrong child");
        check(got == i.get_child_without_siblings(&nk, (x as u8).into()), "the two child lookups disagree");
        let mut h = PLACEHOLDER;
        if let Some(k) = got {
            match w.db.get_node_option(&k).must("store read failed").must("a child is not stored") {
                Node::Internal(n) => { check(ks[c.unwrap()] == K::Inner, "wrong kind of child"); h = n.hash(); }
                Node::Leaf(l) => { check(ks[c.unwrap()] == K::Leaf && (l.key_hash().0[0] >> 4) as usize == c.unwrap(), "wrong child"); h = l.hash(); }
                Node::Null => fail("a null child"),
            }
        }
        for (j, s) in sib.iter().enumerate().rev() { h = if x >> (3 - j) & 1 == 1 { inner_hash(*s, h) } else { inner_hash(h, *s) }; }
        check(h == w.roots[0].0, "child and siblings do not recombine to the node's hash");
    }
    obs(w.cur().len() as u64);
}
/// all sixteen children absent, leaves, inner nodes or a mixture, with one or two of them changed to any kind
#[no_mangle]
pub extern "C-unwind" fn h_c16_dense() {
    let bg = pick(0, 4);
    let mut ks: [K; 16] = core::array::from_fn(|i| match bg { 0 => K::Leaf, 1 => K::Inner, 2 => K::No, 3 => if i % 3 == 0 { K::Inner } else { K::Leaf }, _ => if i < 8 { K::Leaf } else { K::Inner } });
    let (a, b) = (pick(0, 15) as usize, pick(0, 15) as usize);
    assume(a <= b);
    if a != b { ks[a] = kid(pick(0, 3)); }
    ks[b] = kid(pick(0, 3));
    assume(legal(&ks));
    judge(&ks, 0, 16);
}
