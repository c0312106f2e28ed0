"""What each check runs: a list of (harness, weight), cheapest first.  The exploration time of a check
(QUICK or THOROUGH seconds in all) is shared by weight; time a harness does not need, because it has covered
its whole bounded input space, goes to those after it.  `t`: harnesses of the thorough tier only."""
QUICK = 65
THOROUGH = 700

ASSUME = [
    'SHA-256 and Keccak-256 are treated as ideal (collision-free, unpredictable) when a message contains symbolic data; on concrete messages they are computed',
    'the trie hashers of hashbrown/std HashMap are replaced by a constant hash (iteration order is insertion order, results cannot depend on it)',
    'heap allocation succeeds; single-threaded execution of each operation',
    'rustc/LLVM up to the optimised IR (LTO bitcode, then opt -O2; arithmetic overflow checks on, debug assertions off), and the engine\'s semantics of that IR; every counterexample and a sample of ordinary paths are replayed against the natively compiled crates',
]

# bounds of the shared Jellyfish scenarios (hsrc/jm.rs)
SC = {
    'flat': '3 keys, each with one symbolic byte (nibbles from {0,1,8,9}: all relative bit positions at two levels), any subset inserted at version 0, any insert/overwrite/delete/leave per key at version 1, both orders',
    'deep': '2 keys differing in a symbolic byte at position 1, 2, 16 or 31 plus a third splitting off just above; 3 versions of symbolic operations',
    'history': '3 fixed keys, first version in {0, 255, 2^32-1}, one symbolic operation (write/delete/none) per later version',
    'churn': '3 keys (one symbolic byte each on two), 3 symbolic operations (write/delete/none, repeats allowed) inside one version on top of another',
    'bulk': 'first version in {0, 65535}; 3 symbolic update sets (new values, or the ones first written) applied in one call on top of one version',
    'wide': '16-way root: 4 groups of 4 children with symbolic occupancy, then one symbolic operation on one of 16 children',
    'full': '2 keys with two fully symbolic bytes (all 65 280 ordered pairs), then one symbolic operation',
    'big': '16-40 clustered concrete keys over 3 versions, then one symbolic operation',
    'routes': 'first version, later versions by any of: one-set call, several sets in one call, batch entry point (one or two versions), tree in migration mode or not; 2 symbolic keys sharing 0, 2 or 31 bytes and two more, 3-4 versions',
    'restored': 'a tree of 1-4 entries (2 symbolic keys sharing 0, 1 or 31 bytes) restored from chunks of 1 or 2, then one symbolic operation',
    'spine': '3 keys that part from one another at any of the 256 bits (two base keys), a fourth near them absent at first, 2 or 3 written, then any operation on any of the four',
    'legacy': 'a tree of 2-4 keys (two symbolic sharing 0, 1 or 31 bytes) whose first version was stored without leaf counts, in migration mode or not, then two versions of any operation on any of the four',
    'lasting': '8-14 versions over 6 keys: new values, the present or an earlier value again, deletions of present and absent keys, empty updates, the tree emptied; first version 0 or 250, one version (any) deviating in any of 8 ways',
    'crowd': '300 entries (random, or most of them below one byte), values of up to 70 001 bytes, overwritten, removed and added over two further versions, then one symbolic operation; large lists of keys are asked at evenly spaced places',
    'symhist': '3 keys (one symbolic byte on two), first version 7, one symbolic operation in every version including the first',
}
PM = {
    'prefix': 'the keys (hex) empty, 61, 6162, 616c, 71: any subset, short or long values, uncommitted / committed / re-opened, light or full store, then 2 symbolic operations (insert, overwrite, remove, commit, re-open)',
    'prefix3': 'as prefix, 3 operations',
    'sym': '3 distinct keys, two of them of 1-2 symbolic bytes (4 values per nibble: every way of sharing nibbles, prefixes included), committed or not, 1 symbolic operation',
    'sym2': 'as sym, 2 operations',
    'long': '3 keys of 20 bytes and one of 9 with long shared prefixes, 8 assignments of value lengths (1 to 300 bytes), light or full store, re-opened or not, 2 symbolic operations, each followed by nothing, a commit or a commit and re-opening',
    'long3': 'as long, 3 operations',
    'wide': 'a 16-way branch: 4 groups of 4 children with symbolic occupancy, with or without branch value, committed and re-opened or not, 2 symbolic operations on 6 of the children or the branch value (1 for P04)',
    'full': 'two keys with a fully symbolic byte each (all 65 280 ordered pairs), short or long values, committed or not, at most one symbolic operation',
    'spine': '3-4 keys of 2, 32, 57 or 130 bytes parting from one another at any of six nibble positions and 0-2 further on, with a prefix or extension of the first, all but one or all written with values of varied lengths, uncommitted / committed / re-opened, light or full store, then 1 symbolic operation',
    'many': '60 keys of 0-4 bytes written, overwritten and removed over 4-6 commits, light or full store, re-opened in between or not, then 1 symbolic operation on any of them',
    'dense': 'a branch, at the root or below a prefix, with all or all but one of its 16 children stored under their hashes, with no, a short or a long value, light or full store, uncommitted / committed / re-opened, then 1 symbolic operation',
    'crowd': '150 keys of up to 300 bytes, values of up to 70 001 bytes, light or full store, two rounds of changes with commits and re-opening in between or not, then one symbolic operation',
    'chain': 'keys each a prefix of the next, 4, 9 or 14 levels of one or two bytes, with or without a sibling at any third of the way, short or long values, uncommitted / committed / re-opened, then 1 symbolic operation',
    'value': 'values with a symbolic first byte and lengths 1, 2, 26-29, 55, 56 (encoding and inline boundaries), three keys, committed and re-opened or not',
}
def sc(prop, *names): return {'h_%s_%s' % (prop.lower(), n): (SC if prop[0] == 'C' else PM)[n] for n in names}

PROPS = {
    'C01': dict(q=[('h_c01_history', 2), ('h_c01_symhist', 3), ('h_c01_churn', 3), ('h_c01_bulk', 3), ('h_c01_crowd', 2), ('h_c01_big', 2), ('h_c01_wide', 3), ('h_c01_full', 3), ('h_c01_routes', 4), ('h_c01_legacy', 3), ('h_c01_lasting', 3), ('h_c01_spine', 4), ('h_c01_deep', 4), ('h_c01_flat', 5)],
        bounds=sc('C01', 'routes', 'flat', 'churn', 'history', 'symhist', 'bulk', 'wide', 'full', 'deep', 'legacy', 'spine', 'lasting', 'big', 'crowd'),
        reach={'h_c01_flat': ['present', 'absent']}),
    'C02': dict(q=[('h_c02_value', 2), ('h_c02_history', 2), ('h_c02_twohist', 4), ('h_c02_symhist', 3), ('h_c02_churn', 3), ('h_c02_bulk', 3), ('h_c02_crowd', 2), ('h_c02_big', 2), ('h_c02_wide', 3), ('h_c02_full', 3), ('h_c02_routes', 4), ('h_c02_restored', 4), ('h_c02_legacy', 3), ('h_c02_lasting', 3), ('h_c02_spine', 4), ('h_c02_deep', 4), ('h_c02_flat', 5)],
        bounds=dict(sc('C02', 'routes', 'restored', 'flat', 'churn', 'history', 'symhist', 'bulk', 'wide', 'full', 'deep', 'legacy', 'spine', 'lasting', 'big', 'crowd'), h_c02_value='values of 14 lengths from 1 to 300 bytes and variants of them (one byte changed at the start, middle or end, one byte added or removed), symbolic bytes', h_c02_twohist='3 symbolic keys, the same contents reached in one version or in any order with detours'),
        reach={'h_c02_flat': ['empty', 'one', 'many']}),
    'C03': dict(q=[('h_c03_history', 2), ('h_c03_hasher', 3), ('h_c03_bits', 5), ('h_c03_probe', 4), ('h_c03_symhist', 3), ('h_c03_churn', 3), ('h_c03_bulk', 3), ('h_c03_crowd', 2), ('h_c03_big', 2), ('h_c03_wide', 3), ('h_c03_full', 3), ('h_c03_routes', 4), ('h_c03_restored', 4), ('h_c03_legacy', 3), ('h_c03_lasting', 3), ('h_c03_spine', 4), ('h_c03_deep', 4), ('h_c03_flat', 5)],
        bounds=dict(sc('C03', 'routes', 'restored', 'flat', 'churn', 'history', 'symhist', 'bulk', 'wide', 'full', 'deep', 'legacy', 'spine', 'lasting', 'big', 'crowd'), h_c03_hasher='a tree over a hasher of the user (Keccak) in place of SHA-256: 3 keys (two symbolic), any subset, written one by one or in bulk, then any operation; root, proofs, neighbours', h_c03_probe='as churn, plus a symbolic absent key', h_c03_bits='2 keys whose first difference is at any of the 256 bits (symbolic byte at each of the 32 positions)'),
        reach={'h_c03_flat': ['present', 'absent, other leaf', 'absent, empty subtree']}),
    'C04': dict(q=[('h_c04_small', 2), ('h_c04_forge', 4), ('h_c04_forge5', 4), ('h_c04_mutatedeep', 4), ('h_c04_mutate', 5), ('h_c04_long', 4)],
        bounds=dict(h_c04_forge='an arbitrary proof object (any leaf or none, 0-2 arbitrary 32-byte siblings) against trees of up to 3 symbolic keys, any claim (inclusion of a true, empty, symbolic or foreign value; exclusion) about any key in or near the tree', h_c04_forge5='the same with 3-5 siblings', h_c04_small='the same against the empty and the one-entry tree', h_c04_mutate='honest proofs of any key and version of a 3-version tree, altered by one symbolic edit (sibling removed, inserted, swapped, replaced; leaf removed, replaced) and offered for any key, version and claim', h_c04_mutatedeep='the same over keys sharing 3 and 31 bytes', h_c04_long='proofs of up to 256 siblings with one replaced, truncated or shifted anywhere'),
        reach={'h_c04_forge': ['rejected'], 'h_c04_mutate': ['true inclusion accepted', 'true exclusion accepted', 'rejected']}),
    'C05': dict(q=[('h_c05_history', 2), ('h_c05_symhist', 3), ('h_c05_churn', 3), ('h_c05_bulk', 3), ('h_c05_crowd', 2), ('h_c05_big', 2), ('h_c05_wide', 3), ('h_c05_routes', 4), ('h_c05_restored', 4), ('h_c05_lasting', 3), ('h_c05_spine', 4), ('h_c05_deep', 4), ('h_c05_flat', 5)],
        bounds=sc('C05', 'routes', 'restored', 'flat', 'churn', 'history', 'symhist', 'bulk', 'wide', 'deep', 'spine', 'lasting', 'big', 'crowd'),
        reach={'h_c05_history': ['compared']}),
    'C06': dict(q=[('h_c06_history', 2), ('h_c06_symhist', 3), ('h_c06_churn', 3), ('h_c06_bulk', 3), ('h_c06_crowd', 2), ('h_c06_big', 2), ('h_c06_wide', 3), ('h_c06_routes', 4), ('h_c06_legacy', 3), ('h_c06_lasting', 3), ('h_c06_spine', 4), ('h_c06_deep', 4), ('h_c06_flat', 5)],
        bounds=sc('C06', 'routes', 'flat', 'churn', 'history', 'symhist', 'bulk', 'wide', 'deep', 'legacy', 'spine', 'lasting', 'big', 'crowd'),
        reach={'h_c06_history': ['stale']}),
    'C07': dict(q=[('h_c07_history', 2), ('h_c07_churn', 3), ('h_c07_bulk', 3), ('h_c07_crowd', 2), ('h_c07_big', 2), ('h_c07_wide', 3), ('h_c07_full', 3), ('h_c07_start', 4), ('h_c07_startdeep', 4), ('h_c07_routes', 4), ('h_c07_restored', 4), ('h_c07_legacy', 3), ('h_c07_lasting', 3), ('h_c07_spine', 4), ('h_c07_deep', 4), ('h_c07_flat', 5)],
        bounds=dict(sc('C07', 'routes', 'restored', 'flat', 'churn', 'history', 'bulk', 'wide', 'full', 'deep', 'legacy', 'spine', 'lasting', 'big', 'crowd'), h_c07_start='as churn, iteration from a symbolic start key near an existing one (top byte, second byte or last byte)', h_c07_startdeep='as deep, with a symbolic start key'),
        reach={'h_c07_churn': ['proper suffix', 'nothing left']}),
    'C08': dict(q=[('h_c08_overwrite', 2), ('h_c08_fault', 3), ('h_c08_faultdeep', 3), ('h_c08_pregenesis', 2), ('h_c08_hasher', 2), ('h_c08_symhist', 3), ('h_c08_crowd', 3), ('h_c08_big', 3), ('h_c08_churn', 5), ('h_c08_wide', 4), ('h_c08_spine', 4), ('h_c08_deep', 5), ('h_c08_flat', 5)],
        bounds=dict({k: v + '; restored in chunks of any size up to 3, in either leaf-count mode, with interruptions after any one or two chunks' for k, v in sc('C08', 'flat', 'churn', 'symhist', 'deep', 'spine').items()}, h_c08_hasher='a tree over a hasher of the user (Keccak): 1-3 keys (two symbolic), chunks of 1 or 2', h_c08_big='16 clustered keys, chunk size 1/2/3/7, interruption at any entry', h_c08_fault='the contents of churn, chunks of 1 or 2, any one write of the store refused, then re-opened and continued', h_c08_faultdeep='the contents of deep, the same', h_c08_crowd=SC['crowd'] + '; chunks of 60, 127, 256 or 300, interrupted once at one of three places or not', h_c08_wide='wide trees of up to 16 entries in chunks of 4', h_c08_pregenesis='restore at the pre-genesis version, then one symbolic update to version 0', h_c08_overwrite='two restores over one another in overwrite mode, symbolic keys and split'),
        reach={'h_c08_churn': ['resumed in the middle', 'several']}),
    'C09': dict(q=[('h_c09_deep', 3), ('h_c09_tamper', 4), ('h_c09_forge', 5)],
        bounds=dict(h_c09_tamper='3 entries (two symbolic keys), a verified prefix of any length (re-opened or not), then a chunk altered by one symbolic edit (value byte appended, entry removed / inserted / swapped / duplicated / repeated, key changed) with an honest range proof for the original or the altered chunk', h_c09_deep='the same over keys sharing 3 and 31 bytes', h_c09_forge='the same with a range proof of 0-3 arbitrary 32-byte siblings, any prefix length, any chunk length'),
        reach={'h_c09_tamper': ['accepted', 'rejected'], 'h_c09_forge': ['rejected']}),
    'C10': dict(q=[('h_c10_icsval', 1), ('h_c10_icshist', 2), ('h_c10_ics', 3), ('h_c10_history', 2), ('h_c10_symhist', 3), ('h_c10_churn', 3), ('h_c10_bulk', 3), ('h_c10_crowd', 2), ('h_c10_big', 2), ('h_c10_near', 4), ('h_c10_wide', 3), ('h_c10_full', 3), ('h_c10_neardeep', 4), ('h_c10_routes', 4), ('h_c10_restored', 4), ('h_c10_legacy', 3), ('h_c10_lasting', 3), ('h_c10_spine', 4), ('h_c10_deep', 4), ('h_c10_flat', 5)],
        bounds=dict(sc('C10', 'routes', 'restored', 'flat', 'churn', 'history', 'symhist', 'bulk', 'wide', 'full', 'deep', 'legacy', 'spine', 'lasting', 'big', 'crowd'), h_c10_near='as churn, with a symbolic queried key near an existing one', h_c10_neardeep='as deep, with a symbolic queried key', h_c10_ics='8 key names with their SHA-256 hashes, any subset of 5 present, one symbolic operation; ics23 proof of every name at every version', h_c10_icshist='4 names, one symbolic operation in each of 4 versions', h_c10_icsval='symbolic two-byte values'),
        reach={'h_c10_churn': ['leftmost', 'rightmost', 'middle'], 'h_c10_ics': ['ics23 present', 'ics23 absent']}),
    'C11': dict(q=[('h_c11_version', 1), ('h_c11_nodekey', 1), ('h_c11_symversion', 1), ('h_c11_records', 1), ('h_c11_node', 1), ('h_c11_history', 2), ('h_c11_symhist', 3), ('h_c11_crowd', 2), ('h_c11_big', 2), ('h_c11_churn', 3), ('h_c11_bulk', 3), ('h_c11_full', 3), ('h_c11_wide', 3), ('h_c11_routes', 4), ('h_c11_spine', 4), ('h_c11_deep', 4), ('h_c11_flat', 4)],
        bounds=dict(sc('C11', 'routes', 'flat', 'churn', 'history', 'symhist', 'bulk', 'wide', 'full', 'deep', 'spine', 'big', 'crowd'), h_c11_version='any two 64-bit versions', h_c11_nodekey='a node key with any 64-bit version and any path of up to 4 nibbles', h_c11_node='an inner node with two children of any kind at any 64-bit versions with any leaf counts (or unknown), two layouts', h_c11_records='any leaf, stale index and statistics record', h_c11_symversion='a two-version tree first written at any 64-bit version, symbolic value bytes'),
        reach={}),
    'C12': dict(q=[('h_c12_batch', 2), ('h_c12_tree', 2), ('h_c12_put', 3), ('h_c12_nodes', 3), ('h_c12_one', 4), ('h_c12_two', 4), ('h_c12_five', 5)],
        bounds=dict(h_c12_one='4 writes (value or deletion) of one key at any 64-bit versions, then every query at any 64-bit version', h_c12_two='3 writes over two keys, otherwise the same', h_c12_batch='a batch of 3 entries at two symbolic versions on top of another write', h_c12_tree='the history that 3 versions of symbolic tree updates write, queried at any 64-bit version', h_c12_five='5 writes of one key', h_c12_put='4 writes of two keys into a bare history at any 64-bit versions, equal values included', h_c12_nodes='3 writes of leaves with their values (alone, in a batch with a value of another key, or only the value) of 3 keys at 3 versions and 2 positions, some to be refused'),
        reach={}),
    'C13': dict(q=[('h_c13_lengths', 1), ('h_c13_range', 1), ('h_c13_rangesmall', 1), ('h_c13_small', 1), ('h_c13_bytes', 3), ('h_c13_decode', 4)],
        bounds=dict(h_c13_small='leaf or none, 0-3 siblings, symbolic bytes in leaf key, queried key, value, siblings and root', h_c13_lengths='0, 1, 2, 3, 64, 255, 256, 257 or 300 siblings; no leaf, the own leaf or two others', h_c13_range='the same numbers of left and of right siblings (81 combinations), three keys', h_c13_rangesmall='0-3 left and right siblings, symbolic key bytes', h_c13_bytes='any string of up to 7 bytes decoded as proof, range proof, node, node key, update batch', h_c13_decode='12 lengths up to 102 bytes, tag and length bytes fully symbolic, decoded with both encodings, then verified'),
        reach={}),
    'C14': dict(q=[('h_c14_unwritten', 1), ('h_c14_unwrittenkeys', 1), ('h_c14_history', 2), ('h_c14_symhist', 2), ('h_c14_big', 2), ('h_c14_ubig', 2), ('h_c14_uhistory', 2), ('h_c14_churn', 4), ('h_c14_uchurn', 4), ('h_c14_wide', 3), ('h_c14_routes', 4), ('h_c14_uroutes', 4), ('h_c14_lasting', 3), ('h_c14_spine', 4), ('h_c14_deep', 4), ('h_c14_uspine', 3), ('h_c14_udeep', 4), ('h_c14_flat', 4), ('h_c14_uflat', 4)],
        bounds=dict({k: v + '; any one stored node of any version, or the values of any one key, missing or unreadable (symbolic choice); every read, proof and iteration' for k, v in sc('C14', 'routes', 'flat', 'churn', 'history', 'symhist', 'wide', 'deep', 'spine', 'lasting', 'big').items()}, **{'h_c14_u' + n: SC[n] + '; then one further update with any one stored node missing or unreadable' for n in ('flat', 'churn', 'history', 'deep', 'spine', 'big', 'routes')}, h_c14_unwritten='every read at a version before the first or after the last written', h_c14_unwrittenkeys='the same with symbolic keys'),
        reach={}),
    'C15': dict(q=[('h_c15_pairs', 1), ('h_c15_ops', 2), ('h_c15_deep', 3), ('h_c15_keys', 4), ('h_c15_batch', 5), ('h_c15_order', 6), ('h_c15_batchdeep', 6)],
        bounds=dict(h_c15_ops='3 versions of one symbolic operation on 3 keys, on an empty or a filled tree, in one call or in two', h_c15_keys='the same with 2 symbolic keys', h_c15_deep='keys sharing 16 and 31 bytes', h_c15_pairs='2 versions of two symbolic operations each (repeats on one key included)', h_c15_order='3 symbolic keys, any subset, any operation per key, the set rotated', h_c15_batch='the batch entry point: 1-2 insert-only versions over 3 keys, two symbolic; in migration mode or not, with and without given node hashes', h_c15_batchdeep='the same over 6 keys, two of them symbolic and sharing 1, 2, 16 or 31 bytes'),
        reach={}),
    'C16': dict(q=[('h_c16_pairs', 1), ('h_c16_window', 1), ('h_c16_tree', 2), ('h_c16_dense', 3), ('h_c16_quarters', 2), ('h_c16_half', 5), ('h_c16_any', 8)],
        bounds=dict(h_c16_any='any of the 3^16 nodes (each child absent, leaf or internal), every index', h_c16_half='8 children of one half arbitrary (3^8), at most one in the other', h_c16_quarters='each quarter empty, with one leaf or inner child anywhere, two, or four leaves; every index', h_c16_dense='all 16 children leaves, inner, absent or mixed (5 patterns), any one or two of them changed to any kind, every index', h_c16_pairs='any one or two children of any kind (inner children of unknown leaf count included), every index', h_c16_window='any quarter arbitrary on one of 4 backgrounds', h_c16_tree='root nodes built by the tree itself from 6 symbolic children in 3 layouts'),
        reach={}),
    'P01': dict(q=[('h_p01_value', 1), ('h_p01_dense', 2), ('h_p01_many', 2), ('h_p01_chain', 2), ('h_p01_crowd', 2), ('h_p01_empty', 1), ('h_p01_full', 1), ('h_p01_long', 5), ('h_p01_prefix', 4), ('h_p01_sym', 4), ('h_p01_spine', 4), ('h_p01_wide', 3), ('h_p01_sym2', 4)], t=[('h_p01_prefix3', 5), ('h_p01_long3', 5)],
        bounds=dict(sc('P01', 'value', 'dense', 'many', 'chain', 'crowd', 'full', 'spine', 'long', 'prefix', 'sym', 'wide', 'sym2', 'prefix3', 'long3'), h_p01_empty='an empty value for any key of (or near) prefix-related keys, any subset present'),
        reach={'h_p01_prefix': ['empty', 'some']}),
    'P02': dict(q=[('h_p02_value', 1), ('h_p02_dense', 2), ('h_p02_many', 2), ('h_p02_chain', 2), ('h_p02_crowd', 2), ('h_p02_full', 1), ('h_p02_long', 4), ('h_p02_prefix', 4), ('h_p02_sym', 3), ('h_p02_spine', 4), ('h_p02_wide', 4), ('h_p02_sym2', 4)], t=[('h_p02_prefix3', 5), ('h_p02_long3', 5)],
        bounds=sc('P02', 'value', 'dense', 'many', 'chain', 'crowd', 'full', 'spine', 'long', 'prefix', 'sym', 'wide', 'sym2', 'prefix3', 'long3'),
        reach={'h_p02_prefix': ['empty', 'one', 'many']}),
    'P03': dict(q=[('h_p03_shared', 1), ('h_p03_abandon', 2), ('h_p03_switch', 3), ('h_p03_value', 1), ('h_p03_dense', 2), ('h_p03_many', 2), ('h_p03_chain', 2), ('h_p03_crowd', 2), ('h_p03_full', 2), ('h_p03_sym', 4), ('h_p03_prefix', 5), ('h_p03_long', 4), ('h_p03_spine', 4), ('h_p03_wide', 3), ('h_p03_sym2', 4)], t=[('h_p03_prefix3', 5), ('h_p03_long3', 5)],
        bounds=dict(sc('P03', 'value', 'dense', 'many', 'chain', 'crowd', 'full', 'spine', 'long', 'prefix', 'sym', 'wide', 'sym2', 'prefix3', 'long3'), h_p03_abandon='the same in a light store at its last root: two symbolic operations left uncommitted, proofs asked or not, then an optional insertion or removal through a handle taken to the root, committed', h_p03_switch='any subset of 4 prefix-related keys, an optional further committed operation, two symbolic operations left uncommitted; then a handle taken to either committed root, an optional insertion there, both committed', h_p03_shared='equal values under equal key suffixes (identical subtrees), 2 symbolic operations'),
        reach={'h_p03_prefix': ['reopened', 'old roots']}),
    'P04': dict(q=[('h_p04_value', 1), ('h_p04_dense', 2), ('h_p04_many', 2), ('h_p04_chain', 2), ('h_p04_crowd', 2), ('h_p04_full', 2), ('h_p04_sym', 4), ('h_p04_prefix', 5), ('h_p04_long', 4), ('h_p04_spine', 4), ('h_p04_wide', 3), ('h_p04_sym2', 4)], t=[('h_p04_long3', 5)],
        bounds=sc('P04', 'value', 'dense', 'many', 'chain', 'crowd', 'full', 'spine', 'long', 'prefix', 'sym', 'wide', 'sym2', 'long3'),
        reach={'h_p04_prefix': ['present', 'absent', 'uncommitted']}),
    'P05': dict(q=[('h_p05_value', 1), ('h_p05_arbitrary', 1), ('h_p05_replay', 2), ('h_p05_mix', 2), ('h_p05_dense', 4), ('h_p05_mutate', 5)],
        bounds=dict(h_p05_mutate='a trie of 2-4 keys, any one byte of any node of its proof replaced by any other, a node dropped; any key asked', h_p05_arbitrary='an arbitrary node in place of, or besides, the true ones', h_p05_dense='a branch of 16 hashed children with no, a short or a long value: any byte at any offset xored with any value, a leaf altered or not, keys on both sides', h_p05_mix='any subset of the true nodes in several orders, with nodes of another trie', h_p05_replay='a proof for one key offered for another, and for another root', h_p05_value='attacker-chosen stored values'),
        reach={'h_p05_mutate': ['rejected']}),
    'P06': dict(q=[('h_p06_value', 1), ('h_p06_dense', 2), ('h_p06_many', 2), ('h_p06_chain', 2), ('h_p06_crowd', 2), ('h_p06_full', 2), ('h_p06_sym', 4), ('h_p06_prefix', 5), ('h_p06_long', 4), ('h_p06_spine', 4), ('h_p06_wide', 3), ('h_p06_sym2', 4)], t=[('h_p06_prefix3', 5)],
        bounds=sc('P06', 'value', 'dense', 'many', 'chain', 'crowd', 'full', 'spine', 'long', 'prefix', 'sym', 'wide', 'sym2', 'prefix3'),
        reach={'h_p06_prefix': ['empty', 'some']}),
    'P07': dict(q=[('h_p07_deep', 1), ('h_p07_blob', 1), ('h_p07_nested', 2), ('h_p07_pair', 2), ('h_p07_blob7', 3), ('h_p07_branch', 5), ('h_p07_honest', 5)],
        bounds=dict(h_p07_blob='any item of 0-4 bytes', h_p07_blob7='any item of 0-7 bytes', h_p07_pair='two-item lists with any path of up to 3 bytes and any second item of up to 4 bytes', h_p07_branch='lists of 0-18 items around an arbitrary one', h_p07_nested='a node with any path of up to 3 bytes below two levels of branch or extension, by hash or embedded', h_p07_honest='an honest proof with any byte replaced', h_p07_deep='lists nested 3, 10, 30, 3 000 and 40 000 deep'),
        reach={}),
    'P08': dict(q=[('h_p08_fault', 2), ('h_p08_prefix', 4), ('h_p08_chain', 2), ('h_p08_dense', 3), ('h_p08_wide', 3), ('h_p08_long', 3), ('h_p08_ops', 4), ('h_p08_spine', 4), ('h_p08_sym', 5)],
        bounds=dict({'h_p08_' + n: PM[n].rsplit(', then ', 1)[0].replace(', uncommitted / committed / re-opened', '').replace(', 2 symbolic operations, each followed by nothing, a commit or a commit and re-opening', '').replace(', 2 symbolic operations on 6 of the children or the branch value (1 for P04)', '') + '; committed, any one of up to 20 stored nodes missing, any operation on any key or an absent one, a commit in between or not' for n in ('wide', 'spine', 'long', 'chain', 'dense')}, h_p08_prefix='prefix-related keys, any subset, any one stored node missing, any operation on any key, a commit in between or not', h_p08_ops='the same after one symbolic uncommitted operation', h_p08_sym='the same with two symbolic two-byte keys', h_p08_fault='the n-th store access failing (n symbolic) during 2 symbolic operations and a commit'),
        reach={'h_p08_prefix': ['missing reported', 'commit in between']}),
    'P09': dict(q=[('h_p09_fixed', 3), ('h_p09_sym', 2)],
        bounds=dict(h_p09_fixed='3 fixed keys (the empty one included), 3 operations (insert, remove, batches of distinct, equal, empty, repeated or no entries, flush) on any of them, light or not, through copies', h_p09_sym='three keys of 1, 1-2 and 32 bytes with symbolic bytes (equal or not), 2 operations'),
        reach={'h_p09_fixed': ['empty', 'some']}),
    'P10': dict(q=[('h_p10_long', 1), ('h_p10_crowd', 2), ('h_p10_prefix', 2), ('h_p10_clonelong', 3), ('h_p10_value', 3), ('h_p10_spine', 3), ('h_p10_clonespine', 3), ('h_p10_wide', 3), ('h_p10_cloneprefix', 4), ('h_p10_clonesym', 4), ('h_p10_clonewide', 3), ('h_p10_sym', 4)],
        bounds=dict({'h_p10_' + n: PM[n].replace('2 symbolic operations', '1 symbolic operation') + '; serialised with bincode and back' for n in ('long', 'prefix', 'value', 'wide', 'sym', 'spine', 'crowd')}, **{'h_p10_clone' + n: 'the contents of ' + n + ' (' + PM[n].split(',')[0] + '), committed or not, cloned, then one symbolic operation or commit on either copy' for n in ('long', 'prefix', 'sym', 'wide', 'spine')}),
        reach={'h_p10_prefix': ['in memory', 'partly stored']}),
}
TECH = 'symbolic execution of the optimised LLVM IR of the crates (own engine) with z3 deciding every branch; bounded inputs; native replay'
