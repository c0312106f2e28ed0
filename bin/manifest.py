#!/usr/bin/env python3
"""regenerates MANIFEST.json from config.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS, TECH
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
try: from config import NOT_APPLICABLE as NA
except ImportError: pass
m = dict(version=1, setup_cmd='python3 bin/build.py',
  hooks=dict(guard='cargo feature `mocks` of the jmt crate', enable='the harness crates depend on jmt with features = ["mocks", "ics23"] (hsym/Cargo.toml, hreal/Cargo.toml)', source_commits=['c1ae6b5']),
  checks=[dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i, thorough_cmd='python3 bin/check.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=TECH, level='model_checking',
    level_note='Every path of the real code over the bounded symbolic inputs named in the evidence (harness_runs[].bounds) is decided by the solver or listed as pending when a time budget ended first (all_paths_within_bounds_explored=false). Trusts: ideal hashing, rustc/LLVM lowering, the engine; counterexamples and sampled paths are replayed natively. Nothing is claimed beyond the stated bounds.') for i in ids if i in PROPS],
  not_applicable=[dict(property=i, reason=NA.get(i, 'machinery not built yet')) for i in ids if i not in PROPS],
  notes='The one hook re-exports the otherwise unnameable type ExclusionProof; harnesses use public interfaces only. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
