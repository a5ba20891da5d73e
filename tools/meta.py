#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(root + '/tools/props/*.json')):
    p = json.load(open(f)); note = p.pop('note', None); reason = p.pop('not_applicable', None)
    p['id'] = os.path.basename(f)[:-5]
    p = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
    if isinstance(p['anchors']['mechanism'][0], str):
        p['anchors']['mechanism'] = [dict(zip(('name', 'where'), m.split(' @ '))) for m in p['anchors']['mechanism']]
    assert len(p['title']) <= 80, p['id']
    props.append(p)
    if reason: na.append({'property': p['id'], 'reason': reason}); continue
    checks.append({'property': p['id'], 'quick_cmd': f"python3 tools/check.py {p['id']} --tier quick", 'thorough_cmd': f"python3 tools/check.py {p['id']} --tier thorough",
        'technique': "bounded symbolic execution of the compiled C++ (LLVM IR of the real code, regenerated each run) with Z3 deciding every path condition and assertion; counterexamples replayed natively",
        'level': 'model_checking', 'level_note': "Exhaustive within the bounds stated per entry point (see evidence). " + (note + " " if note else "") + "Trusts: clang's front end and -O1, this engine's IR semantics and its stand-ins for out-of-line libstdc++ parts, Z3, and the reference model in the harness."})
open(root + '/properties.jsonl', 'w').write(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in props))
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na}, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(props), 'properties', len(checks), 'checks')
