#!/usr/bin/env python3
"""plant.py DIR...: takes seeded/<id> changes through apply, build, tests, demo, own check, undo. Development aid; no check uses it."""
import subprocess, sys, os, json, time
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
notest = '--notest' in sys.argv
for d in [a for a in sys.argv[1:] if not a.startswith('--')]:
    d = os.path.abspath(d); meta = json.load(open(d + '/meta.json')); P = meta['property']
    assert not sh('git -C /repo status --short').stdout.strip(), 'dirty /repo'
    r = {}
    try:
        a = sh(f'git -C /repo apply {d}/patch.diff'); r['applies'] = a.returncode == 0
        if not r['applies']: print(d, 'does not apply', a.stderr); continue
        if notest: b = sh('bash /opt/vp/build.sh'); r['build'] = b.returncode == 0
        else:
            sh('bash /opt/vp/test.sh /tmp/plant.json'); t = set(json.load(open('/tmp/plant.json'))['passed']); r['tests'] = base <= t
            if not base <= t: r['lost'] = sorted(base - t)[:5]
        m = sh(f'bash {d}/demo.sh', cwd='/repo'); r['demo_bug'] = m.returncode; r['demo_out'] = (m.stdout + m.stderr)[-200:]
        t0 = time.time(); c = sh(f'python3 tools/check.py {P} --tier quick', cwd='/verif'); r['check'] = c.returncode; r['viol'] = [l for l in c.stdout.splitlines() if 'VIOLATION' in l][:2]; r['secs'] = round(time.time() - t0)
        if c.returncode not in (0, 1): r['out'] = c.stdout[-500:] + c.stderr[-500:]
    finally: sh('git -C /repo checkout -- .')
    if '--nobase' not in sys.argv:
        sh('bash /opt/vp/build.sh'); m = sh(f'bash {d}/demo.sh', cwd='/repo'); r['demo_base'] = m.returncode
        if m.returncode: r['demo_base_out'] = (m.stdout + m.stderr)[-600:]
    ok = r.get('tests', r.get('build')) and r['demo_bug'] != 0 and r.get('demo_base', 0) == 0
    print(os.path.basename(d), 'VALID' if ok else 'INVALID', 'CAUGHT' if r['check'] == 1 else 'MISSED', r, flush=True)
