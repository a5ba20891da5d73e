#!/usr/bin/env python3
"""mutate.py N SEED [PID...] [--file F]: development aid, used by no check. Random small changes of the anchored sources in a scratch copy (/tmp/mu/repo);
for each, the checks anchored at that file run until one reports a violation; the test suite runs on the survivors. Appends to /tmp/mu/log.jsonl."""
import sys, os, re, json, random, subprocess, time, threading, tempfile, shutil, signal
src = open('/verif/tools/check.py').read().split('\ndef main')[0]
ns = {'__file__': '/verif/tools/check.py'}; exec(src, ns)
BASE = os.environ.get('MUBASE', '/repo')  # the tree the changes start from
MU = '/tmp/mu/' + os.environ.get('MU', '0'); RR = MU + '/repo'
if not os.path.exists(RR):
    os.makedirs(MU); subprocess.check_call(['cp', '-a', BASE, RR])
ns['R'] = RR; ns['FL'][:] = [f.replace('/repo/', RR + '/') for f in ns['FL']]; ns['BCFL'][:] = [f.replace('/repo/', RR + '/') for f in ns['BCFL']]
V = '/verif'; B = MU + '/build'; os.makedirs(B, exist_ok=True)
props = {f[:-5]: json.load(open(V + '/tools/props/' + f))['anchors']['files'] for f in sorted(os.listdir(V + '/tools/props'))}
args = sys.argv[1:]; n, seed = int(args[0]), int(args[1]); rest = args[2:]
onlyf = None
if '--file' in rest: i = rest.index('--file'); onlyf = rest[i + 1]; del rest[i:i + 2]
pids = rest or sorted(props); rnd = random.Random(seed)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
import concurrent.futures as cf
pool = cf.ThreadPoolExecutor(8)
def run(pid):
    """first violation of the quick check of pid, or None; 'compile' when it does not compile"""
    tmp = tempfile.mkdtemp(dir=B); t0 = time.time(); ps = []
    try:
        Hs = [ns['parse'](V + '/harness/' + f) for f in sorted(os.listdir(V + '/harness')) if re.match(pid + r'(_\w+)?\.cpp$', f)]
        try: bcs = [ns['bitcode'](h, tmp, pool) for h in Hs]
        except ns['Fail'] as e: return 'compile'
        todo = [(H, bc, e) for H, bc in zip(Hs, bcs) for e in H['entries'] if e['tier'] != 'thorough']; live = []
        while todo or live:
            while todo and len(live) < 8:
                H, bc, e = todo.pop(0); out = '%s/%s.jsonl' % (tmp, e['name'])
                p = subprocess.Popen([V + '/build/wsym', bc, '--entry', e['name'], '--out', out, '--jobs', '8', '--slots', tmp + '/slots', '--deadline', str(e['quick']), '--max-instr', str(e['maxinstr']), '--thorough', '0'] + H['engine'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True); live.append((p, e['name'], out)); ps.append(p)
            time.sleep(0.1)
            for x in live[:]:
                p, nm, out = x; fin = p.poll() is not None
                if os.path.exists(out):
                    for l in open(out, errors='replace'):
                        if '"viol"' in l[:40]:
                            try: return nm + ': ' + json.loads(l)['msg']
                            except ValueError: pass
                if fin: live.remove(x)
        return None
    finally:
        for p in ps:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(tmp, ignore_errors=True)
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+\+', '--'), (r'if \((?!constexpr)', 'if (!!!('), ('case [\w:\']+: (?=case)', ''), (r'\bbreak;', ';'), (r'\breturn;', ';'), (r'\+= ', '-= '), (r' & ', ' | '), (r' << ', ' >> ')]
def mutants(path):
    raw = open(path, 'rb').read().decode('utf-8'); nl = '\r\n' if '\r\n' in raw else '\n'; L = raw.split(nl); res = []; com = False
    for i, l in enumerate(L):
        s = l.strip()
        if com: com = '*/' not in s; continue
        if s.startswith('/*') : com = '*/' not in s; continue
        if not s or s[0] in '#*/@' or s.startswith(('using', 'template', 'static_assert', 'assert', 'friend', 'namespace')) or s in '{}': continue
        c = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, c):
                if b == 'if (!!!(':
                    if not c.rstrip().endswith(')'): continue
                    t = c[:m.start()] + 'if (!(' + c[m.end():].rstrip() + ')'
                else: t = c[:m.start()] + b + c[m.end():]
                res.append((i, t))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.'])", c): res.append((i, c[:m.start()] + str(int(m.group()) + 1) + c[m.end():]))
        for m in re.finditer(r"0x([0-9A-Fa-f]+)", c): res.append((i, c[:m.start()] + hex(int(m.group(1), 16) + rnd.choice([1, -1] if int(m.group(1), 16) else [1])) + c[m.end():]))
        for m in re.finditer(r"U'(\w)'", c): res.append((i, c[:m.start()] + "U'%s'" % chr(ord(m.group(1)) + 1) + c[m.end():]))
        if s.endswith(';') and not s.startswith(('return', 'break', 'case', 'else', 'if', 'goto', 'continue')) and ('(' in s or re.match(r'[\w.>\[\]\-]+ [-+|]?= ', s)) and not re.match(r'(auto|const|std::|[\w:<>]+[&*]? \w+\b( =|;|\())', s): res.append((i, c[:len(c) - len(c.lstrip())] + ';'))
        if s.endswith(';') and s.startswith('if ('): res.append((i, ';'))
    return raw, nl, L, res
log = open('/tmp/mu/log.jsonl', 'a'); cnt = {}
for k in range(n):
    for pid in pids:
        f = onlyf or rnd.choice([x for x in props[pid] if os.path.exists(BASE + '/' + x)] or ['']); P = RR + '/' + f
        if not f: continue
        raw, nl, L, ms = mutants(BASE + '/' + f)
        if len(ms) == 0: continue
        w = [m for m in ms if not (f.endswith('atom_tbl.cpp') or 'indexes_' in f) or rnd.random() < 0.1]
        i, t = rnd.choice(w or ms)
        M = L[:]; M[i] = t; t0 = time.time(); verdict = None
        try:
            open(P, 'wb').write(nl.join(M).encode())
            order = [pid] + [q for q in sorted(props) if q != pid and f in props[q]]; tried = []
            for q in order:
                r = run(q); tried.append(q)
                if r == 'compile': verdict = 'compile'; break
                if r: verdict = 'caught %s %s' % (q, r); break
            if verdict is None:
                tj = MU + '/t.json'
                subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && bash /opt/vp/build.sh; timeout 1500 bash /opt/vp/test.sh %s' % (RR, tj)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try: p = set(json.load(open(tj))['passed'])
                except Exception: p = set()
                verdict = 'SURVIVED' if base <= p else 'test-killed'
        finally: shutil.copy2(BASE + '/' + f, P); os.utime(P)
        rec = dict(pid=pid, file=f, line=i + 1, old=L[i].strip(), new=t.strip(), verdict=verdict, s=round(time.time() - t0), tried=tried); log.write(json.dumps(rec, ensure_ascii=False) + '\n'); log.flush()
        if verdict != 'compile': print(pid, verdict[:80], '%s:%d' % (f, i + 1), '|', L[i].strip()[:90], '=>', t.strip()[:90], rec['s'], flush=True)
