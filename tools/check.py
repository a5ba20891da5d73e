#!/usr/bin/env python3
"""Runs the solver-based check of one property.

  check.py <PROPERTY> [--tier quick|thorough] [--entry h_x] [--keep]

harness/<PROPERTY>*.cpp are compiled together with /repo's current headers and sources to LLVM bitcode,
each entry is executed symbolically by the engine (build/wsym), every counterexample is replayed against a
native build of the same sources, and evidence/<PROPERTY>.json is rewritten.
Exit 0: held on everything explored; 1: VIOLATION line(s) printed; 2: the check itself failed.
"""
import sys, os, re, json, subprocess, time, tempfile, shutil, threading, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
B = V + '/build'
NCPU = min(8, os.cpu_count() or 1)
CLANG = 'clang++-18'
FL = ['-std=c++20', '-include', V + '/runtime/pre.h', '-I' + R + '/include', '-I' + R + '/lib', '-I' + V + '/runtime', '-I' + V + '/harness', '-w', '-D_GLIBCXX_ASSERTIONS']
BCFL = FL + ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVP_SYMBOLIC', '-emit-llvm', '-c']
LIBS = ['-licuuc', '-licui18n', '-licudata']
VARIANTS = {'plain': ['-O1'], 'asan': ['-O1', '-g', '-fsanitize=address', '-ftrivial-auto-var-init=pattern'], 'zero': ['-O1', '-ftrivial-auto-var-init=zero']}


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


class Fail(Exception):
    pass


def engine():
    if not os.path.exists(B + '/wsym') or True:
        r = sh(['bash', V + '/engine/build.sh', B])
        if r.returncode:
            raise Fail('engine build failed:\n' + r.stdout[-3000:])
    return B + '/wsym'


def parse(path):
    src = open(path).read()
    H = {'path': path, 'name': os.path.basename(path)[:-4], 'libs': [], 'entries': [], 'flags': [], 'rt': ['runtime/rt.cpp'], 'assume': [], 'engine': []}
    for m in re.finditer(r'^// @(\w+) (.*)$', src, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k == 'libs':
            H['libs'] += v.split()
        elif k == 'rt':
            H['rt'] += v.split()
        elif k == 'flags':
            H['flags'] += v.split()
        elif k == 'engine':
            H['engine'] += v.split()
        elif k == 'assume':
            H['assume'].append(v)
        elif k == 'entry':
            hd, _, desc = v.partition(' : ')
            t = hd.split()
            e = {'name': t[0], 'desc': desc.strip(), 'quick': 300.0, 'thorough': 900.0, 'maxinstr': 20000000, 'tier': 'quick'}
            for o in t[1:]:
                a, _, b = o.partition('=')
                e[a] = float(b) if a in ('quick', 'thorough') else int(b) if a == 'maxinstr' else b
            H['entries'].append(e)
    return H


def bitcode(H, tmp, pool):
    H['libs'] = [l for l in H['libs'] if os.path.exists(R + '/' + l)]
    jobs = [(H['path'], H['flags'])] + [(R + '/' + l, H['flags']) for l in H['libs']] + [(V + '/' + r, H['flags']) for r in H['rt']]
    outs = [tmp + '/%s.%d.bc' % (H['name'], i) for i in range(len(jobs))]
    rs = list(pool.map(lambda a: sh([CLANG] + BCFL + a[0][1] + [a[0][0], '-o', a[1]]), zip(jobs, outs)))
    for r, j in zip(rs, jobs):
        if r.returncode:
            raise Fail('cannot compile %s:\n%s' % (j[0], r.stdout[-4000:]))
    out = tmp + '/' + H['name'] + '.bc'
    r = sh(['llvm-link-18'] + outs + ['-o', out])
    if r.returncode:
        raise Fail('llvm-link failed:\n' + r.stdout[-3000:])
    # code of the library that now lies in a source file the harness does not name
    und = [l.split()[-1] for l in sh(['llvm-nm-18', '--undefined-only', out]).stdout.splitlines() if 'wordring' in l and l.split()[-1].startswith('_Z')]
    if und:
        more = []
        for d, _, fs in sorted(os.walk(R + '/lib')):
            more += [os.path.relpath(os.path.join(d, f), R) for f in sorted(fs) if f.endswith(('.cpp', '.cc', '.cxx'))]
        more = [m for m in more if m not in H['libs']]
        mo = ['%s/%s.m%d.bc' % (tmp, H['name'], i) for i in range(len(more))]
        rs = list(pool.map(lambda a: sh([CLANG] + BCFL + H['flags'] + [R + '/' + a[0], '-o', a[1]]), zip(more, mo)))
        have = [(m, o) for m, o, r in zip(more, mo, rs) if not r.returncode]
        use = []
        while True:  # files that define what is missing, and what they in turn need
            add = [(m, o) for m, o in have if (m, o) not in use and set(und) & {l.split()[-1] for l in sh(['llvm-nm-18', '--defined-only', o]).stdout.splitlines() if l.split()}]
            if not add:
                break
            use += add
            und += [l.split()[-1] for m, o in add for l in sh(['llvm-nm-18', '--undefined-only', o]).stdout.splitlines() if 'wordring' in l]
        if use:
            r = sh(['llvm-link-18', out] + [o for m, o in use] + ['-o', out])
            if r.returncode:
                raise Fail('llvm-link failed:\n' + r.stdout[-3000:])
            H['libs'] += [m for m, o in use]
    return out


class Native:
    """native builds of a harness, made on demand"""
    def __init__(self, H, tmp):
        self.H, self.tmp, self.lock, self.exe = H, tmp, threading.Lock(), {}

    def get(self, var):
        with self.lock:
            if var in self.exe:
                return self.exe[var]
            d = '%s/%s.%s' % (self.tmp, self.H['name'], var)
            os.makedirs(d, exist_ok=True)
            srcs = [self.H['path'], V + '/runtime/vp_native.cpp'] + [R + '/' + l for l in self.H['libs']]
            fl = [f for f in FL] + VARIANTS[var] + self.H['flags'] + ['-DVP_NATIVE']
            ps = [subprocess.Popen([CLANG] + fl + ['-c', s, '-o', '%s/%d.o' % (d, i)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for i, s in enumerate(srcs)]
            for p, s in zip(ps, srcs):
                o = p.communicate()[0]
                if p.returncode:
                    raise Fail('native build of %s failed:\n%s' % (s, o[-3000:]))
            exe = d + '/a.out'
            r = sh([CLANG, '-rdynamic'] + (['-fsanitize=address'] if var == 'asan' else []) + ['%s/%d.o' % (d, i) for i in range(len(srcs))] + ['-o', exe] + LIBS + ['-ldl'])
            if r.returncode:
                raise Fail('native link failed:\n' + r.stdout[-3000:])
            self.exe[var] = exe
            return exe

    def run(self, var, entry, inputs, thorough, timeout=20):
        f = tempfile.NamedTemporaryFile('w', dir=self.tmp, suffix='.in', delete=False)
        for n, b, v in inputs:
            f.write('%d %s %s\n' % (b, v, n))
        f.close()
        env = dict(os.environ, VP_REPLAY=f.name, VP_ENTRY=entry, VP_THOROUGH='1' if thorough else '0', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_container_overflow=0', MALLOC_PERTURB_='165')
        try:
            cmd = ['bash', '-c', 'ulimit -c 0; ' + ('' if var == 'asan' else 'ulimit -v 8000000; ') + 'exec "$0"', self.get(var)]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, timeout=timeout)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, out = 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        os.unlink(f.name)
        return rc, out


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split('\n')


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, keep = None, False
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--entry':
            only = a.pop(0)
        elif x == '--keep':
            keep = True
    thorough = tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 3000.0 if thorough else 600.0
    W = engine()
    files = sorted(f for f in os.listdir(V + '/harness') if re.match(pid + r'(_\w+)?\.cpp$', f))
    if not files:
        raise Fail('no harness for ' + pid)
    tmp = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=B)
    known = {}
    for l in open(V + '/known_findings.txt') if os.path.exists(V + '/known_findings.txt') else []:
        m = re.match(r'KNOWN-FINDING: property=(\S+) id=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            known[m.group(2)] = m.group(3).strip()
    try:
        Hs = [parse(V + '/harness/' + f) for f in files]
        pool = cf.ThreadPoolExecutor(NCPU)
        lpool = cf.ThreadPoolExecutor(len(Hs))
        bcs = list(lpool.map(lambda h: bitcode(h, tmp, pool), Hs))
        tcomp = time.time() - t0
        slots = tmp + '/slots'
        tasks = []
        for H, bc in zip(Hs, bcs):
            H['native'] = Native(H, tmp)
            for e in H['entries']:
                if only and e['name'] != only:
                    continue
                if e['tier'] == 'thorough' and not thorough:
                    continue
                tasks.append((H, bc, e))
        # native builds run alongside the engine: they replay witnesses and counterexamples
        nat = cf.ThreadPoolExecutor(2)
        natf = [nat.submit(H['native'].get, 'plain') for H in Hs]

        def one(t):
            H, bc, e = t
            out = '%s/%s.%s.jsonl' % (tmp, H['name'], e['name'])
            left = max(5.0, budget - (time.time() - t0))
            dl = min(e[tier], left)
            r = sh([W, bc, '--entry', e['name'], '--out', out, '--jobs', str(NCPU), '--slots', slots, '--deadline', '%.1f' % dl,
                    '--max-instr', str(e['maxinstr']), '--thorough', '1' if thorough else '0'] + H['engine'])
            recs = []
            for l in open(out, errors='replace') if os.path.exists(out) else []:
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
            return r, recs
        res = list(cf.ThreadPoolExecutor(NCPU).map(one, tasks))
        for f in natf:
            f.result()
        tot = dict(paths=0, forks=0, instrs=0, checks=0, checks_const=0, queries=0, sat=0, unsat=0, unknown=0, tt=0, solver_s=0.0, err_paths=0)
        funcs, ents, viols, samples, notes = {}, [], [], [], []
        knownhit = set()
        ntrace = 0
        complete = True
        for (H, bc, e), (r, recs) in zip(tasks, res):
            done = [x for x in recs if x['t'] == 'done']
            if not done:
                raise Fail('engine gave no result for %s (rc %s): %s' % (e['name'], r.returncode, r.stdout[-2000:]))
            d = done[0]
            for k in tot:
                tot[k] += d.get(k, 0)
            inc = sorted({x['msg'] for x in recs if x['t'] == 'incomplete'})
            for x in recs:
                if x['t'] == 'funcs':
                    for n, ni, nf in x['f']:
                        funcs[n] = funcs.get(n, 0) + ni
            en = {'entry': e['name'], 'bounds': e['desc'], 'paths': d['paths'], 'solver_queries': d['queries'], 'unsat': d['unsat'], 'table_decided_branches': d['tt'], 'assertions': d['checks'], 'wall_s': round(d['wall_s'], 2), 'complete': not inc}
            if inc:
                complete = False
                en['incomplete'] = inc
                notes.append('%s: %s' % (e['name'], '; '.join(inc)))
            # reachability witnesses, replayed natively: the native run must pass too and reach the same point
            seen = set()
            covers = []
            for x in recs:
                if x['t'] == 'cover' and x['msg'] not in seen:
                    seen.add(x['msg'])
                    covers.append(x)
            for x in covers:
                if x['msg'].startswith('KNOWN:'):
                    kid = x['msg'].split()[0][6:]
                    rc, out = H['native'].run('plain', e['name'], x['inputs'], thorough)
                    if kid in known:
                        if 'VP: cover KNOWN:' + kid in out:
                            knownhit.add(kid)
                    else:
                        viols.append((H, e, dict(t='viol', kind='unlisted-finding', msg=x['msg'], where=e['name'], inputs=x['inputs']), rc, out, 'plain'))
                    continue
                rc, out = H['native'].run('plain', e['name'], x['inputs'], thorough)
                if 'VP: cover ' + x['msg'] in out:
                    ntrace += 1
                else:
                    notes.append('witness for "%s" in %s not confirmed natively (rc %s)' % (x['msg'], e['name'], rc))
                if len(samples) < 24:
                    samples.append({'entry': e['name'], 'reaches': x['msg'], 'inputs': [[n, v] for n, b, v in x['inputs']][:24]})
            en['reached'] = sorted(seen)
            ents.append(en)
            # counterexamples
            keys = {}
            for x in recs:
                if x['t'] == 'viol':
                    keys.setdefault((x['kind'], x['msg']), []).append(x)
            for k, xs in keys.items():
                ok = False
                for x in xs[:4]:
                    for var in ('plain', 'asan', 'zero'):
                        to = 20
                        rc, out = H['native'].run(var, e['name'], x['inputs'], thorough, to)
                        bad = rc != 0 and 'VP: assumption not met' not in out
                        if bad:
                            viols.append((H, e, x, rc, out, var))
                            ok = True
                            break
                        if x['kind'] == 'check' and var == 'asan':
                            continue
                    if ok:
                        break
                if not ok:
                    complete = False
                    notes.append('counterexample of %s (%s: %s) did not reproduce natively; not reported' % (e['name'], k[0], k[1]))
        rd = B + '/replay'
        os.makedirs(rd, exist_ok=True)
        lines = []
        for i, (H, e, x, rc, out, var) in enumerate(viols):
            p = '%s/%s-%d.txt' % (rd, pid, i)
            with open(p, 'w') as f:
                f.write('property %s\nharness %s entry %s\nengine: %s: %s\n  in %s\nnative replay (%s build): exit %s\n' % (pid, H['path'], e['name'], x['kind'], x['msg'], x['where'], var, rc))
                f.write('\n'.join(out.split('\n')[:60]) + '\n--- inputs (bits value name)\n')
                for n, b, v in x['inputs']:
                    f.write('%d %s %s\n' % (b, v, n))
            lines.append('VIOLATION property=%s replay=%s' % (pid, p))
            print('%s: %s: %s: %s' % (pid, e['name'], x['kind'], x['msg']))
        fd = sorted(((n, c) for n, c in funcs.items() if c), key=lambda z: -z[1])
        dm = demangle([n for n, c in fd])
        mine = [d.split('(')[0][-160:] for d in dm if 'wordring' in d.split('(')[0]]
        mine = list(dict.fromkeys(mine))
        cov = {'states': tot['paths'], 'transitions': tot['instrs'], 'traces_validated_against_impl': ntrace,
               'samples': samples, 'exhaustive': complete, 'assertion_instances': tot['checks'], 'assertions_decided_constant': tot['checks_const'],
               'queries_discharged': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'], 'branches_decided_by_value_table': tot['tt'], 'solver_seconds': round(tot['solver_s'], 2),
               'compile_seconds': round(tcomp, 1), 'entries': ents, 'functions_encoded_total': len(fd), 'functions_encoded_of_repo': len(mine), 'functions_encoded': mine[:150], 'notes': notes,
               'meaning': 'states = execution paths explored to the end (each a set of inputs described by a path condition); transitions = LLVM instructions executed symbolically; traces_validated = path witnesses replayed on a native build with the same outcome'}
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': sorted({s for H in Hs for s in H['assume']}), 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
        os.makedirs(V + '/evidence', exist_ok=True)
        with open(V + '/evidence/%s.json' % pid, 'w') as f:
            json.dump(ev, f, indent=1)
        for en in ents:
            print('%-28s paths=%-7d asserts=%-7d queries=%-6d %6.1fs %s' % (en['entry'], en['paths'], en['assertions'], en['solver_queries'], en['wall_s'], 'complete' if en['complete'] else 'INCOMPLETE: ' + '; '.join(en['incomplete'])[:300]))
        for n in notes:
            print('note: ' + n)
        for k in sorted(knownhit):
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]))
        for l in lines:
            print(l)
        print('%s %s: %s in %.1fs' % (pid, tier, 'VIOLATED' if lines else 'held on everything explored', time.time() - t0))
        return 1 if lines else 0
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


try:
    sys.exit(main())
except Fail as e:
    print('check failed: %s' % e)
    sys.exit(2)
