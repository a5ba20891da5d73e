#!/usr/bin/env python3
"""addfixed.py PID N : append 'fixed:' lines for the last N commits of /repo (oldest first) that are not listed yet."""
import subprocess, sys
pid, n = sys.argv[1], int(sys.argv[2])
have = open('/verif/known_findings.txt').read()
out = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '-%d' % n], text=True).splitlines()[::-1]
with open('/verif/known_findings.txt', 'a') as f:
    for l in out:
        h, s = l.split(' ', 1)
        if s.startswith('fix: ') and h not in have: f.write('fixed: property=%s %s %s\n' % (pid, h, s[5:]))
