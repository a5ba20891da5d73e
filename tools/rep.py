#!/usr/bin/env python3
# rep.py FILE COUNT <<< "old\n=====\nnew"   exact replacement that keeps line endings
import sys
p = sys.argv[1]; c = int(sys.argv[2]) if len(sys.argv) > 2 else 1
a, b = sys.stdin.read().split('\n=====\n'); b = b.rstrip('\n') if not a.endswith('\n') else b
a = a.rstrip('\n'); b = b.rstrip('\n')
s = open(p, newline='').read(); nl = '\r\n' if '\r\n' in s else '\n'
a = a.replace('\n', nl); b = b.replace('\n', nl)
assert s.count(a) == c, (s.count(a), a)
open(p, 'w', newline='').write(s.replace(a, b))
