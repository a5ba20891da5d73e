#!/usr/bin/env python3
"""mkbug.py SPEC: writes seeded/<id>/ from a spec (development aid).
#id X / #property P / #file F (repeat with old ===== new blocks) / #needs / #breaks / #demo cpp"""
import sys, re, os, subprocess, json
for block in re.split(r'(?m)^#id ', sys.stdin.read())[1:]:
    bid, rest = block.split('\n', 1); bid = bid.strip(); d = f'/verif/seeded/{bid}'; os.makedirs(d, exist_ok=True)
    parts = re.split(r'(?m)^#(property|file|needs|breaks|demo|libs)\b ?', rest); meta = {}; edits = []; demo = ''; libs = False
    for k, v in zip(parts[1::2], parts[2::2]):
        if k == 'file':
            f, b = v.split('\n', 1); edits.append((f.strip(), *b.strip('\n').split('\n=====\n')))
        elif k == 'demo': demo = v.split('\n', 1)[1]
        elif k == 'libs': libs = True
        else: meta[k] = v.strip()
    assert not subprocess.run('git -C /repo status --short', shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for f, a, b in edits: subprocess.run(['python3', '/verif/tools/rep.py', '/repo/' + f], input=a + '\n=====\n' + b, text=True, check=True)
        open(d + '/patch.diff', 'wb').write(subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout)
    finally: subprocess.run('git -C /repo checkout -- .', shell=True)
    json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
    open(d + '/demo.cpp', 'w').write('#undef NDEBUG\n#include <algorithm>\n#include <cassert>\n#include <cstdint>\n#include <cstdio>\n#include <iterator>\n#include <limits>\n#include <memory>\n#include <string>\n#include <vector>\n#define EXPECT(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)\n' + demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$(pwd)
g++ -std=c++20 -O0 -w -include cstdint -I "$R/include" "$(dirname "$0")/demo.cpp" -o "$T/demo" %s|| exit 3
timeout 60 "$T/demo"
''' % ('"$R/_build/repo/lib/libwordring.a" -licuuc -licui18n ' if libs else ''))
    print('wrote', bid)
