#!/usr/bin/env python3
"""Development aid: checks planted changes and writes them to /verif/seeded.

usage: seedtool.py SPEC.py [ID ...]

SPEC.py defines SEEDS, a list of dicts: id, property, needs, breaks, edits
(a list of (file, old, new), old occurring once, or (file, old, new, n) for
its n-th occurrence) and demo (C++ source; its main returns 0 on the unchanged
tree and something else, or dies, with the change). A change is kept if it compiles, the
stable tests pass with it, and the demonstration tells the trees apart.
Nothing here is used by the checks."""
import json, os, re, shutil, subprocess, sys, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor

OUT = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# Builds and runs the demonstration beside this file against ./include.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
{cxx} -std=c++17 {flags} -Iinclude -I. "$here/demo.cpp" -o "$tmp/demo"
timeout 120 "$tmp/demo"
'''

def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def one(s):
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        t = os.path.join(d, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
        for e in s['edits']:
            f, old, new = e[:3]
            p = os.path.join(t, f)
            src = open(p).read()
            n = src.count(old)
            if len(e) == 3:
                if n != 1:
                    return s['id'], 'BAD: old text occurs %d times: %s' % (n, old[:60])
                src = src.replace(old, new)
            else:
                parts = src.split(old)
                k = e[3]
                if k >= n:
                    return s['id'], 'BAD: only %d occurrences' % n
                src = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, 'w').write(src)
        diff = subprocess.run(['git', 'diff'], cwd=t, capture_output=True,
                              text=True).stdout
        dst = os.path.join(d, 'out')
        os.mkdir(dst)
        open(dst + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        open(dst + '/demo.sh', 'w').write(DEMO_SH.format(
            flags=s.get('flags', '-O1'), cxx=s.get('cxx', 'g++')))
        rc, o = sh('bash %s/demo.sh' % dst, '/repo')
        if rc:
            return s['id'], 'DEMO FAILS ON UNCHANGED rc=%d %s' % (rc, o[-1500:])
        rc, o = sh('bash %s/demo.sh' % dst, t)
        if rc == 0:
            return s['id'], 'DEMO DOES NOT SHOW IT'
        why = (rc, o[-200:])
        if re.search(r'(cpp|hpp):\d+:\d+: (fatal )?error:', o):
            return s['id'], 'DEMO DOES NOT COMPILE WITH IT ' + o[:600]
        for k in (0, 512):
            rc, o = sh('ccache g++ -std=c++11 -O2 -g -include cstdint -include stdexcept '
                       '-Wall -Wextra -DBOOST_TEST_DYN_LINK -DTARGET_SIZE=%d -Iinclude '
                       'test/test_sequence.cpp -o ts%d '
                       '-lboost_unit_test_framework && timeout 300 ./ts%d' % (k, k, k), t)
            if rc:
                return s['id'], 'TESTS CATCH IT (%d) %s' % (k, o[-500:])
            if 'warning' in o:
                print(s['id'], 'WARNS', o[:300])
        for f in s.get('also_build', []):
            rc, o = sh('g++ -std=c++11 -Iinclude -I. -fsyntax-only ' + f, t)
            if rc:
                return s['id'], 'DOES NOT BUILD ' + f
        open(dst + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(dst + '/meta.json', 'w'), indent=1)
        q = os.path.join(OUT, s['id'])
        if os.path.isdir(q):
            shutil.rmtree(q)
        shutil.copytree(dst, q)
        return s['id'], 'KEPT demo rc=%d %s' % (why[0], why[1].strip()[-100:])
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    seeds = [s for s in seeds if not want or s['id'] in want]
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(one, seeds):
            print(i, r, flush=True)
