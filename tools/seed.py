#!/usr/bin/env python3
"""tools/seed.py new ID PROP 'needs' 'what it breaks' -- take /repo's uncommitted change as seeded/ID/patch.diff, then undo it
   tools/seed.py try ID [check|nocheck]  -- apply it, build, run stable tests, demo, check; undo; demo on the clean tree"""
import json, os, re, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
DEMO = '''#!/bin/bash
# builds demo.cpp against the tree in the current directory; everything is written to a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
g++ -std=c++20 -O0 -g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -DBOOST_ASIO_NO_DEPRECATED -DBOOST_COBALT_NO_LIB=1 \\
  -DBOOST_COBALT_SOURCE=1 -DBOOST_COBALT_IO_SOURCE=1 -I include "$here/demo.cpp" %s -o "$d/demo" -lpthread || exit 2
cd "$d" && ASAN_OPTIONS=%s timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): return sh('git -C /repo status --porcelain').stdout.strip() == ''
def new(i, p, needs, what):
    d = V + '/seeded/' + i; os.makedirs(d, exist_ok=True)
    diff = sh('git -C /repo diff').stdout; assert diff.strip(), 'no change'
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=p, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    sh('git -C /repo checkout -- .')
def mkdemo(i):
    d = V + '/seeded/' + i
    src = open(d + '/demo.cpp').read()
    m = re.search(r'^// sources: (.*)$', src, re.M)
    srcs = m.group(1) if m else 'src/detail/exception.cpp src/detail/util.cpp src/channel.cpp src/error.cpp src/this_thread.cpp'
    open(d + '/demo.sh', 'w').write(DEMO % (srcs, 'detect_leaks=%d' % ('// leaks' in src)))
    os.chmod(d + '/demo.sh', 0o755)
def blame(i): # every removed line must be original
    base = '82271fa'; bad = []
    f = None; ln = 0
    for l in open(V + '/seeded/' + i + '/patch.diff').read().split('\n'):
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1)); 
        elif l.startswith('-') and not l.startswith('---'):
            b = sh('git -C /repo blame -s -L %d,%d -- %s' % (ln, ln, f)).stdout
            if not b.startswith('^82271fa'): bad.append(b.strip())
            ln += 1
        elif l.startswith(' '): ln += 1
    return bad
def demo(i): 
    r = sh(['bash', V + '/seeded/' + i + '/demo.sh'], cwd=R); return r.returncode, r.stdout[-600:]
def trial(i, check):
    assert clean(), 'repo not clean'
    d = V + '/seeded/' + i; p = json.load(open(d + '/meta.json'))['property']
    mkdemo(i)
    b = blame(i)
    if b: print(i, 'NOT ORIGINAL LINES:', b)
    rc0, o0 = demo(i)
    print(i, 'demo clean rc', rc0, '' if rc0 == 0 else o0, flush=True)
    try:
        r = sh('git -C /repo apply ' + d + '/patch.diff'); assert r.returncode == 0, r.stdout
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: print(i, 'BUILD FAILS', r.stdout[-1500:]); return
        out = tempfile.mktemp(suffix='.json'); sh('bash /opt/vp/test.sh ' + out)
        t = json.load(open(out)); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [x for x in st if x not in t['passed']]
        print(i, 'stable failing:', miss, flush=True)
        rc1, o1 = demo(i)
        print(i, 'demo patched rc', rc1, o1[-300:] if rc1 else 'NOT DETECTED BY DEMO', flush=True)
        if check:
            r = sh(['python3', V + '/check.py', p, '--tier', 'quick'], cwd=V)
            print(i, 'check', p, 'rc', r.returncode, [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'rror' in l][:4], flush=True)
    finally:
        sh('git -C /repo checkout -- .')
if sys.argv[1] == 'new': new(*sys.argv[2:6]); mkdemo(sys.argv[2]) if os.path.exists(V + '/seeded/%s/demo.cpp' % sys.argv[2]) else None
else: trial(sys.argv[2], len(sys.argv) < 4 or sys.argv[3] == 'check')
