#!/usr/bin/env python3
"""Plants and measures seeded bugs (development tool; no check uses it).
  seed.py new SPEC.py     SPEC defines SEEDS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo='C++ text', flags='')]
                          a seed is kept in /verif/seeded/<id> only if it compiles, passes the tests, and its demo tells the trees apart
  seed.py check [ID...] [--all]   runs the property's check (--all: every claimed check) on a scratch tree with the seed applied
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# exit 0: the property holds; run with cwd = /repo
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
g++-14 -std=c++20 -O0 %s -I sources "$(dirname "$0")/demo.cpp" -o "$D/demo" || exit 3
timeout -k 5 120 %s "$D/demo"
'''


def run(cmd, cwd=None, env=None, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        class R:
            returncode, stdout = 124, 'timeout'
        return R


def tree(sid):
    d = os.path.join(W, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ('sources', 'tests'):
        shutil.copytree('/repo/' + x, d + '/' + x)
    return d


PCH = {}


def tests(d):
    """compile and run the existing tests in tree d"""
    obj = os.path.join(d, 'obj')
    os.makedirs(obj)
    src = [f for f in os.listdir(d + '/tests') if f.endswith('.cpp') and f != 'compatibility.cpp']

    def one(f):
        return run(['g++-14', '-std=c++20', '-g', '-O0', '-c', 'tests/' + f, '-o', 'obj/' + f + '.o'], cwd=d)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, src)) + [run(['g++-14', '-std=c++20', '-g', 'tests/compatibility.cpp', '-o', 'obj/compat'], cwd=d)]
    for r in rs:
        if r.returncode:
            return 'does not compile: ' + r.stdout[-1500:]
    r = run(['g++-14'] + ['obj/' + f + '.o' for f in src] + ['-o', 'obj/test', '-lCatch2Main', '-lCatch2'], cwd=d)
    if r.returncode:
        return 'does not link: ' + r.stdout[-1500:]
    r = run(['obj/test'], cwd=d, timeout=120)
    if r.returncode:
        return 'tests fail: ' + r.stdout[-1500:]
    r = run(['obj/compat'], cwd=d, timeout=120)
    if r.returncode or r.stdout.strip() != 'OK!':
        return 'compatibility fails'
    shutil.rmtree(obj)
    return None


def new(s):
    sid = s['id']
    d = tree(sid)
    b = tree(sid + '.base')
    try:
        for f, old, nw in s['edits']:
            p = os.path.join(d, 'sources', f)
            t = open(p, newline='').read()
            o = old.replace('\n', '\r\n')
            n = nw.replace('\n', '\r\n')
            if t.count(o) != 1:
                return sid, 'edit matches %d times: %s' % (t.count(o), old[:60])
            open(p, 'w', newline='').write(t.replace(o, n))
        t = tests(d)
        if t:
            return sid, t
        out = os.path.join(HERE, 'seeded', sid)
        stage = os.path.join(W, sid + '.stage')
        shutil.rmtree(stage, ignore_errors=True)
        os.makedirs(stage)
        open(stage + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        open(stage + '/demo.sh', 'w').write(DEMO % (s.get('flags', ''), s.get('runner', '')))
        os.chmod(stage + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, open(stage + '/meta.json', 'w'), indent=1)
        r = run(['bash', stage + '/demo.sh'], cwd=b, timeout=290)
        if r.returncode:
            return sid, 'demo fails on the unchanged tree: ' + r.stdout[-1500:]
        r = run(['bash', stage + '/demo.sh'], cwd=d, timeout=290)
        if r.returncode in (0, 3):
            return sid, 'demo does not fail on the changed tree (%d) %s' % (r.returncode, r.stdout[-800:])
        df = subprocess.run(['git', 'diff', '--no-index', '--binary', os.path.basename(b) + '/sources', os.path.basename(d) + '/sources'], cwd=W, stdout=subprocess.PIPE).stdout
        df = df.replace(b'a/' + os.path.basename(b).encode() + b'/', b'a/').replace(b'b/' + os.path.basename(d).encode() + b'/', b'b/')
        open(stage + '/patch.diff', 'wb').write(df)
        r = run(['git', '-C', '/repo', 'apply', '--check', stage + '/patch.diff'])
        if r.returncode:
            return sid, 'patch does not apply: ' + r.stdout
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(stage, out)
        shutil.rmtree(stage)
        return sid, 'kept'
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(b, ignore_errors=True)


def check(sid, pids=None):
    meta = json.load(open(os.path.join(HERE, 'seeded', sid, 'meta.json')))
    d = tree(sid + '.c')
    try:
        r = run(['git', 'apply', '--directory', os.path.relpath(d, '/tmp'), os.path.join(HERE, 'seeded', sid, 'patch.diff')], cwd='/tmp')
        if r.returncode:
            return sid, meta['property'], 'APPLY ' + r.stdout, []
        env = dict(os.environ, VT_REPO=d, VT_EVIDENCE=os.path.join(W, 'evidence-' + sid))
        hits = []
        state = ''
        for pid in pids or [meta['property']]:
            r = run([sys.executable, os.path.join(HERE, 'check.py'), pid], env=env)
            if r.returncode == 1 and 'VIOLATION property=' + pid in r.stdout:
                hits.append(pid)
                if pid == meta['property']:
                    state = r.stdout
            elif r.returncode:
                hits.append('%s!%d' % (pid, r.returncode))
            if pid == meta['property'] and not state:
                state = r.stdout
        return sid, meta['property'], state, hits
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(os.path.join(W, 'evidence-' + sid), ignore_errors=True)


def main():
    os.makedirs(W, exist_ok=True)
    if sys.argv[1] == 'new':
        g = {}
        exec(open(sys.argv[2]).read(), g)
        todo = [s for s in g['SEEDS'] if len(sys.argv) < 4 or s['id'] in sys.argv[3:]]
        with ThreadPoolExecutor(2) as ex:
            for sid, msg in ex.map(new, todo):
                print('%-28s %s' % (sid, msg), flush=True)
    else:
        a = sys.argv[2:]
        pids = None
        if '--all' in a:
            pids = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
        verbose = '-v' in a
        ids = [x for x in a if not x.startswith('-')] or sorted(os.listdir(HERE + '/seeded'))
        with ThreadPoolExecutor(2) as ex:
            for sid, pid, out, hits in ex.map(lambda s: check(s, pids), ids):
                print('%-28s %s %-6s %s' % (sid, pid, 'CAUGHT' if pid in hits else 'missed', ' '.join(hits)), flush=True)
                if verbose:
                    print('    ' + out.strip()[-1200:].replace('\n', '\n    '))


main()
