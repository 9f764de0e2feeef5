#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property on /repo's current source by static analysis."""
import argparse
import fcntl
import glob
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.environ.get('VT_BUILD', os.path.join(HERE, 'build'))
LLVM = '/usr/lib/llvm-18'
CXX = 'clang++-18'
CXXFLAGS = ['-std=c++20', '-w', '-Wno-c++11-narrowing']


class Broken(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r


def build_exporter():
    """the front end (clang library tool), built once per content of its source"""
    src = os.path.join(HERE, 'frontend', 'exporter.cpp')
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'exporter')
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = exe + '.src'
        text = open(src).read()
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == text:
            return exe
        flags = sh([LLVM + '/bin/llvm-config', '--cxxflags']).stdout.split()
        r = sh([CXX] + flags + ['-w', '-O1', src, '-o', exe + '.tmp', '-L' + LLVM + '/lib', LLVM + '/lib/libclang-cpp.so.18.1', '-lLLVM-18'])
        if r.returncode:
            raise Broken('cannot build the front end:\n' + r.stderr[-2000:])
        os.rename(exe + '.tmp', exe)
        open(stamp, 'w').write(text)
    return exe


def resource_dir():
    return sh([CXX, '-print-resource-dir']).stdout.strip()


def export(out):
    exe = build_exporter()
    src = os.path.join(REPO, 'sources')
    if not os.path.isdir(src):
        raise Broken('no sources directory in ' + REPO)
    for more in ([], ['-DVT_RICH']):
        r = sh([exe, out, src, os.path.join(HERE, 'frontend', 'driver.cpp'), '--'] + CXXFLAGS + more + ['-I' + src, '-resource-dir', resource_dir()])
        if r.returncode == 0 and os.path.exists(out):
            return
    if r.returncode or not os.path.exists(out):
        raise Broken('the sources could not be parsed:\n' + (r.stdout + r.stderr)[-3000:])


def load_known():
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p):
        l = l.strip()
        if l.startswith('known:'):
            d = {}
            for w in l[6:].split('|'):
                k, _, v = w.strip().partition('=')
                d[k.strip()] = v.strip()
            known.append(d)
    return known


G = {}


class Timeout(BaseException):
    pass


def work(task):
    A, limit = G['A'], G['limit']

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        kind, x, mode = task
        if kind == 'spec':
            r = A.analyse(x, mode)
        else:
            r = G['comps'][x].run(A)
    except Timeout:
        from checks.core import Result
        r = Result()
        r.undecided.append('analysis time limit (%d s)' % limit)
        r.time = limit
    finally:
        signal.alarm(0)
    return task, r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--all-details', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        print('front end ready:', build_exporter())
        sys.exit(0)
    if not a.property:
        ap.error('which property?')
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from checks import registry
    from checks.core import Analyser, Prog
    try:
        prop = registry.get(pid)
        comps = registry.components(pid)
        specs = registry.specs()
        specs = specs if any(registry.relevant(pid, s, m) for s in specs for m in s.modes) or any(c.needs_program for c in comps) else []
        out = os.path.join(BUILD, 'program-%d.json' % os.getpid())
        P = None
        if specs or not comps:
            try:
                export(out)
                P = Prog(out)
            except Broken as e:
                # a component that inspects the sources directly can still decide its part
                comps = [c for c in comps if not c.needs_program]
                if not comps:
                    raise
                print('UNDECIDED %s' % e)
                specs = []
            finally:
                if os.path.exists(out):
                    os.unlink(out)
        A = Analyser(P, specs)
        A.repo, A.resource_dir, A.seed, A.cxx, A.cxxflags, A.build = REPO, resource_dir(), seed, CXX, CXXFLAGS, BUILD
        A.wit = 40 if a.tier == 'quick' else 400
        A.fn = A.functions() if P else {}
        tasks = []
        missing = []
        for s in specs:
            ms = [m for m in s.modes if registry.relevant(pid, s, m)]
            if not ms:
                continue
            if s.key not in A.fn:
                if not s.optional:
                    missing.append(s.key)
                continue
            tasks += [('spec', s.key, m) for m in ms]
        if missing and len(missing) > len(tasks):
            raise Broken('anchor functions not found: ' + ', '.join(missing[:8]))
        if not tasks and not comps:
            raise Broken('no obligations for ' + pid)
        G['A'], G['comps'] = A, comps
        G['limit'] = 300 if a.tier == 'quick' else 600
        deadline = t0 + 780
        tasks = [('comp', i, '') for i in range(len(comps))] + tasks
        with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
            results = []
            it = pool.imap_unordered(work, tasks)
            try:
                for _ in tasks:
                    results.append(it.next(timeout=max(1, deadline - time.time())))
            except multiprocessing.TimeoutError:
                from checks.core import Result
                done = {t for t, _ in results}
                for t in tasks:
                    if t not in done:
                        r = Result()
                        r.undecided.append('analysis time limit (whole run)')
                        results.append((t, r))
                pool.terminate()
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        sys.exit(2)
    results.sort(key=lambda x: (x[0][0], str(x[0][1]), x[0][2]))
    byspec = {(t[1], t[2]): r for t, r in results if t[0] == 'spec'}
    problems, undecided = [], [(k, 'function not found in the current sources') for k in missing]
    if pid in registry.KINDS:
        # only functions that document (or wrongly raise) this rejection
        results = [(t, r) for t, r in results if t[0] != 'spec' or pid in A.specs[t[1]].props() or pid in r.kinds or any(pid in p.props for p in r.problems)]
    obl = dis = 0
    covered = []
    for t, r in results:
        name = t[1] + (' [%s]' % t[2] if t[2] else '') if t[0] == 'spec' else comps[t[1]].name
        ps = [p for p in r.problems if pid in p.props]
        if t[0] == 'spec' and t[2]:
            base = byspec.get((t[1], ''))
            if base is not None and base.problems:
                ps = []
        problems += [(name, p) for p in ps]
        undecided += [(name, u) for u in r.undecided]
        obl += r.obligations
        dis += r.discharged
        covered.append({'unit': name, 'outcomes': r.outcomes, 'obligations': r.obligations, 'discharged': r.discharged, 'undecided': len(r.undecided), 'seconds': round(r.time, 2)})
    if obl + len(undecided) < prop.minimum:
        print('ANALYSIS-BROKEN property=%s only %d obligations were generated (at least %d expected)' % (pid, obl, prop.minimum))
        if not problems:
            sys.exit(2)
    known = [k for k in load_known() if k.get('property') == pid]
    hit = set()
    fresh = []
    for name, p in problems:
        ks = [i for i, k in enumerate(known) if k.get('at') == p.fn and k.get('what', '') in p.what]
        if ks:
            hit.update(ks)
        else:
            fresh.append((name, p))
    for i in sorted(hit):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, known[i]['at'], known[i].get('text', known[i].get('what'))))
    for n, u in undecided[:40]:
        print('UNDECIDED %s: %s' % (n, u))
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': prop.level,
          'coverage': {'explanation': prop.explain, 'rule': prop.rule, 'obligations': obl, 'discharged': dis, 'undecided': len(undecided),
                       'functions_analysed': len(covered), 'units': len(covered),
                       'samples': covered if len(covered) < 60 or a.tier == 'thorough' else covered[:60],
                       'undecided_samples': ['%s: %s' % x for x in undecided[:20]]},
          'assumptions': prop.assume, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    evd = os.environ.get('VT_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    rp = os.path.join(evd, 'replay-%s.json' % pid)
    if fresh:
        with open(rp, 'w') as f:
            json.dump([{'unit': n, 'file': p.loc[0], 'line': p.loc[1], 'rule': p.what, 'function': p.fn, 'witness': p.witness} for n, p in fresh], f, indent=1)
    elif os.path.exists(rp):
        os.unlink(rp)
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n, p in fresh[:12]:
        print('%s:%s: %s: %s\n    witness: %s' % (p.loc[0], p.loc[1], n, p.what, p.witness))
    print('%s: %d units, %d obligations, %d discharged, %d undecided, %d violations, %.1f s' % (pid, len(covered), obl, dis, len(undecided), len(fresh), time.time() - t0))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, HERE)))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print('ANALYSIS-BROKEN %r' % (e,))
        sys.exit(2)
