"""Termination of the operations that loop over containers and texts (C18).

A unit is a specified function that reaches a loop of the library.  Its loops must have a summary: the engine derives the number of iterations
from the guard and the change of one iteration, which exists only when each iteration comes closer to the exit.  In addition the function is
followed without summaries for every small shape of its arguments; an iteration that leads back to the state it started from, without a new
condition on the arguments, is repeated for ever.
"""
import itertools
import random
import time

from .core import *          # noqa
from engine import loops

LOOPS = {'for', 'while', 'do', 'rangefor', 'forrange'}


def nodes(n, out):
    if isinstance(n, dict):
        if n.get('k') in LOOPS:
            out['loops'].add((n.get('k'), n.get('l')))
        f = n.get('f')
        if isinstance(f, dict) and 'fid' in f:
            out['calls'].add(f['fid'])
        for v in n.values():
            if isinstance(v, (dict, list)):
                nodes(v, out)
    elif isinstance(n, list):
        for v in n:
            nodes(v, out)


class Graph:
    def __init__(self, P):
        self.P, self.own, self.memo = P, {}, {}

    def direct(self, fid):
        if fid not in self.own:
            d = {'loops': set(), 'calls': set()}
            f = self.P.fns.get(fid) or {}
            nodes([f.get('body'), f.get('inits')], d)
            self.own[fid] = d['loops'], d['calls']
        return self.own[fid]

    def reached(self, fid):
        if fid not in self.memo:
            seen, todo, out = {fid}, [fid], set()
            while todo:
                x = todo.pop()
                ls, cs = self.direct(x)
                out |= {(x,) + l for l in ls}
                for c in cs:
                    if c not in seen and 'body' in (self.P.fns.get(c) or {}):
                        seen.add(c)
                        todo.append(c)
            self.memo[fid] = out
        return self.memo[fid]


def wider(c, most=250):
    """a fixed sample of larger shapes"""
    ls = leaves(c)
    if not ls:
        return
    r = random.Random(7)
    for _ in range(most):
        n = r.choice([3, 4, 5])
        yield [n if k == 'len' else r.choice([0, 1, n, n - 1, r.randint(-4, 5)]) for k, _ in ls]


class Progress:
    needs_program = True

    def __init__(self, spec, mode):
        self.spec, self.mode = spec, mode
        self.name = 'progress of ' + spec.key + (' [%s]' % mode if mode else '')

    def run(self, A):
        t0 = time.time()
        res = Result()
        f = A.fn.get(self.spec.key)
        if f is None:
            return res
        g = A.__dict__.setdefault('graph', Graph(A.P))
        n = len(g.reached(f['fid']))
        if not n:
            return res
        r = A.analyse(self.spec.key, self.mode)
        res.outcomes = r.outcomes
        res.obligations = n
        res.problems = [p for p in r.problems if 'C18' in p.props]
        lost = [u for u in r.undecided if 'not analysable' in u or 'no outcome' in u or 'limit' in u]
        if lost:
            res.undecided += lost[:2]
        elif not res.problems:
            res.discharged = n
        if not res.problems:
            self.seek(A, f, res, t0)
        if res.problems:
            res.discharged = min(res.discharged, n - 1)
        res.time = time.time() - t0
        return res

    def seek(self, A, f, res, t0):
        c = build(A.P, f, self.mode, self.spec.maxn, self.spec.defaults)
        for pin in itertools.chain(shapes(c), wider(c)):
            if time.time() - t0 > 30:
                return
            r = Result()
            try:
                A._analyse(self.spec, f, self.mode, r, pin)
            except Exception:
                continue
            hits = [p for p in r.problems if 'C18' in p.props]
            if hits:
                res.problems += hits[:1]
                return


def components(specs):
    return [Progress(s, m) for s in specs for m in s.modes if m in ('', 'self')]
