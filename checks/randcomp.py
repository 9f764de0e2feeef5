"""The random big integer (C32): each call of a distribution is an independent draw, a term that names its number and its range.

Proof: a loop that fills the digits with one draw each is summarised for every length (the cells are the draws c0, c0+1, ...); on each path the
result has sign 1 and the requested number of digits, the leading one is not zero, and together the paths give every digit string of that length
the same probability: all digits below the leading one are different draws from 0..9 that no condition mentions, and the distribution of the
leading one, summed over the paths, is uniform on 1..9.
Where that fails, the joint distribution of the digits is computed exactly for small lengths, by unrolling with the draws as symbols.
"""
import itertools
import time
from fractions import Fraction as Frac

from .core import *          # noqa
from .intcomp import limit, Slow, Nothing, loc_of, canonical_error, literals
from engine.interp import Interp
from engine.lin import fresh
from engine import loops, stdlib

CLS = 'pyincpp::Int'
KEY = 'Int.random(int)'
DIST = 'std::uniform_int_distribution'


def draw(k, lo, hi):
    return L(Term('draw', L(k), L(lo), L(hi)))


class Random:
    needs_program = True
    name = 'distribution of ' + KEY

    # ---- the source of randomness
    def call(self, I, st, f, obj, args, node):
        cls = f['qn'].rsplit('::', 1)[0]
        out = []
        if cls != DIST:
            t = Term('seed' if cls == 'std::random_device' else 'word', st.store['#draws'])
            s = st
            s.store['#draws'] = s.store['#draws'] + 1
            s.add_ge(L(t))
            s.add_ge(L(2 ** 32 - 1) - L(t))
            return [(s, L(t))]
        for s, d in I.rv(st, obj, node):
            if not isinstance(d, Obj) or d.tag != 'rnd' or len(d.a[1]) not in (2,):
                I.giveup('distribution', node)
            lo, hi = [s.nl(x) for x in d.a[1]]
            if not (lo.is_const() and hi.is_const()):
                I.giveup('distribution over an unknown range', node)
            if len(args) > 1:
                I.giveup('distribution with parameters', node)
            for s1, g in I.rv(s, args[0], node):
                self.source(I, s1, g, node)
                if lo.c > hi.c:
                    I.ub(s1, 'empty random range', node)
                    continue
                k = s1.store['#draws']
                s1.store['#draws'] = k + 1
                t = draw(s1.nl(k), lo, hi)
                s1.add_ge(t - lo)
                s1.add_ge(hi - t)
                out.append((s1, t))
        return out

    def source(self, I, s, g, node):
        if not isinstance(g, Obj) or g.tag != 'rnd':
            I.giveup('source of randomness %r' % (g,), node)
        if g.a[0] == 'std::random_device':
            return
        ts = set()
        for v in g.a[1]:
            loops.subterms_val(v, ts)
        if not any(t.op in ('seed', 'word') for t in ts):
            vs = [s.nl(v) if isinstance(v, Lin) else v for v in g.a[1]]
            if all(isinstance(v, Lin) and v.is_const() for v in vs):
                self.fixed = (I.loc(node), vs)
            else:
                I.giveup('seed %r' % (g.a[1],), node)

    # ---- a loop that fills digits
    def fill(self, I, st0, step, node):
        first = [(s, k, v) for s, k, v in self.steps(step, st0) if not s.empty()]
        go = [s for s, k, v in first if k == 'n']
        if not go:
            return [(s, 'n' if k in ('b', 'x') else k, v) for s, k, v in first]
        # any continuation suggests the summary; the step from the general state proves it
        s1 = go[0]
        mods = [m for m in dict.fromkeys(loops.entry_diff(st0, s1)) if m[0] in st0.store]
        h = L(fresh('h'))
        g = st0.copy()
        g.add_ge(h)
        lin, seqs, c0, w = [], [], st0.nl(st0.store['#draws']), None
        roots = {}
        for r, p in mods:
            roots.setdefault(r, []).append(p)
        for r, ps in roots.items():
            v0, v1 = st0.store[r], s1.store[r]
            if isinstance(v0, Lin) or isinstance(v0, Iter):
                a, b = (v0, v1) if isinstance(v0, Lin) else (v0.pos, v1.pos)
                d = s1.nl(b - a)
                if not d.is_const() or d.c not in (1, -1):
                    raise Giveup('counter of the loop')
                lin.append((r, a, d.c))
                g.store[r] = st0.nl(a) + h.scale(d.c) if isinstance(v0, Lin) else v0.moved(h.scale(d.c))
            elif isinstance(v0, Struct) and v0.cls == CLS and all(same_field(v0, v1, k) for k in v0.f if k != 'chunks_'):
                seqs.append(r)
            else:
                raise Giveup('the loop changes %s' % r)
        if len(seqs) != 1:
            raise Giveup('the loop changes no digits')
        r = seqs[0]
        old = st0.store[r].f['chunks_']
        n = st0.nl(slen(old))
        new = simp(s1, s1.store[r].f['chunks_'].p)
        if not (new and new[0][0] == 'one'):
            raise Giveup('the first iteration does not fill the first digit')
        w = [t for t in terms(new[0][1]) if t.op == 'draw']
        if len(w) != 1 or new[0][1] != L(w[0]) or s1.nl(w[0].args[0]) != c0:
            raise Giveup('the digit is not a draw')
        lo, hi = w[0].args[1].c, w[0].args[2].c
        D = Term('base', Term('draws', c0, L(lo), L(hi)))

        def cells(s, k):
            rest = sub(s, old.p, k, n)
            return (('sl', D, ZERO, L(k)),) + rest
        g.add_ge(n - h)
        g.store[r] = put(g.store[r], cells(g, h))
        out = []
        for s, k, v in self.steps(step, g):
            if s.empty():
                continue
            if k != 'n':
                out.append((s, 'n' if k in ('b', 'x') else k, v))
                continue
            for q, a, d in lin:
                x = s.store[q]
                x = x if isinstance(x, Lin) else x.pos
                if not s.entails_eq(s.nl(x - a - (h + 1).scale(d))):
                    raise Giveup('counter of the loop')
            if {m[0] for m in loops.entry_diff(g, s) if m[0] in g.store} - set(roots):
                raise Giveup('the loop changes more')
            now = simp(s, s.store[r].f['chunks_'].p)
            x = L(Term('draw', s.nl(c0 + h), L(lo), L(hi)))
            want = simp(s, (('sl', D, ZERO, h), ('one', x)) + sub(s, old.p, h + 1, n))
            if now != want:
                raise Giveup('an iteration does not fill the next digit: %r' % (now,))
        return out

    def steps(self, step, st):
        return step(st.copy())

    # ---- proof
    def run(self, A):
        t0 = time.time()
        res = self.res = Result()
        self.P = A.P
        self.fixed = None
        self.f = A.fn.get(KEY)
        if self.f is None:
            res.undecided.append('function not found in the current sources')
            return res
        bad = []
        try:
            with limit(60):
                self.prove(bad)
        except (Giveup, Slow, RecursionError) as e:
            bad.append('not analysable: %s' % e)
        except Exception as e:
            if os.environ.get('VT_CRASH'):
                raise
            bad.append('internal: %r' % (e,))
        if bad:
            if res.obligations == res.discharged:
                res.obligations += 1
            try:
                with limit(200):
                    self.refute(res)
            except (Giveup, Slow, RecursionError, Nothing):
                pass
            res.undecided += bad[:3]
        if self.fixed:
            res.problems.append(Problem(('C32',), 'the generator is seeded with the constant %r: every call returns the same number' % (self.fixed[1],), KEY, self.fixed[0][:2], 'two calls with the same number of digits'))
        res.time = time.time() - t0
        return res

    def interp(self):
        I = Interp(self.P, {})
        I.random = self.call
        return I

    def start(self, n):
        st = State()
        st.store['#draws'] = ZERO
        return st, [n]

    def prove(self, bad):
        res = self.res
        n = L(fresh('n'))
        for what, lo, hi in (('default', -1, -1), ('zero', 0, 0), ('digits', 1, 10 ** 9), ('negative', -2 ** 31, -2)):
            I = self.interp()
            I.fill_hook = self.fill
            d = L(lo) if lo == hi else n
            st, args = self.start(d)
            if lo != hi:
                st.add_ge(n - lo)
                st.add_ge(L(hi) - n)
            outs = [o for o in I.run(st, self.f['fid'], None, args) if not o.st.empty()]
            if not outs:
                bad.append('no outcome')
            tops = []
            for o in outs:
                res.obligations += 1
                e = self.outcome(o, what, d, tops)
                if e:
                    bad.append('%s: %s' % (what, e))
                else:
                    res.discharged += 1
            if what in ('digits', 'default') and tops:
                res.obligations += 1
                e = self.uniform(tops)
                if e:
                    bad.append('%s: %s' % (what, e))
                else:
                    res.discharged += 1

    def outcome(self, o, what, d, tops):
        s = o.st
        if s.taint:
            return 'tainted'
        if o.kind == 'ub':
            return 'undefined behaviour: %s' % (o.val,)
        if o.kind == 'throw':
            return None if what == 'negative' else 'raises %r' % (o.val,)
        if what == 'negative':
            return 'a negative number of digits is accepted'
        v = o.val
        if isinstance(v, Addr):
            v = s.store[v.root]
        if not isinstance(v, Struct) or v.cls != CLS:
            return 'no big integer'
        sg, ps = s.nl(v.f['sign_']), simp(s, v.f['chunks_'].p)
        n = s.nl(pslen(ps))
        if what == 'default':
            t = [t for t in terms(n) if t.op == 'draw']
            if not (n.is_const() or len(t) == 1 and n == L(t[0]) and t[0].args[1].c >= 0 and t[0].args[2].c <= 4300):
                return 'a default length of %r' % (n,)
        elif not s.entails_eq(s.nl(n - d)):
            for k in self.lengths():
                y = s.copy()
                if y.add_eq(d - k) is not False and not y.empty() and not y.atoms:
                    m = y.nl(n)
                    if m.is_const() and m.c != k:
                        self.res.problems.append(Problem(('C32',), 'gives %d digits' % m.c, KEY, loc_of(self.f), 'digits=%d' % k))
                        break
            return '%r digits' % (n,)
        if s.entails_eq(n):
            return None if sg == ZERO else 'zero with a sign'
        if sg != ONE:
            return 'sign %r' % (sg,)
        # digits below the leading one, and the leading one
        top = ps[-1]
        low = ps[:-1]
        if top[0] == 'sl':
            D, m = top[1], s.nl(top[3] - 1)
            low = simp(s, low + (('sl', D, top[2], m),))
            c0, lo, hi = draws(D)
            t = Term('draw', s.nl(c0 + m), lo, hi)
            x = L(t)
        elif top[0] == 'one' and isinstance(top[1], Lin):
            x = s.nl(top[1])
        else:
            return 'leading digit %r' % (top,)
        used = []
        for p in low:
            if p[0] == 'sl' and draws(p[1]):
                c0, lo, hi = draws(p[1])
                if (lo.c, hi.c) != (0, 9):
                    return 'digits from %d..%d' % (lo.c, hi.c)
                used.append((p[1], s.nl(p[2]), s.nl(p[3])))
            elif p[0] == 'one' and isinstance(p[1], Lin) and single(s.nl(p[1])):
                t = single(s.nl(p[1]))
                if (t.args[1].c, t.args[2].c) != (0, 9):
                    return 'digits from %d..%d' % (t.args[1].c, t.args[2].c)
                used.append((t,))
            else:
                return 'digit %r' % (p,)
        if len(used) > 1:
            return 'digits from several sources'
        tops.append((s, x, n, used))
        return None

    def uniform(self, tops):
        """for every length, the paths together choose each leading digit with the same probability"""
        for k in (1, 2, 3, 4, None):
            mine = []
            for s, x, n, used in tops:
                y = s.copy()
                ok = y.add_eq(n - k) if k else y.add_ge(n - 5)
                if ok is not False and not y.empty():
                    mine.append((s, x, used))
            e = self.leading(mine)
            if e:
                return '%s digits: %s' % (k or 'at least 5', e)
        return None

    def leading(self, tops):
        dist = {}
        for s, x, used in tops:
            # the conditions on draws: of the leading digit and of the length only
            vs, cond = set(), []

            def drawn(l):
                return {m for m, _ in l.t if m.op in ('draw', 'at')}
            for c in list(s.cons) + [y for k, v in s.sub.items() for y in (L(k) - L(v), L(v) - L(k))]:
                ts = drawn(c)
                if not ts:
                    if any(t.op in ('draw', 'at') for t in terms(c)) and not all(m.op == 'sym' for m, _ in c.t):
                        return 'a condition that cannot be evaluated: %r' % (c,)
                    continue
                cond.append(c)
                vs |= ts
            if drawn(x) != {m for m, _ in x.t}:
                return 'leading digit %r' % (x,)
            vs |= drawn(x)
            if any(t.op in ('draw', 'at') for a in s.atoms for t in terms(a)):
                return 'a condition that cannot be evaluated'
            # one name per draw
            name, dom = {}, {}
            for t in vs:
                if t.op == 'at':
                    b = draws(t.args[0])
                    if b is None:
                        return 'a condition on foreign digits'
                    k, lo, hi = s.nl(b[0] + t.args[1]), b[1].c, b[2].c
                else:
                    k, lo, hi = s.nl(t.args[0]), t.args[1].c, t.args[2].c
                name[t] = next((q for q in dom if q == k or s.entails_eq(s.nl(q - k))), k)
                dom.setdefault(name[t], (lo, hi))
            lens = {q for q, (lo, hi) in dom.items() if hi > 100}
            free = [q for q in dom if q not in lens]
            cond = [c for c in cond if not any(name[t] in lens for t in drawn(c))]
            for u in used:
                for q in free:
                    if len(u) == 1:
                        if s.entails_eq(s.nl(u[0].args[0] - q)):
                            return 'a condition on a digit that is not the leading one'
                    else:
                        c0 = draws(u[0])[0]
                        y = s.copy()
                        if y.add_ge(s.nl(q - c0 - u[1])) is not False and y.add_ge(s.nl(c0 + u[2] - 1 - q)) is not False and not y.empty():
                            return 'a condition on a digit that is not the leading one'
            if len(free) > 3:
                return 'too many draws'
            total = Frac(1)
            for q in free:
                total /= dom[q][1] - dom[q][0] + 1
            for vals in itertools.product(*[range(dom[q][0], dom[q][1] + 1) for q in free]):
                env = dict(zip(free, vals))
                ev = lambda l: l.c + sum(k * env[name[t]] for t, k in l.t)
                try:
                    if all(ev(c) >= 0 for c in cond):
                        v = ev(x)
                        dist[v] = dist.get(v, 0) + total
                except KeyError:
                    return 'a condition that cannot be evaluated'
        if sum(dist.values()) != 1:
            return 'the probabilities of the leading digit add up to %s' % sum(dist.values())
        if dist != {v: Frac(1, 9) for v in range(1, 10)}:
            return 'the leading digit has the distribution %s' % ', '.join('%d: %s' % x for x in sorted(dist.items()))
        return None

    def lengths(self):
        return [1, 2, 3, 4, 5, 8, 13, 20] + sorted({m for c in literals(self.P, self.f) if 2 <= c <= 10 ** 6 for m in (c - 1, c, c + 1)})

    # ---- exact distribution for small lengths
    def refute(self, res):
        if res.problems:
            return
        lits = [m for m in self.lengths() if m <= 301]
        for d in [-2, -7, 0, 1, 2, 3, 4, 5, 8, 13, 20] + [m for m in lits if m > 4]:
            try:
                w = self.exact(d)
            except (Giveup, Nothing):
                continue
            if w:
                res.problems.append(Problem(*w[:2], KEY, loc_of(self.f), 'digits=%d' % d))
                return

    def exact(self, d):
        I = self.interp()
        I.unroll = 320
        I.budget = 10 ** 6
        st, args = self.start(L(d))
        outs = [o for o in I.run(st, self.f['fid'], None, args) if not o.st.empty()]
        if I.partial or not outs:
            raise Nothing()
        paths = []
        for o in outs:
            s = o.st
            if s.taint:
                raise Nothing()
            if o.kind == 'ub':
                return ('C19', 'C32'), 'undefined behaviour: %s at line %s' % (o.val, o.line)
            if o.kind == 'throw':
                if d < -1:
                    continue
                return ('C11', 'C32'), 'raises %s' % (o.val,)
            if d < -1:
                return ('C11', 'C32'), 'a negative number of digits is accepted'
            v = o.val
            if isinstance(v, Addr):
                v = s.store[v.root]
            sg = s.nl(v.f['sign_'])
            ds = []
            for p in simp(s, v.f['chunks_'].p):
                if p[0] == 'one' and isinstance(p[1], Lin):
                    ds.append(s.nl(p[1]))
                elif p[0] == 'fill' and isinstance(p[1], Lin) and s.nl(p[2]).is_const():
                    ds += [s.nl(p[1])] * s.nl(p[2]).c
                else:
                    raise Nothing()
            cond = [c for c in s.cons if any(t.op == 'draw' for t in terms(c))]
            for k, x in s.sub.items():
                cond += [L(k) - L(x), L(x) - L(k)]
            if s.atoms or not sg.is_const():
                raise Nothing()
            for l in ds + cond:
                if any(t.op not in ('draw',) for t, _ in l.t):
                    raise Nothing()
            if len(ds) != d:
                return ('C32',), 'gives %d digits' % len(ds)
            if sg.c != (1 if d else 0):
                return ('C07', 'C32'), 'the sign is %d' % sg.c
            paths.append((ds, cond))
        if d <= 0:
            return None
        lead = self.marginal(paths, (d - 1,))
        if any(not 1 <= v[0] <= 9 for v in lead):
            v = [v[0] for v in lead if not 1 <= v[0] <= 9][0]
            return ('C07', 'C32'), 'the leading digit is %d with probability %s' % (v, lead[(v,)])
        for i in [d - 1] + list(range(d - 1)):
            want = {(v,): Frac(1, 9) for v in range(1, 10)} if i == d - 1 else {(v,): Frac(1, 10) for v in range(10)}
            got = self.marginal(paths, (i,))
            if got != want:
                x = [v for v in sorted(set(want) | set(got)) if got.get(v, 0) != want.get(v, 0)][0]
                return ('C32',), 'digit %d (from the right) is %d with probability %s, not %s' % (i, x[0], got.get(x, 0), want.get(x, 0))
        for i in range(d):
            for j in range(i + 1, d) if d <= 8 else [k for k in (i + 1, d - 1) if i < k < d]:
                got = self.marginal(paths, (i, j))
                p = Frac(1, 90) if j == d - 1 else Frac(1, 100)
                for v in itertools.product(range(10), range(1 if j == d - 1 else 0, 10)):
                    if got.get(v, 0) != p:
                        return ('C32',), 'digits %d and %d (from the right) are %d and %d with probability %s, not %s' % (i, j, v[0], v[1], got.get(v, 0), p)
        return None

    def marginal(self, paths, idx):
        out = {}
        for ds, cond in paths:
            groups = [({t for t, _ in c.t}, c) for c in cond]
            rel = set()
            for i in idx:
                rel |= {t for t, _ in ds[i].t}
            # conditions connected to these digits, and the probability of the others
            parts = []
            left = list(groups)
            while left:
                ts, c = left.pop()
                ts, cs = set(ts), [c]
                grown = True
                while grown:
                    grown = False
                    for q in list(left):
                        if q[0] & ts:
                            ts |= q[0]
                            cs.append(q[1])
                            left.remove(q)
                            grown = True
                parts.append((ts, cs))
            joined, cs = set(rel), []
            more = True
            rest = parts
            while more:
                more = False
                for q in list(rest):
                    if q[0] & joined:
                        joined |= q[0]
                        cs += q[1]
                        rest.remove(q)
                        more = True
            p = Frac(1)
            for ts, c in rest:
                p *= sum(w for w, env in self.worlds(ts) if all(ev(x, env) >= 0 for x in c))
            for w, env in self.worlds(joined):
                if all(ev(x, env) >= 0 for x in cs):
                    v = tuple(ev(ds[i], env) for i in idx)
                    out[v] = out.get(v, 0) + p * w
        return out

    def worlds(self, ts):
        ts = list(ts)
        rs = [range(t.args[1].c, t.args[2].c + 1) for t in ts]
        size = 1
        for r in rs:
            size *= len(r)
        if size > 20000:
            raise Nothing()
        w = Frac(1, size)
        for vals in itertools.product(*rs):
            yield w, dict(zip(ts, vals))


def ev(l, env):
    return l.c + sum(k * env[t] for t, k in l.t)


def terms(x):
    out = set()
    loops.subterms_val(x, out)
    return out


def single(l):
    return l.t[0][0] if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][0].op == 'draw' else None


def draws(b):
    if isinstance(b, Term) and b.op == 'base' and isinstance(b.args[0], Term) and b.args[0].op == 'draws':
        return b.args[0].args
    return None


def same_field(a, b, k):
    return k in b.f and (a.f[k] is b.f[k] or a.f[k] == b.f[k])


def put(v, ps):
    d = dict(v.f)
    d['chunks_'] = v.f['chunks_'].with_p(tuple(ps))
    return Struct(v.cls, d)


def sub(s, ps, lo, hi):
    """cells [lo, hi) of zero digits"""
    p = simp(s, ps)
    if len(p) == 1 and p[0][0] == 'fill':
        return (('fill', p[0][1], s.nl(L(hi) - L(lo))),)
    raise Giveup('digits before the loop')


def components(prop):
    return [Random()]
