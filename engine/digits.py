"""Digit sequences: the positional value functional, cell intervals and the summary of digit loops.

A vector of decimal cells is abstracted by segments around the cell a loop works on (the pivot): the cells before it, the pivot, the
cells after it, and a tail of zeros; each segment has an interval.  The positional value  V = sum cell[i] * 10^i  is tracked as a
polynomial, and a loop is summarised by the change of V in one generic iteration (conservation), summed over the iterations.
"""
import os
import sys
from .dom import *
from .lin import fresh
from . import dom

TEN = 10


# ---------------------------------------------------------------- powers of ten and prefix values

def p10(e):
    e = L(e)
    if e.is_const() and e.c >= 0:
        return Lin(10 ** e.c)
    if e.c < 0 or any(v < 0 for _, v in e.t):
        return L(Term('p10', e))
    r = Lin(10 ** e.c)
    for m, v in e.t:
        for _ in range(v):
            r = r * L(Term('p10', L(m)))
    return r


def prefix(base, b):
    b = L(b)
    if b == ZERO:
        return ZERO
    a = base.args[0]
    if isinstance(a, Term) and a.op == 'digs' and b == L(Term('len', base)):
        return L(a.args[0])
    return L(Term('pv', base, b))


dom.REBUILD['p10'] = p10
dom.REBUILD['pv'] = prefix


def digs(u):
    """base of the decimal digits of the positive number u"""
    return Term('base', Term('digs', L(u)))


def ndig(u):
    u = L(u)
    if u.is_const():
        return Lin(len(str(u.c)) if u.c > 0 else 0)
    return L(Term('len', digs(u)))


def _rb(base_arg):
    return Term('base', base_arg)


def _len(b):
    if isinstance(b, Term) and b.op == 'base' and isinstance(b.args[0], Term) and b.args[0].op == 'digs':
        u = L(b.args[0].args[0])
        if u.is_const() and u.c > 0:
            return Lin(len(str(u.c)))
    return Term('len', b)


def _at(b, i, *r):
    if isinstance(b, Term) and b.op == 'base' and isinstance(b.args[0], Term) and b.args[0].op == 'digs':
        u = L(b.args[0].args[0])
        if u.is_const() and u.c > 0 and L(i).is_const():
            s = str(u.c)[::-1]
            if 0 <= L(i).c < len(s):
                return Lin(int(s[L(i).c]))
    return Term('at', b, i, *r)


dom.REBUILD.setdefault('len', _len)


def ranged(lo, hi, name='d'):
    return Term('base', Term('rng', fresh(name), lo, hi))


def base_range(base):
    if isinstance(base, Term) and base.op == 'base' and isinstance(base.args[0], Term):
        a = base.args[0]
        if a.op == 'rng':
            return a.args[1], a.args[2]
        if a.op == 'digs':
            return 0, 9
    return None


def value(st, ps):
    """positional value of a piece list (Lin) or None"""
    off = ZERO
    v = ZERO
    for p in ps:
        ln = st.nl(plen(p))
        if p[0] == 'one':
            if not isinstance(p[1], Lin):
                return None
            v = v + p10(off) * p[1]
        elif p[0] == 'sl':
            a, b = st.nl(p[2]), st.nl(p[3])
            d = st.nl(off - a)
            if d == ZERO:
                v = v + prefix(p[1], b) - prefix(p[1], a)
            elif d.c >= 0 and all(c > 0 for _, c in d.t):
                v = v + p10(d) * (prefix(p[1], b) - prefix(p[1], a))
            else:
                v = v + L(Term('p10', d)) * (prefix(p[1], b) - prefix(p[1], a))
        elif p[0] in ('fill', 'rep'):
            x = p[1]
            if p[0] == 'rep':
                if len(x) != 1 or x[0][0] != 'one':
                    return None
                x = x[0][1]
            if not isinstance(x, Lin):
                return None
            if x == ZERO:
                pass
            elif x == L(9):
                v = v + p10(off + ln) - p10(off)
            elif ln.is_const():
                for i in range(ln.c):
                    v = v + p10(off + i) * x
            else:
                return None
        else:
            return None
        off = st.nl(off + ln)
    return normal(st, v)


def _terms(l):
    out = set()
    for m, _ in l.t:
        out.update(m.args if m.op == '*' else (m,))
    return out


def normal(st, l):
    """normal form: remainders expanded, prefix values and powers of the same symbolic index reduced to one representative"""
    for _ in range(12):
        l = st.nl(l)
        ts = _terms(l)
        m = {}
        for t in ts:
            if t.op == 'fmod':
                a, b = L(t.args[0]), L(t.args[1])
                m[t] = a - b * t_fdiv(a, b)
        if not m:
            groups = {}
            for t in ts:
                if t.op == 'pv':
                    e = L(t.args[1])
                    groups.setdefault(('v', t.args[0], e - e.c), []).append((e.c, t))
            for t in st.sub:
                if t.op == 'pv' and any(k[1] is t.args[0] for k in groups):
                    e = st.nl(t.args[1])
                    k = ('v', t.args[0], e - e.c)
                    if k in groups and all(c != e.c for c, _ in groups[k]):
                        groups[k].append((e.c, t))
            for t in ts:
                if t.op == 'pv':
                    e = L(t.args[1])
                    b0 = t.args[0].args[0]
                    if isinstance(b0, Term) and b0.op == 'digs' and st.entails_eq(e - Term('len', t.args[0])):
                        m[t] = L(b0.args[0])
                        continue
                    c = e.c if e.is_const() else next((i for i in (0, 1, 2) if st.entails_eq(e - i)), None)
                    if c is not None and 0 <= c < 64:
                        x = ZERO
                        for i in range(c):
                            x = x + L(Term('at', t.args[0], L(i))).scale(10 ** i)
                        m[t] = x
                elif t.op in ('sym', 'at') and st.cons:
                    a, b = t_interval(st, t)
                    if a is not None and a == b:
                        m[t] = L(a)
            for k, g in groups.items():
                if m:
                    break
                lo = min(c for c, _ in g)
                for c, t in g:
                    if c == lo:
                        continue
                    base, e = k[1], k[2]
                    x = prefix(base, e + lo)
                    for i in range(lo, c):
                        x = x + p10(e + i) * L(Term('at', base, e + i))
                    m[t] = x
        if not m:
            l2 = powers(st, l)
            if l2 == l:
                return l
            l = l2
            continue
        l = subst_lin(l, m)
    return l


def bounds(st, v):
    """0 <= value of a prefix of decimal cells < 10^length"""
    for t in _terms(v):
        if t.op == 'pv':
            r = base_range(t.args[0])
            if r and r[0] is not None and r[0] >= 0:
                st.add_ge(t)
                if r[1] is not None and r[1] <= 9:
                    st.add_ge(p10(t.args[1]) - t - 1)


def squeeze(st):
    """implied equalities of indices"""
    for c in list(st.cons):
        if any(m.op == '*' for m, _ in c.t) or len(c.t) > 4:
            continue
        if st.entails_ge(-c):
            if not st.add_eq(c):
                return False
    return tight(st)


def tight(st):
    """two-sided bounds that meet become equalities; False when the state is empty"""
    for _ in range(20):
        d = {c.t: c.c for c in st.cons}
        e = next((c for c in st.cons if d.get((-c).t) == -c.c), None)
        if e is None:
            break
        st.cons = [c for c in st.cons if c is not e and c.t != (-e).t]
        if not st.add_eq(e):
            return False
    return not st.empty()


def powers(st, l):
    """one power of ten per monomial, exponents that differ by a constant reduced to the smallest"""
    rows = []
    low = {}
    for m, v in l.t:
        fs = m.args if m.op == '*' else (m,)
        e, rest = ZERO, ONE
        for f in fs:
            if f.op == 'p10':
                e = e + L(f.args[0])
            else:
                rest = rest * L(f)
        e = st.nl(e)
        rows.append((v, rest, e))
        if e.t:
            low[e - e.c] = min(low.get(e - e.c, 0), e.c)
    r = Lin(l.c)
    for v, rest, e in rows:
        if e.t:
            c = low[e - e.c]
            b = L(Term('p10', e - e.c + c)) if c < 0 or any(w < 0 for _, w in e.t) else p10(e - e.c)
            r = r + (rest * b).scale(v * 10 ** (e.c - c))
        elif e.c >= 0:
            r = r + rest.scale(v * 10 ** e.c)
        elif v % 10 ** -e.c == 0:
            r = r + rest.scale(v // 10 ** -e.c)
        else:
            r = r + (rest * L(Term('p10', e))).scale(v)
    return r


def renorm(st):
    """constraints over powers whose exponent has become known"""
    for c in list(st.cons):
        if any(t.op in ('p10', 'pv') for t in _terms(c)):
            n = normal(st, c)
            if n != c:
                st.add_ge(n)
    return st


# ---------------------------------------------------------------- intervals

INF = None


def _add(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def _mulk(a, k):
    x = (None if a[0] is None else a[0] * k, None if a[1] is None else a[1] * k)
    return x if k >= 0 else (x[1], x[0])


def _mul(a, b):
    if None in a or None in b:
        return (0, None) if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0 else (None, None)
    c = [x * y for x in a for y in b]
    return min(c), max(c)


def _meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return lo, hi


def interval(st, l, depth=0):
    """constant bounds of a numeric term"""
    l = st.nl(l)
    if not l.t:
        return l.c, l.c
    r = (l.c, l.c)
    for m, v in l.t:
        r = _add(r, _mulk(t_interval(st, m, depth), v))
    if depth < 4:
        for m, v in l.t:
            if m.op == 'fdiv' and L(m.args[1]).is_const() and L(m.args[1]).c > 0 and v % L(m.args[1]).c == 0:
                b = L(m.args[1]).c
                q = -v // b
                rest = l - L(m.args[0]).scale(q) - L(m).scale(v)
                if len(rest.t) < len(l.t):
                    r = _meet(r, _add(_mulk((0, b - 1), q), interval(st, rest, depth + 1)))
    for c in st.cons:
        if c.t == l.t:
            r = _meet(r, (l.c - c.c, None))
        elif len(c.t) == len(l.t) and c.t == (-l).t:
            r = _meet(r, (None, l.c + c.c))
    return r


def t_interval(st, t, depth=0):
    r = (None, None)
    if depth > 6:
        return r
    if t.op == 'at':
        b = base_range(t.args[0])
        if b:
            r = b
    elif t.op == '*':
        x = t_interval(st, t.args[0], depth + 1)
        for f in t.args[1:]:
            x = _mul(x, t_interval(st, f, depth + 1))
        r = x
    elif t.op == 'fdiv':
        a, b = interval(st, t.args[0], depth + 1), L(t.args[1])
        if b.is_const() and b.c > 0:
            r = (None if a[0] is None else a[0] // b.c, None if a[1] is None else a[1] // b.c)
    elif t.op == 'fmod':
        b = L(t.args[1])
        a = interval(st, t.args[0], depth + 1)
        if b.is_const() and b.c > 0:
            r = (0, b.c - 1)
            if a[0] is not None and a[1] is not None and 0 <= a[0] and a[1] < b.c:
                r = a
    elif t.op == 'p10':
        r = (1, None)
    elif t.op == 'len':
        r = (0, None)
    for c in st.cons:
        if len(c.t) == 1 and c.t[0][0] is t:
            k = c.t[0][1]
            if k > 0:
                r = _meet(r, (-(c.c // k), None))
            else:
                r = _meet(r, (None, c.c // -k))
    return r


def piece_range(st, p):
    if p[0] == 'one':
        return interval(st, p[1]) if isinstance(p[1], Lin) else (None, None)
    if p[0] in ('sl', 'rv', 'st'):
        return base_range(p[1]) or (None, None)
    if p[0] == 'fill':
        return interval(st, p[1]) if isinstance(p[1], Lin) else (None, None)
    if p[0] == 'rep':
        r = None
        for q in p[1]:
            x = piece_range(st, q)
            r = x if r is None else join(r, x)
        return r or (None, None)
    return (None, None)


def join(a, b):
    if a is None:
        return b
    return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))


# ---------------------------------------------------------------- digit loops

LIMIT = 10 ** 6
DBG = os.environ.get('VT_DIG')


def dbg(*a):
    if DBG:
        print('DIG', *a, file=sys.stderr)


class NoTemplate(Exception):
    pass


def trailing_zeros(st, ps):
    """offset where a constant zero tail starts"""
    n = st.nl(pslen(ps))
    z = n
    for p in reversed(simp(st, ps)):
        if p[0] in ('one', 'fill') and p[1] == ZERO:
            z = st.nl(z - plen(p))
        elif p[0] == 'rep' and len(p[1]) == 1 and p[1][0][0] == 'one' and p[1][0][1] == ZERO:
            z = st.nl(z - plen(p))
        else:
            break
    return z, n


class Template:
    """segments of the digit vector at iteration K: [0,p) in R0, cell p in R1, (p,z) in R2, [z,n) zero; pivot None: [0,z) in R0"""

    def __init__(self, p, z, n):
        self.p, self.z, self.n = p, z, n

    def cases(self):
        return ('z',) if self.p is None else ('i', 'ii')

    def at(self, l, k, K):
        return None if l is None else L(subst_any(l, {k: K}))

    def build(self, s, k, K, case, R, kind, et):
        """pieces of a generic vector; facts go into s"""
        p, z, n = self.at(self.p, k, K), self.at(self.z, k, K), self.n
        rg = lambda seg: R[seg]
        if case == 'z':
            s.add_ge(z)
            s.add_ge(n - z)
            r = rg('0')
            return (('sl', ranged(*r), ZERO, s.nl(z)), ('fill', ZERO, s.nl(n - z)))
        s.add_ge(p)
        c = fresh('cell')
        if case == 'i':
            s.add_ge(z - p - 1)
            s.add_ge(n - z)
            lo, hi = rg('1')
            ps = (('sl', ranged(*rg('0')), ZERO, s.nl(p)), ('one', L(c)), ('sl', ranged(*rg('2')), ZERO, s.nl(z - p - 1)), ('fill', ZERO, s.nl(n - z)))
        else:
            if not s.add_eq(z - p) or s.empty():
                return None
            if s.entails_eq(n - z):
                return (('sl', ranged(*rg('0')), ZERO, s.nl(p)),)
            s.add_ge(n - z - 1)
            lo, hi = rg('3')
            ps = (('sl', ranged(*rg('0')), ZERO, s.nl(p)), ('one', L(c)), ('fill', ZERO, s.nl(n - z - 1)))
        s.add_ge(L(c) - lo)
        s.add_ge(L(hi) - c)
        return ps

    def match(self, s, k, K, ps, R):
        """join the intervals of a vector into R; raises NoTemplate when the zero tail is not zero"""
        p, z, n = self.at(self.p, k, K), self.at(self.z, k, K), self.n
        if not s.entails_eq(pslen(ps) - n):
            raise NoTemplate('length %r in %r' % (ps, s.cons))

        def seg(x, a, b, nm):
            a, b = x.nl(a), x.nl(b)
            if x.entails_eq(b - a):
                return
            if not x.entails_ge(a) or not x.entails_ge(b - a) or not x.entails_ge(n - b):
                raise NoTemplate('segment %s bounds %r %r' % (nm, a, b))
            for y, sub in seq_sub(x, ps, a, b):
                if y.empty():
                    continue
                for q in simp(y, sub):
                    r = piece_range(y, q)
                    if nm == 'zero':
                        if r != (0, 0):
                            raise NoTemplate('cell of the zero tail %r in %r' % (q, r))
                    else:
                        if None in r or abs(r[0]) > LIMIT or abs(r[1]) > LIMIT:
                            raise NoTemplate('unbounded cell %r' % (q,))
                        R[nm] = join(R.get(nm), r)
        if self.p is None:
            if not s.entails_ge(z) or not s.entails_ge(n - z):
                raise NoTemplate('zero boundary')
            seg(s, ZERO, z, '0')
            seg(s, z, n, 'zero')
            return
        if s.decide(c_ge(z - p)) is not True:
            raise NoTemplate('pivot behind the boundary: %r %r in %r' % (s.nl(p), s.nl(z), s.cons))
        a, b = s.fork(c_ge(z - p - 1))
        for x in a:
            if x.empty():
                continue
            seg(x, ZERO, p, '0')
            seg(x, p, p + 1, '1')
            seg(x, p + 1, z, '2')
            seg(x, z, n, 'zero')
        for x in b:
            if not x.add_eq(z - p) or x.empty():
                continue
            seg(x, ZERO, p, '0')
            if x.entails_eq(n - z):
                continue
            seg(x, p, p + 1, '3')
            seg(x, p + 1, n, 'zero')


def sum_delta(d, k, K):
    """closed form of sum_{t<K} d(t): every monomial is a constant in k, or contains 10^k together with the k-th digit of a base"""
    out = ZERO
    d = L(d)
    if d.c:
        out = out + K.scale(d.c) if isinstance(K, Lin) else out
    for m, v in d.t:
        fs = list(m.args) if m.op == '*' else [m]
        dep = [f for f in fs if occurs(k, f)]
        rest = ONE
        for f in fs:
            if f not in dep:
                rest = rest * L(f)
        if not dep:
            out = out + rest.scale(v) * K
            continue
        ks = [f for f in dep if f.op == 'p10']
        ats = [f for f in dep if f.op == 'at']
        if len(dep) == 2 and len(ks) == 1 and len(ats) == 1 and L(ks[0].args[0]) == L(k) and L(ats[0].args[1]) == L(k):
            out = out + rest.scale(v) * prefix(ats[0].args[0], K)
            continue
        return None
    return out


def accelerate(I, st0, step, node):
    """summary of a loop that rewrites cells of one digit vector in place; None when it is not of that kind"""
    from . import loops
    r = exact(I, st0, step, node, (by_fill,))
    if r is not None:
        return r
    for how in (by_window, by_unrolling):
        try:
            r = how(I, st0, step, node)
        except loops.NoSummary as e:
            dbg(how.__name__, 'failed:', e)
            r = None
        if r is None:
            continue
        S, others, k, cands = r
        for T in cands:
            try:
                r = attempt(I, st0, step, node, S, others, T, k)
                if r is not None:
                    loops.note(I, node, 'digit loop: value conservation over segments')
                    return r
            except NoTemplate as e:
                dbg('template', T.p, T.z, T.n, 'rejected:', e)
    return None


def over_numbers(I, node, seen=None):
    """the loop works with whole numbers: its body calls operations that have a contract"""
    todo = [node]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            f = x.get('fn')
            f = f.get('fid') if isinstance(f, dict) else x.get('fid')
            if f in I.contracts:
                return True
            todo += list(x.values())
        elif isinstance(x, list):
            todo += x
    return False


def exact(I, st0, step, node, hows=None):
    from . import loops
    from . import bignum
    if hows is None:
        hows = (bignum.by_number, bignum.by_division) if over_numbers(I, node) else (by_scan, by_search, bignum.by_extraction)
    for how in hows:
        try:
            with loops.Capture(I) as cap:
                r = how(I, st0, step, node)
                if r is not None:
                    cap.commit()
                    loops.note(I, node, 'digit loop: ' + how.__doc__)
                    return r
        except (loops.NoSummary, Giveup) as e:
            dbg(how.__name__, 'failed:', e)
    return None


def linear(I, st0, step, node):
    """(locations, other locations, generic index, state of iteration k, its outcomes); locations that are not linear are 'others'"""
    r = linear_known(I, st0, node)
    if r is None:
        if len(I.linear_memo) > 40:
            I.linear_memo.clear()
        try:
            r = linear_(I, st0, step, node)
        except Giveup as e:
            r = e
        I.linear_memo[id(st0), id(node)] = (st0, node, r)
    if isinstance(r, Exception):
        raise r
    if r is None:
        return None
    lin, others, k, ref, res = r
    return lin, others, k, ref.copy(), [(s.copy(), kd, v) for s, kd, v in res]


def linear_known(I, st0, node):
    m = I.linear_memo.get((id(st0), id(node)))
    return m[2] if m is not None and m[0] is st0 and m[1] is node else None


def linear_(I, st0, step, node):
    from . import loops
    mods, _ = loops.discover(I, st0, step, node)
    locs = [loops.Loc(r, p, loops.get_path(st0.store[r], p)) for r, p in sorted(mods, key=repr)]
    hs, hsyms, hmap = loops.havoc(I, st0, locs, {})
    with loops.Capture(I):
        res = step(hs)
    conts = [s for s, k, v in res if k == 'n' and not s.empty()]
    if not conts:
        return None
    for lc in sorted(locs, key=lambda lc: isinstance(lc.v0, (Seq, OStream))):
        loops.classify(I, lc, hs, conts, hsyms, hmap, locs)
    lin = [lc for lc in locs if lc.kind == 'lin' and isinstance(lc.v0, Lin)]
    k = fresh('k')
    hs, hsyms, hmap = loops.havoc(I, st0, locs, {}, L(k))
    ref = hs.copy()
    with loops.Capture(I):
        res = [(s, kd, v) for s, kd, v in step(hs) if kd != 'n' or squeeze(s)]
    return lin, [lc for lc in locs if lc not in lin], k, ref, res


def bound_guards(ref, ends, k):
    from . import loops
    cand = {x for e in ends for x in loops.guards(ref, e) if x[0] == 'ge' and loops.classify_guard(x, k) == 'bound'}
    gs = []
    for g in sorted(cand, key=repr):
        for d in (0, 1, 2):   # the last iteration may be a case of its own
            if all(x.entails_ge(g[1] + d) for x in ends):
                gs.append(('ge', g[1] + d))
                break
    return gs


def instances(st0, k, guards, ref):
    """states at the top of iteration k (any k the loop reaches)"""
    from . import loops
    a, b = ref.fork(c_eq(L(k)))
    out = list(a)
    for y in b:
        lst = [y]
        for g in guards:
            gg = loops.subst_guard(g, k)
            lst = [z for w in lst for z in w.assume(gg)]
        out += lst
    return [y for y in out if not y.empty()]


def exits(I, step, starts, guards):
    out = []
    for y in starts:
        for s2, kd, v in step(y):
            if kd == 'n' or s2.empty():
                continue
            for g in guards:
                if s2.entails_eq(g[1] + 1):
                    s2.add_eq(g[1] + 1)
            renorm(s2)
            if s2.empty():
                continue
            out.append((s2, 'n' if kd in ('b', 'x') else kd, v))
    return out


def by_scan(I, st0, step, node):
    """comparison of two digit vectors cell by cell"""
    r = linear(I, st0, step, node)
    if r is None:
        return None
    lin, others, k, ref, res = r
    if others or not lin:
        return None
    ends = [s for s, kd, v in res if kd == 'n' and not s.empty()]
    ats = index_terms(res, k)
    from . import loops
    pair = None
    for i, a in enumerate(ats):
        for b in ats[i + 1:]:
            ea, eb = L(a.args[1]), L(b.args[1])
            if a.args[0] is b.args[0] or ref.nl(ea - eb) != ZERO:
                continue
            if ends and all(x.entails_eq(L(a) - L(b)) for x in ends):
                pair = (a.args[0], b.args[0], ea)
    if pair is None:
        return None
    A, B, e = pair
    c = loops.coef_of(e, k)
    if c is None or c[1] not in (ONE, -ONE):
        return None
    K = L(k)
    lo, hi = (c[0], c[0] + K) if c[1] == ONE else (c[0] - K + 1, c[0] + 1)
    guards = bound_guards(ref, ends, k)
    starts = []
    for y in instances(st0, k, guards, ref):
        lo_, hi_ = y.nl(lo), y.nl(hi)
        if not y.entails_ge(lo_) or not y.entails_ge(hi_ - lo_):
            return None
        d = (prefix(A, hi_) - prefix(A, lo_)) - (prefix(B, hi_) - prefix(B, lo_))
        if y.add_eq(normal(y, d)) and not y.empty():
            starts.append(y)
    out = []
    for s2, kd, v in exits(I, step, starts, guards):
        i = s2.nl(e)
        x, y = s2.nl(Term('at', A, i)), s2.nl(Term('at', B, i))
        top = lambda z: prefix(A, s2.nl(i + 1)) - prefix(B, s2.nl(i + 1))
        if s2.entails_ge(i):
            d = None
            if s2.entails_ge(x - y - 1):
                d = top(0) - 1
            elif s2.entails_ge(y - x - 1):
                d = -top(0) - 1
            if d is not None:
                s2.add_ge(s2.nl(d))
        if not s2.empty():
            out.append((s2, kd, v))
    return out


def index_terms(res, k):
    ts = set()
    for s, kd, v in res:
        for t, x in s.sub.items():
            subterms(t, ts)
            subterms(x, ts)
        for c in s.cons:
            subterms(c, ts)
    return sorted((t for t in ts if t.op == 'at' and len(t.args) == 2 and occurs(k, t.args[1])
                   and base_range(t.args[0]) and base_range(t.args[0])[0] >= 0 and base_range(t.args[0])[1] <= 9), key=repr)


def by_search(I, st0, step, node):
    """run of equal cells skipped"""
    from . import loops
    r = linear(I, st0, step, node)
    if r is None:
        return None
    lin, others, k, ref, res = r
    if others or not lin:
        return None
    ends = [s for s, kd, v in res if kd == 'n' and not s.empty()]
    hit = None
    for t in index_terms(res, k):
        vs = set()
        for x in ends:
            iv = interval(x, L(t))
            vs.add(iv[0] if iv[0] is not None and iv[0] == iv[1] else None)
        if len(vs) == 1 and None not in vs and 0 <= next(iter(vs)) <= 9:
            hit = (t, next(iter(vs)))
    if hit is None:
        return None
    t, x = hit
    c = loops.coef_of(L(t.args[1]), k)
    if c is None or c[1] != ONE or x not in (0, 9):
        return None
    A, e0, K = t.args[0], c[0], L(k)
    guards = bound_guards(ref, ends, k)
    ts = set()
    for q in st0.cons:
        subterms(q, ts)
    known = []
    for u in sorted(ts, key=repr):
        if u.op == 'at' and u.args[0] is A and not occurs(k, u):
            iv = interval(st0, L(u))
            if iv[0] is not None and iv[0] > x or iv[1] is not None and iv[1] < x:
                known.append(L(u.args[1]))
    starts = []
    for y in instances(st0, k, guards, ref):
        for i in known:
            if y.entails_ge(i - e0):
                y.add_ge(y.nl(i - e0 - K))
        if not y.entails_ge(y.nl(e0)):
            return None
        run = ZERO if x == 0 else p10(y.nl(e0 + K)) - p10(y.nl(e0))
        if y.add_eq(normal(y, prefix(A, y.nl(e0 + K)) - prefix(A, y.nl(e0)) - run)) and not y.empty():
            starts.append(y)
    return exits(I, step, starts, guards)


def copied(x, at, k):
    """(base, offset) when x is the element at - offset of a sequence"""
    if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0].op == 'at':
        b, i = x.t[0][0].args[:2]
        d = L(at) - L(i)
        if not occurs(k, d) and not occurs(k, b):
            return b, d
    return None


def by_fill(I, st0, step, node):
    """cells of a run of indices overwritten with one value or with the cells of another sequence"""
    from . import loops
    r = linear(I, st0, step, node)
    if r is None:
        return None
    lin, others, k, ref, res = r
    if len(others) != 1 or not isinstance(others[0].v0, Seq):
        return None
    S = others[0]
    ends = [s for s, kd, v in res if kd == 'n' and not s.empty()]
    b = Term('base', S.h)
    seen = []
    for s in ends:
        w = loops.shape(s, simp(s, S.get(s).p), b, s.nl(S.hn))
        if w is None or w[0] != 'tile':
            return None
        parts = seq_sub(s, S.get(s).p, w[1], w[2])
        if len(parts) != 1:
            return None
        q = simp(parts[0][0], parts[0][1])
        if len(q) == 1 and q[0][0] == 'sl' and s.entails_eq(plen(q[0]) - 1):
            q = [('one', L(Term('at', q[0][1], s.nl(q[0][2]))))]
        if len(q) != 1 or q[0][0] != 'one' or not isinstance(q[0][1], Lin) or mentions_h(q[0][1], S.h):
            return None
        if occurs(k, q[0][1]) and copied(q[0][1], w[1], k) is None:
            return None
        seen.append((s, w[1], q[0][1]))
    for _, a, x in sorted(seen, key=lambda w: not occurs(k, w[1])):
        if all(s.nl(a - a2) == ZERO and s.nl(x - x2) == ZERO for s, a2, x2 in seen):
            at, val = a, x
            break
    else:
        return None
    c = loops.coef_of(at, k)
    if c is None or c[1] not in (ONE, -ONE):
        return None
    cp = copied(val, at, k) if occurs(k, val) else None
    if cp is not None and mentions_h(L(cp[1]), S.h):
        return None
    guards = bound_guards(ref, ends, k)
    K = L(k)
    lo, hi = (c[0], c[0] + K) if c[1] == ONE else (c[0] - K + 1, c[0] + 1)
    base = st0.copy()
    base.add_ge(K)
    for lc in lin:
        lc.put(base, lc.v0 + lc.delta * K)
        rg = loops.loc_range(I, lc, base)
        if rg:
            base.add_ge(lc.v0 + lc.delta * K - rg[0])
            base.add_ge(L(rg[1]) - lc.v0 - lc.delta * K)
    starts = []
    for y in instances(st0, k, guards, base):
        n = y.nl(pslen(S.v0.p))
        a, z = y.nl(lo), y.nl(hi)
        if not y.entails_ge(a) or not y.entails_ge(n - z):
            return None
        for y1, p1 in seq_sub(y, S.v0.p, ZERO, a):
            for y2, p2 in seq_sub(y1, S.v0.p, z, n):
                S.put(y2, S.v0.with_p(simp(y2, tuple(p1) + ((('fill', val, y2.nl(z - a)) if cp is None else ('sl', cp[0], y2.nl(a - cp[1]), y2.nl(z - cp[1]))),) + tuple(p2))))
                if not y2.empty():
                    starts.append(y2)
    return exits(I, step, starts, guards)


def mentions_h(l, h):
    return occurs(h, l)


def findpos_facts(st):
    """the cells a search skipped are known: value of the skipped run"""
    ts = set()
    for t, x in st.sub.items():
        subterms(t, ts)
        subterms(x, ts)
    for c in st.cons:
        subterms(c, ts)
    for t in sorted((t for t in ts if t.op == 'findpos'), key=repr):
        key, cs = t.args
        if key.op != 'seqkey' or not isinstance(cs, Term) or cs.op != 'cset':
            continue
        mask = ~cs.args[1] & 1023
        if mask == 0 or mask & (mask - 1):
            continue
        x = mask.bit_length() - 1
        f = st.nl(t)
        ps = key.args[0]
        if len(ps) == 1 and ps[0][0] == 'rv' and x == 0:
            B, a, z = ps[0][1], L(ps[0][2]), L(ps[0][3])
            if base_range(B) and base_range(B)[0] >= 0 and base_range(B)[1] <= 9:
                st.add_eq(normal(st, prefix(B, st.nl(z)) - prefix(B, st.nl(z - f))))
            continue
        if x not in (0, 9):
            continue
        run = L(Term('p10', f)) - 1 if x == 9 else ZERO
        for s, sub in seq_sub(st.copy(), ps, ZERO, f):
            if s.empty():
                continue
            v = value(s, sub)
            if v is not None:
                st.add_eq(normal(st, v - run))
            break


def unfold(st):
    """a number whose digits above a known prefix are few is their sum"""
    ts = set()
    for t, x in st.sub.items():
        subterms(t, ts)
        subterms(x, ts)
    for c in st.cons:
        subterms(c, ts)
    for B in sorted({t for t in ts if t.op == 'base' and isinstance(t.args[0], Term) and t.args[0].op == 'digs'}, key=repr):
        u, n = L(B.args[0].args[0]), st.nl(Term('len', B))
        es = [ZERO] + sorted((st.nl(t.args[1]) for t in st.sub if t.op == 'pv' and t.args[0] is B), key=repr)
        for e in es:
            d = st.nl(n - e)
            if d.is_const() and 1 <= d.c <= 3:
                v = prefix(B, e)
                for i in range(d.c):
                    v = v + p10(e + i) * L(Term('at', B, st.nl(e + i)))
                if not st.add_eq(normal(st, u - v)):
                    return False
                break
    return True


def refine(st):
    findpos_facts(st)
    return squeeze(st) and unfold(st) and tight(st)


def by_unrolling(I, st0, step, node):
    """candidates from the first two iterations: the boundary of the zero tail moves linearly"""
    from . import loops
    mods, pairs = set(), []
    with loops.Capture(I):
        s1s = [s for s, k, v in step(st0.copy()) if k == 'n' and not s.empty()]
        for s1 in s1s:
            mods |= set(loops.entry_diff(st0, s1))
            for s2, k, v in step(s1.copy()):
                if k == 'n' and not s2.empty():
                    mods |= set(loops.entry_diff(s1, s2))
                    pairs.append((s1, s2))
    if not pairs:
        return None
    locs = [loops.Loc(r, p, loops.get_path(st0.store[r], p)) for r, p in sorted(mods, key=repr)]
    seqs = [lc for lc in locs if isinstance(lc.v0, Seq) and lc.v0.et and lc.v0.et.get('int')]
    others = [lc for lc in locs if lc not in seqs]
    if len(seqs) != 1:
        return None
    for lc in others:
        if not isinstance(lc.v0, Lin):
            return None
        ds = {s1.nl(lc.get(s1) - lc.v0) for s1, s2 in pairs} | {s2.nl(lc.get(s2) - lc.get(s1)) for s1, s2 in pairs}
        if len(ds) != 1 or not next(iter(ds)).is_const():
            return None
        lc.kind, lc.delta = 'lin', next(iter(ds))
        lc.h = fresh('h')
    S = seqs[0]
    k = fresh('k')
    n = st0.nl(pslen(S.v0.p))
    seen, cands = set(), []
    for s1, s2 in pairs:
        z1, n1 = trailing_zeros(s1, S.get(s1).p)
        z2, n2 = trailing_zeros(s2, S.get(s2).p)
        d = s2.nl(z2 - z1)
        dbg('unroll', z1, z2)
        if not d.is_const() or d.c <= 0 or not s1.entails_eq(n1 - n):
            continue
        z = z1 + (L(k) - 1).scale(d.c)
        if z not in seen:
            seen.add(z)
            cands.append(Template(None, z, n))
    return S, others, k, cands


def by_window(I, st0, step, node):
    """candidates from the cells that a generic iteration touches"""
    from . import loops
    Cap = loops.Capture
    mods, _ = loops.discover(I, st0, step, node)
    locs = [loops.Loc(r, p, loops.get_path(st0.store[r], p)) for r, p in sorted(mods, key=repr)]
    hs, hsyms, hmap = loops.havoc(I, st0, locs, {})
    with Cap(I):
        res = step(hs)
    conts = [s for s, k, v in res if k == 'n']
    if not conts:
        return None
    for lc in sorted(locs, key=lambda lc: isinstance(lc.v0, (Seq, OStream))):
        loops.classify(I, lc, hs, conts, hsyms, hmap, locs)
    seqs = [lc for lc in locs if isinstance(lc.v0, Seq) and lc.v0.et and lc.v0.et.get('int')]
    others = [lc for lc in locs if lc not in seqs]
    dbg('locs', [(lc, lc.kind) for lc in locs])
    if len(seqs) != 1 or any(lc.kind not in ('lin',) for lc in others):
        return None
    S = seqs[0]
    k = fresh('k')
    K = L(k)
    closed = {lc.h: lc.v0 + lc.delta * K for lc in others}
    # second round with the closed forms
    for lc in others:
        lc.kind = 'lin'
    hs, hsyms, hmap = loops.havoc(I, st0, [lc for lc in locs], {}, K)
    with Cap(I):
        res = step(hs)
    b = Term('base', S.h)
    lo = hi = None
    wins = []
    for s, kd, v in res:
        if kd != 'n':
            continue
        w = loops.shape(s, simp(s, S.get(s).p), b, s.nl(S.hn))
        dbg('shape', w)
        if w is None or w[0] not in ('tile', 'same'):
            return None
        if w[0] == 'same':
            continue
        wins.append((w[1], w[2], s))
    # windows of special cases (first iteration) are instances of the general one
    wins.sort(key=lambda w: -(occurs(k, w[0]) + occurs(k, w[1])))  # noqa
    for a, z, s in wins:
        if lo is None:
            lo, hi = a, z
            continue
        if s.entails_ge(a - lo) and s.entails_ge(hi - z):
            continue
        dl, dh = s.nl(a - lo), s.nl(z - hi)
        if not dl.is_const() or not dh.is_const():
            return None
        lo = a if dl.c < 0 else lo
        hi = z if dh.c > 0 else hi
    if lo is None or any(occurs(h, lo) or occurs(h, hi) for h in hsyms if h is not k):
        return None
    z0, n = trailing_zeros(st0, S.v0.p)
    cands = []
    if loops.coef_of(lo, k) is not None:
        cands.append(Template(lo, z0, n))
        if z0 != n:
            if occurs(k, hi) and st0.nl(hi - lo).is_const() and st0.nl(hi - lo).c > 1:
                cands.append(Template(lo, st0.nl(hi - 1), n))
            if z0 != st0.nl(n - 1):
                cands.append(Template(lo, st0.nl(n - 1), n))
            cands.append(Template(lo, n, n))
    if loops.coef_of(hi, k) is not None:
        cands.append(Template(None, st0.nl(hi - 1), n))
        cands.append(Template(None, st0.nl(hi), n))
    return S, others, k, cands


def instance(I, st0, others, S, T, k, case, R, eq=None):
    K = L(k)
    s = st0.copy()
    s.add_ge(K)
    from . import loops
    for lc in others:
        v = lc.v0 + lc.delta * K
        lc.put(s, v)
        rg = loops.loc_range(I, lc, s)
        if rg:
            s.add_ge(v - rg[0])
            s.add_ge(L(rg[1]) - v)
    ps = T.build(s, k, K, case, R, S.v0.kind, S.v0.et)
    if ps is None or s.empty():
        return None, None
    ps = simp(s, ps)
    S.put(s, S.v0.with_p(ps))
    return s, ps


def attempt(I, st0, step, node, S, others, T, k):
    from . import loops
    K = L(k)
    R = {}
    z = st0.copy()
    T.match(z, k, ZERO, S.v0.p, R)
    dbg('entry', T.p, T.z, R, simp(z, S.v0.p))
    delta = None
    for rnd in range(14):
        for seg in '0123':
            R.setdefault(seg, None)
        old = dict(R)
        use = {a: (b if b is not None else (0, 0)) for a, b in R.items()}
        delta = None
        new = dict(R)
        ends, cand, deltas = [], set(), []
        for case in T.cases():
            s, ps = instance(I, st0, others, S, T, k, case, use)
            if s is None:
                continue
            before = value(s, ps)
            with loops.Capture(I):
                res = step(s.copy())
            for s2, kd, v in res:
                if kd != 'n' or not tight(s2):
                    continue
                q = S.get(s2)
                T.match(s2, k, K + 1, simp(s2, q.p), new)
                after = value(s2, simp(s2, q.p))
                if before is None or after is None:
                    raise NoTemplate('value')
                d = normal(s2, after - before)
                deltas.append((s2, d))
                ends.append(s2)
                cand.update(x for x in loops.guards(s, s2) if x[0] == 'ge' and loops.classify_guard(x, k) == 'bound')
        # the change of the general case: the special ones (first iteration) are instances of it
        for deep in (False, True):
            if deep and len({d for _, d in deltas}) > 1:
                deltas = [(s2, normal(s2, d)) for s2, d in deltas if squeeze(s2)]
            delta = next((d0 for _, d0 in deltas if all(normal(s2, d - d0) == ZERO for s2, d in deltas)), None)
            if delta is not None:
                break
        else:
            if deltas:
                raise NoTemplate('different changes of the value: %r' % ([(d, s2.cons if DBG else 0) for s2, d in deltas],))
        guards = [g for g in sorted(cand, key=repr) if all(x.entails_ge(g[1]) for x in ends)]
        R = new
        dbg('round', rnd, R, 'delta', delta)
        if R == old:
            break
    else:
        raise NoTemplate('intervals do not stabilise')
    if delta is None:
        raise NoTemplate('no iteration')
    D = sum_delta(delta, k, K)
    dbg('sum', delta, '->', D, 'guards', guards)
    if D is None:
        raise NoTemplate('no closed form of the sum of %r' % (delta,))
    v0 = value(st0, simp(st0, S.v0.p))
    if v0 is None:
        raise NoTemplate('entry value')
    use = {a: (b if b is not None else (0, 0)) for a, b in R.items()}
    out = []
    for case in T.cases():
        s, ps = instance(I, st0, others, S, T, k, case, use)
        if s is None:
            continue
        v = value(s, ps)
        starts = []
        a, b = s.fork(c_eq(K))
        starts += a
        for y in b:
            lst = [y]
            for g in guards or ():
                gg = loops.subst_guard(g, k)
                nl_ = []
                for w in lst:
                    nl_ += w.assume(gg)
                lst = nl_
            starts += lst
        for y in starts:
            if y.empty():
                continue
            if not y.add_eq(normal(y, v - v0 - D)):
                continue
            bounds(y, v)
            if y.empty():
                continue
            for s2, kd, vv in step(y):
                if kd == 'n' or s2.empty():
                    continue
                for g in guards or ():
                    if g[0] == 'ge' and s2.entails_eq(g[1] + 1):
                        s2.add_eq(g[1] + 1)
                out.append((s2, 'n' if kd in ('b', 'x') else kd, vv))
    return out
