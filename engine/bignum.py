"""Loops over numbers: repeated addition/subtraction of big integers, and the outer loop of a long division.

A location is a number (an object in canonical form, replaced by its value), a cell of a digit vector, or a plain integer.  A loop whose
iteration changes every location by a constant amount has the closed form v0 + K*d; a loop that takes a multiple of y from a number and moves on to
the next digit keeps  x = r + y*Q  and  0 <= r < bound.
"""
from .dom import *
from .lin import fresh
from . import digits as D
from .digits import dbg, tight, interval, value, normal, prefix, ranged, piece_range, NoTemplate, p10


def products(st):
    """facts about products of a bounded count with a positive quantity"""
    ms = set()
    for c in list(st.cons):
        ms.update(m for m, _ in c.t if m.op == '*')
    for m in sorted(ms, key=repr):
        for f in set(m.args):
            if f.op != 'sym':
                continue
            rest = list(m.args)
            rest.remove(f)
            if not all(r.op == 'p10' or (interval(st, L(r))[0] or 0) >= 1 for r in rest):
                continue
            R = ONE
            for r in rest:
                R = R * L(r)
            lo, hi = interval(st, L(f))
            st.add_ge(R - 1)
            if lo is not None:
                st.add_ge(R * (L(f) - lo))
            if hi is not None and abs(hi) < 10 ** 6:
                st.add_ge(R * (L(hi) - L(f)))
    return st


def at_most(st, l, b):
    l = st.nl(l)
    hi = interval(st, l)[1]
    if hi is not None and hi <= b:
        return True
    s = st.copy()
    s.add_ge(l - b - 1)
    products(s)
    return s.empty()


def at_least(st, l, b):
    lo = interval(st, l)[0]
    if lo is not None and lo >= b or st.entails_ge(l - b):
        return True
    s = st.copy()
    s.add_ge(L(b) - 1 - l)
    products(s)
    return s.empty()


def magnitude(st):
    """a number has its length: 10^(n-1) <= u < 10^n, also multiplied by a power of ten"""
    ts = set()
    for c in st.cons:
        subterms(c, ts)
    us = {t.args[0] for t in ts if t.op == 'digs'}
    ms = {m for c in st.cons for m, _ in c.t if m.op == '*'}
    for u in sorted(us, key=repr):
        n = st.nl(D.ndig(u))
        st.add_ge(normal(st, L(u) - p10(n - 1)))
        st.add_ge(normal(st, p10(n) - 1 - L(u)))
        for m in ms:
            fs = list(m.args)
            l = L(u)
            if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1 and l.t[0][0] in fs:
                fs.remove(l.t[0][0])
                if all(f.op == 'p10' for f in fs):
                    e = ZERO
                    for f in fs:
                        e = e + L(f.args[0])
                    st.add_ge(normal(st, L(m) - L(Term('p10', st.nl(e + n - 1)))))
    ps = set()
    for c in st.cons:
        subterms(c, ps)
    ps = sorted({t for t in ps if t.op == 'p10'}, key=repr)
    for i, a in enumerate(ps):
        for b in ps[i + 1:]:
            d = st.nl(L(b.args[0]) - L(a.args[0]))
            if d.is_const() and 0 < abs(d.c) <= 20:
                lo, hi = (a, b) if d.c > 0 else (b, a)
                st.add_ge(L(hi) - L(lo).scale(10 ** abs(d.c)))
                st.add_ge(L(lo).scale(10 ** abs(d.c)) - L(hi))
    return st


def changes(I, st0, step, rounds=2):
    from . import loops
    mods, pairs, cur = set(), [], [st0]
    with loops.Capture(I):
        for rd in range(rounds):
            nxt = []
            for s in cur[:4]:
                for s2, k, v in step(s.copy()):
                    if k == 'n' and tight(s2):
                        mods |= set(loops.entry_diff(s, s2))
                        nxt.append(s2)
                        pairs.append((rd, s, s2))
            cur = nxt
    return mods, pairs


def owner(W, st, root, path):
    from . import loops
    best = None
    for i in range(len(path) + 1):
        w = loops.get_path(st.store[root], path[:i])
        if isinstance(w, Struct) and w.cls == W.rec['name']:
            best = path[:i]
    return best


class Num:
    kind = 'num'

    def __init__(self, lc, v0):
        self.lc, self.v0, self.delta = lc, v0, None

    def __repr__(self):
        return 'number %r' % (self.lc,)


def locations(I, st0, mods):
    """(numbers, integer vectors, plain integers) or None"""
    from . import loops
    W = I.world
    groups, lins = {}, []
    for r, p in sorted(mods, key=repr):
        o = owner(W, st0, r, p)
        if o is None:
            v = loops.get_path(st0.store[r], p)
            if not isinstance(v, Lin):
                return None
            lins.append(loops.Loc(r, p, v))
        else:
            groups.setdefault((r, o), set()).add(p)
    nums, seqs = [], []
    for (r, o), ps in sorted(groups.items(), key=repr):
        v = loops.get_path(st0.store[r], o)
        seqs_only = len(ps) == 1 and isinstance(loops.get_path(st0.store[r], next(iter(ps))), Seq)
        if seqs_only:
            seqs.append(loops.Loc(r, next(iter(ps)), loops.get_path(st0.store[r], next(iter(ps)))))
            continue
        try:
            x = W.number(st0.copy(), v)
        except Giveup as e:
            dbg('not a number', r, o, e)
            return None
        if len(x) != 1:
            return None
        nums.append(Num(loops.Loc(r, o, v), x[0][1]))
    return nums, seqs, lins


def put_numbers(I, s, pairs):
    """states with the given canonical numbers stored"""
    work = [s]
    for n, v in pairs:
        nw = []
        for y in work:
            for y2, x in I.world.put(y, v):
                n.lc.put(y2, x)
                nw.append(y2)
        work = nw
    return [y for y in work if tight(y)]


def number_of(I, s, lc):
    x = I.world.number(s, lc.get(s))
    if len(x) != 1:
        raise Giveup('sign of %r' % (lc,))
    return x[0][1]


def by_number(I, st0, step, node):
    """numbers and cells that change by a constant amount per iteration"""
    from . import loops
    if getattr(I, 'world', None) is None:
        return None
    mods, pairs = changes(I, st0, step)
    r = locations(I, st0, mods) if mods else None
    if r is None or not r[0]:
        return None
    nums, seqs, lins = r
    if any(s2.nl(pslen(lc.get(s2).p) - pslen(lc.get(s).p)) != ZERO for lc in seqs for _, s, s2 in pairs):
        return None
    g = st0.copy()
    fixed = []
    for lc in lins:
        h = fresh('h')
        lc.h = h
        lc.put(g, L(h))
        rg = loops.loc_range(I, lc, g)
        if rg:
            g.add_ge(L(h) - rg[0])
            g.add_ge(L(rg[1]) - h)
    for lc in seqs:
        lc.h = Term('base', fresh('h'))
        lc.hn = g.nl(pslen(lc.v0.p))
        lc.put(g, lc.v0.with_p((('sl', lc.h, ZERO, lc.hn),)))
    for n in nums:
        n.h = fresh('num')
    bad = {lc.h for lc in lins} | {lc.h for lc in seqs} | {n.h for n in nums}
    first, late, cellat = True, [], {}
    with loops.Capture(I):
        for y in put_numbers(I, g, [(n, L(n.h)) for n in nums]):
            for s, k, v in step(y):
                if k != 'n' or not tight(s):
                    continue
                for n in nums:
                    d = normal(s, number_of(I, s, n.lc) - L(n.h))
                    late.append((s, n, d))
                    if n.delta is None and not any(occurs(b, d) for b in bad):
                        n.delta = d
                for lc in lins:
                    d = s.nl(lc.get(s) - L(lc.h))
                    if any(occurs(b, d) for b in bad) or not first and s.nl(lc.delta - d) != ZERO:
                        return None
                    lc.delta = d
                for lc in seqs:
                    w = loops.shape(s, simp(s, lc.get(s).p), lc.h, s.nl(lc.hn))
                    if w is None or w[0] != 'tile' or s.nl(w[2] - w[1]) != ONE or any(occurs(b, w[1]) for b in bad):
                        return None
                    q = seq_sub(s, lc.get(s).p, w[1], w[2])
                    q = simp(q[0][0], q[0][1])
                    if len(q) != 1 or q[0][0] != 'one' or not isinstance(q[0][1], Lin):
                        return None
                    d = s.nl(q[0][1] - L(Term('at', lc.h, w[1])))
                    if any(occurs(b, d) for b in bad):
                        return None
                    cellat.setdefault(id(lc), (lc, []))[1].append((s, d, w[1]))
                first = False
    if first:
        return None
    for lc, obs in cellat.values():
        for _, d, at in obs:
            if all(s.entails_eq(d - d2) and s.entails_eq(at - at2) for s, d2, at2 in obs):
                lc.delta, lc.at = d, at
                break
        else:
            return None
    for s, n, d in late:
        if n.delta is None or normal(s, n.delta - d) != ZERO and not s.entails_eq(normal(s, n.delta - d)):
            return None
    k = fresh('k')
    K = L(k)
    base = st0.copy()
    base.add_ge(K)

    def place(s, K):
        for lc in lins:
            v = lc.v0 + lc.delta * K
            lc.put(s, v)
            rg = loops.loc_range(I, lc, s)
            if rg:
                s.add_ge(v - rg[0])
                s.add_ge(L(rg[1]) - v)
        for lc in seqs:
            c = [(y, x) for y, x in seq_sub(s, lc.v0.p, lc.at, lc.at + 1)]
            q = simp(c[0][0], c[0][1]) if len(c) == 1 else ()
            if len(q) != 1:
                raise Giveup('cell')
            x = q[0][1] if q[0][0] == 'one' else elem_of(s, q[0], ZERO, lc.v0.et)
            if not isinstance(x, Lin):
                raise Giveup('cell')
            r = seq_set(s, lc.v0, lc.at, x + lc.delta * K)
            if len(r) != 1:
                raise Giveup('cell position')
            s = r[0][0]
            lc.put(s, r[0][1])
        return put_numbers(I, s, [(n, n.v0 + n.delta * K) for n in nums])

    ends = []
    with loops.Capture(I):
        for y in place(base.copy(), K):
            for s, kd, v in step(y):
                if kd == 'n' and tight(s):
                    ends.append(s)
    guards = D.bound_guards(base, ends, k)
    dbg('number loop', nums, [n.delta for n in nums], 'guards', guards)
    starts = []
    for y in D.instances(st0, k, guards, base):
        starts += place(y, y.nl(K))
    return D.exits(I, step, starts, guards)


# ---------------------------------------------------------------- long division

def skeleton(ps):
    return tuple((p[0],) + tuple(p[1:2]) for p in ps)


def by_division(I, st0, step, node):
    """x = r + y*Q is kept while multiples of y are taken from the number r, below a bound"""
    from . import loops
    if getattr(I, 'world', None) is None:
        return None
    mods, pairs = changes(I, st0, step)
    r = locations(I, st0, mods) if mods else None
    if r is None or len(r[0]) != 1 or not r[1]:
        return None
    (num,), seqs, lins = r
    k = fresh('k')
    K = L(k)
    for lc in lins:
        ds = {s2.nl(lc.get(s2) - lc.get(s)) for _, s, s2 in pairs}
        if len(ds) != 1 or not next(iter(ds)).is_const():
            return None
        lc.delta = next(iter(ds))
    lins_, marks = lins, []
    for lc in seqs:
        if not plan(st0, lc, pairs, k):
            dbg('no plan for', lc, [simp(s2, lc.get(s2).p) for _, s, s2 in pairs][:3])
            return None
    dbg('division', num, [(lc, lc.plan) for lc in seqs])
    exact = [lc for lc in seqs if lc.plan[0] == 'exact']
    cells = [lc for lc in seqs if lc.plan[0] == 'tail']
    if not exact or len(cells) > 1:
        return None
    R = {}

    def place(s, K, rv):
        for lc in lins:
            v = lc.v0 + lc.delta * K
            lc.put(s, v)
            rg = loops.loc_range(I, lc, s)
            if rg:
                s.add_ge(v - rg[0])
                s.add_ge(L(rg[1]) - v)
        for lc in exact:
            ps = at_k(lc.plan[1], k, K)
            for p in ps:
                s.add_ge(plen(p))
            lc.put(s, lc.v0.with_p(simp(s, ps)))
        for lc in cells:
            z, n = L(subst_any(lc.plan[1], {k: K})), s.nl(pslen(lc.v0.p))
            s.add_ge(z)
            s.add_ge(n - z)
            ps = (('fill', ZERO, s.nl(z)), ('sl', ranged(*R.get('cell', (0, 0))), ZERO, s.nl(n - z)))
            lc.put(s, lc.v0.with_p(simp(s, ps)))
        return put_numbers(I, s, [(num, rv)])

    def bounds_of(s):
        return [b for b in (value(s, simp(s, lc.get(s).p)) for lc in exact) if b is not None]

    ys = sorted({p[1] for lc in exact for p in simp(st0, lc.v0.p) if p[0] == 'sl' and p[1].op == 'base' and isinstance(p[1].args[0], Term) and p[1].args[0].op == 'digs'}, key=repr)
    if len(ys) != 1:
        return None
    y = L(ys[0].args[0].args[0])
    # entry
    z = st0.copy()
    b0 = bounds_of(z)
    if len(b0) != 1:
        return None
    x0 = num.v0
    m = z.copy()
    m.add_ge(normal(m, x0 - b0[0]))
    magnitude(m)
    magnitude(m)
    if not m.empty() or not z.entails_ge(x0):
        dbg('bound at entry', x0, b0, m.cons)
        return None
    # one generic iteration
    for rnd in range(6):
        old = dict(R)
        rv = fresh('r')
        g = st0.copy()
        g.add_ge(K)
        g.add_ge(L(rv))
        ends = []
        base = g.copy()
        with loops.Capture(I):
            for s0 in place(g, K, L(rv)):
                b = bounds_of(s0)[0]
                if not tight_add(s0, b - L(rv) - 1):
                    continue
                v0 = value(s0, simp(s0, cells[0].get(s0).p)) if cells else None
                if cells and v0 is None:
                    return None
                for s, kd, v in step(s0.copy()):
                    if kd != 'n' or not tight(s):
                        continue
                    products(s)
                    if s.empty():
                        continue
                    r1 = number_of(I, s, num.lc)
                    if not at_least(s, r1, 0):
                        dbg('remainder may be negative', r1)
                        return None
                    for lc in exact:
                        want = at_k(lc.plan[1], k, K + 1)
                        if not same(s, lc.get(s).p, want):
                            dbg('not exact', lc.get(s).p, want)
                            return None
                    b1 = bounds_of(s)[0]
                    if not s.entails_ge(normal(s, b1 - r1 - 1)):
                        dbg('bound', b1, r1, s.cons)
                        return None
                    d = normal(s, r1 - L(rv))
                    if cells:
                        lc = cells[0]
                        zk = s.nl(L(subst_any(lc.plan[1], {k: K + 1})))
                        n = s.nl(pslen(lc.v0.p))
                        for s2, p2 in seq_sub(s.copy(), lc.get(s).p, ZERO, zk):
                            for q in simp(s2, p2):
                                if piece_range(s2, q) != (0, 0) and not s2.empty():
                                    dbg('front not zero', q)
                                    return None
                        for s2, p2 in seq_sub(s.copy(), lc.get(s).p, zk, n):
                            if s2.empty():
                                continue
                            for q in simp(s2, p2):
                                a, b_ = piece_range(s2, q)
                                if (b_ is None or b_ > 9) and q[0] == 'one' and at_most(s2, q[1], 9):
                                    b_ = 9
                                if (a is None or a < 0) and q[0] == 'one' and at_least(s2, q[1], 0):
                                    a = 0
                                if a is None or b_ is None or abs(b_) > 10 ** 6:
                                    dbg('cell range', q, a, b_)
                                    return None
                                R['cell'] = D.join(R.get('cell'), (a, b_))
                        v1 = value(s, simp(s, lc.get(s).p))
                        if v1 is None or normal(s, d + y * (v1 - v0)) != ZERO:
                            dbg('not conserved', d, v1, v0)
                            return None
                    else:
                        if not divisible(d, y):
                            dbg('not a multiple', d)
                            return None
                    ends.append(s)
        if R == old:
            break
    else:
        return None
    if not ends:
        return None
    guards = [g for g in D.bound_guards(base, ends, k)]
    guards = [g for g in guards if not occurs(rv, g[1]) and not any(occurs(t, g[1]) for t in D._terms(g[1]) if t.op == 'sym' and '#' in str(t.args[0]) and t is not k and not inside(st0, t))]
    out = []
    r = fresh('r')
    starts = []
    for s in D.instances(st0, k, guards, base):
        kv = s.nl(K)
        s.add_ge(L(r))
        for s2 in place(s, kv, L(r)):
            b = bounds_of(s2)[0]
            q = value(s2, simp(s2, cells[0].get(s2).p)) if cells else L(fresh('Q'))
            if q is None:
                return None
            # the relation determines the remainder: keep it as an inequality pair so that r stays a name
            rel = normal(s2, x0 - L(r) - y * q)
            if not tight_add(s2, b - L(r) - 1):
                continue
            s2.add_ge(rel)
            s2.add_ge(-rel)
            s2.ev = s2.ev + (('division', x0, y, r, q),)
            if not s2.empty():
                starts.append(s2)
    return D.exits(I, step, starts, guards)


def inside(st, t):
    ts = set()
    for c in st.cons:
        subterms(c, ts)
    return t in ts


def tight_add(s, l):
    s.add_ge(normal(s, l))
    return tight(s)


def divisible(d, y):
    """every monomial of d contains y"""
    if y.is_const():
        return y.c != 0 and all(v % y.c == 0 for _, v in d.t) and d.c % y.c == 0
    if len(y.t) != 1 or y.c or y.t[0][1] != 1:
        return False
    f = y.t[0][0]
    return d.c == 0 and all(m is f or m.op == '*' and f in m.args for m, _ in d.t)


def subs(ps):
    ts = set()
    for p in ps:
        for x in p[1:]:
            if isinstance(x, (Lin, Term)):
                subterms(x, ts)
    return ts


def same(s, a, b):
    a, b = simp(s, a), simp(s, b)
    a = [p for p in a if s.nl(plen(p)) != ZERO]
    b = [p for p in b if s.nl(plen(p)) != ZERO]
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p[0] == q[0] and p[0] == 'fill':
            if s.nl(p[1] - q[1]) != ZERO or not s.entails_eq(p[2] - q[2]):
                return False
        elif p[0] == q[0] == 'sl':
            if p[1] is not q[1] or not s.entails_eq(p[2] - q[2]) or not s.entails_eq(p[3] - q[3]):
                return False
        elif p[0] == q[0] == 'one':
            if not isinstance(p[1], Lin) or s.nl(p[1] - q[1]) != ZERO:
                return False
        else:
            f = [p, q]
            f.sort(key=lambda x: x[0])
            if {p[0], q[0]} == {'fill', 'one'}:
                fi, on = f
                if not isinstance(on[1], Lin) or s.nl(fi[1] - on[1]) != ZERO or not s.entails_eq(fi[2] - 1):
                    return False
            else:
                return False
    return True


def at_k(ps, k, K):
    out = []
    for p in ps:
        out.append(tuple(L(subst_any(x, {k: K})) if isinstance(x, Lin) else x for x in p))
    return tuple(out)


def plan(st0, lc, pairs, k):
    """closed form of a vector: the same pieces with lengths linear in k ('exact'), or zeros up to a boundary linear in k ('tail')"""
    p0 = list(simp(st0, lc.v0.p))
    K = L(k)
    one = lambda p: ('fill', p[1], ONE) if p[0] == 'one' else p
    p0 = [one(p) for p in p0]
    deltas = set()
    for rd, s, s2 in pairs:
        a, b = [one(p) for p in simp(s, lc.get(s).p)], [one(p) for p in simp(s2, lc.get(s2).p)]
        deltas.add(s2.nl(pslen(b) - pslen(a)))
    if deltas == {L(-1)}:
        # cells disappear from one end
        for i, p in enumerate(p0):
            if p[0] == 'fill':
                q = tuple(p0[:i]) + (('fill', p[1], p[2] - K),) + tuple(p0[i + 1:])
                if all(same(s2, lc.get(s2).p, at_k(q, k, L(rd + 1))) for rd, s, s2 in pairs):
                    lc.plan = ('exact', q)
                    return True
        return False
    if deltas == {ZERO} and len(p0) == 1 and p0[0][0] == 'fill' and p0[0][1] == ZERO:
        zs = set()
        for rd, s, s2 in pairs:
            b = simp(s2, lc.get(s2).p)
            z = ZERO
            for p in b:
                if p[0] in ('fill', 'one') and p[1] == ZERO:
                    z = s2.nl(z + plen(p))
                else:
                    break
            zs.add((rd, z))
        n = p0[0][2]
        # some outcomes leave more zeros than others: the smallest boundary that moves by one per iteration
        for d in (-1,):
            z = n - K
            lc.plan = ('tail', z)
            return True
    return False


# ---------------------------------------------------------------- taking the digits of a number

def by_extraction(I, st0, step, node):
    """digits split off a number one by one: appended digits plus the rest keep the value"""
    from . import loops
    from . import digits
    m = digits.linear_known(I, st0, node)
    if isinstance(m, tuple):
        locs = m[0] + m[1]
        if sorted(isinstance(lc.v0, Seq) for lc in locs) != [False, True]:
            return None
    mods, pairs = changes(I, st0, step, 1)
    if not mods:
        return None
    locs = [loops.Loc(r, p, loops.get_path(st0.store[r], p)) for r, p in sorted(mods, key=repr)]
    seqs = [lc for lc in locs if isinstance(lc.v0, Seq) and lc.v0.et and lc.v0.et.get('int')]
    lins = [lc for lc in locs if isinstance(lc.v0, Lin)]
    if len(seqs) != 1 or len(lins) != 1 or len(locs) != 2:
        return None
    sq, rs = seqs[0], lins[0]
    r0 = rs.v0
    if not st0.entails_ge(r0):
        return None

    def place(s, b, n, q):
        s.add_ge(n)
        s.add_ge(q)
        rs.put(s, q)
        rg = loops.loc_range(I, rs, s)
        if rg:
            s.add_ge(L(rg[1]) - q)
        sq.put(s, sq.v0.with_p(simp(s, tuple(sq.v0.p) + (('sl', b, ZERO, n),))))
        return s

    b, n, q = ranged(0, 9), L(fresh('m')), L(fresh('q'))
    g = place(st0.copy(), b, n, q)
    n0 = pslen(sq.v0.p)
    some = False
    with loops.Capture(I):
        for s, kd, v in step(g):
            if kd != 'n' or not tight(s):
                continue
            some = True
            ps = simp(s, sq.get(s).p)
            tail = [p for s2, ps2 in seq_sub(s.copy(), ps, s.nl(n0 + n), s.nl(n0 + n + 1)) for p in simp(s2, ps2)]
            if s.nl(pslen(ps) - n0 - n) != ONE or len(tail) != 1 or tail[0][0] != 'one' or not isinstance(tail[0][1], Lin):
                return None
            if not same(s, ps, tuple(sq.v0.p) + (('sl', b, ZERO, n), tail[0])):
                return None
            c, r = tail[0][1], rs.get(s)
            if normal(s, q - r.scale(10) - c) != ZERO or not s.entails_ge(r):
                dbg('digit not conserved', c, r)
                return None
            iv = interval(s, c)
            if iv[0] is None or iv[0] < 0 or iv[1] is None or iv[1] > 9:
                return None
    if not some:
        return None
    out = [(s, 'n' if kd in ('b', 'x') else kd, v) for s, kd, v in step(st0.copy()) if kd != 'n' and not s.empty()]
    # at least one iteration: the last one starts from q
    k = fresh('k')
    b = ranged(0, 9)
    y = place(st0.copy(), b, L(k), L(fresh('q')))
    q = rs.get(y)
    rel = normal(y, prefix(b, L(k)) + p10(L(k)) * q - r0)
    y.add_ge(rel)
    y.add_ge(-rel)
    y.ev = y.ev + (('digits', r0, b, k, q),)
    for s, kd, v in step(y):
        if kd != 'n' or not tight(s):
            continue
        for s2, kd2, v2 in step(s):
            if kd2 == 'n' or s2.empty():
                continue
            rel2 = normal(s2, rel)
            s2.add_ge(rel2)
            s2.add_ge(-rel2)
            if tight(s2):
                out.append((s2, 'n' if kd2 in ('b', 'x') else kd2, v2))
    return out
