"""Big integers: contracts of the digit-level operations, proved one by one over the digit domain (engine/digits.py).

Every operation is analysed for operands in canonical form (sign -1/0/+1, decimal digits of the absolute value) under each combination of
signs.  Calls of other operations are replaced by their contract (assume/guarantee); the loops over digits are summarised by the change of the
positional value.  An obligation: on every path the object and the result are canonical and denote the documented number.
"""
import itertools
from .core import *          # noqa
from engine import digits as D
from engine.interp import Interp

CLS = 'pyincpp::Int'
MAXD = 10 ** 9   # digits of an operand (4 GB of cells): assumed
INT_SEQ = {'int': True, 'lo': INT_MIN, 'hi': INT_MAX}


class World:
    def __init__(self, P):
        self.P = P
        self.fn = {}
        for fid, f in P.fns.items():
            k = key_of(P, f)
            if 'body' in f or f.get('defaulted') or k not in self.fn:
                self.fn.setdefault(k, dict(f, fid=fid))
        rec = [r for r in P.records.values() if r['name'] == CLS]
        self.rec = rec[0]
        v = Interp(P).mk_record(self.rec, Term('sym', 'S'))
        self.sq = v.f['chunks_']

    # -------------------------------------------------------- values
    def lit(self, n):
        sg = (n > 0) - (n < 0)
        ds = str(abs(n))[::-1] if n else ''
        return Struct(CLS, {'sign_': L(sg), 'chunks_': self.sq.with_p(tuple(('one', L(int(c))) for c in ds))})

    def mk(self, sign, u):
        """canonical integer sign*u, u >= 1 (sign +1/-1) or zero"""
        u = L(u)
        if sign == 0:
            return self.lit(0)
        if u.is_const():
            return self.lit(sign * u.c)
        b = D.digs(u)
        return Struct(CLS, {'sign_': L(sign), 'chunks_': self.sq.with_p((('sl', b, ZERO, L(Term('len', b))),))})

    def facts(self, st, u):
        """what is known of the digits of u >= 1"""
        u = st.nl(u)
        if u.is_const():
            return
        b = D.digs(u)
        n = L(Term('len', b))
        st.add_ge(n - 1)
        st.add_ge(L(MAXD) - n)
        top = L(Term('at', b, st.nl(n - 1)))
        st.add_ge(top - 1)
        st.add_ge(L(9) - top)

    def put(self, st, v):
        """[(state, canonical struct)] of the number v"""
        v = D.normal(st, v)
        out = []
        if v.is_const():
            return [(st, self.lit(v.c))]
        for sg, c in ((1, c_ge(v - 1)), (0, c_eq(v)), (-1, c_ge(-v - 1))):
            for s in st.copy().assume(c):
                if s.empty():
                    continue
                if sg:
                    self.facts(s, s.nl(v.scale(sg)))
                out.append((s, self.mk(sg, s.nl(v.scale(sg)))))
        return out

    def number(self, st, x):
        """[(state, Lin)] when x is canonical on that state; raises NotCanonical"""
        sg = st.nl(x.f['sign_'])
        ps = simp(st, x.f['chunks_'].p)
        if not sg.is_const():
            out = []
            for c in (-1, 0, 1):
                for s in st.copy().assume(c_eq(sg - c)):
                    out += self.number(s, x)
            for s in st.copy().assume(c_or(c_ge(sg - 2), c_ge(-sg - 2))):
                if not s.empty():
                    raise NotCanonical('sign %r' % (sg,))
            return out
        if sg.c not in (-1, 0, 1):
            raise NotCanonical('sign %r' % (sg,))
        n = st.nl(pslen(ps))
        if sg.c == 0:
            if st.decide(c_eq(n)) is not True:
                raise NotCanonical('sign 0 with digits')
            return [(st, ZERO)]
        self.cells(st, ps)
        t = self.top(st, ps)
        if t is None or D.interval(st, t)[0] is None or D.interval(st, t)[0] < 1 and not st.entails_ge(t - 1):
            raise NotCanonical('leading digit may be zero: %r' % (ps,))
        v = D.value(st, ps)
        if v is None:
            raise NotCanonical('value')
        return [(st, v.scale(sg.c))]

    def top(self, st, ps):
        if not ps:
            return None
        p = ps[-1]
        if not st.entails_ge(plen(p) - 1):
            return None
        v = elem_of(st, p, st.nl(plen(p) - 1), None if p[0] in ('one', 'fill') else INT_SEQ)
        return v if isinstance(v, Lin) else None

    def cells(self, st, ps):
        for p in ps:
            lo, hi = D.piece_range(st, p)
            if lo is None or hi is None or lo < 0 or hi > 9:
                if p[0] == 'one' and isinstance(p[1], Lin) and st.entails_ge(p[1]) and st.entails_ge(L(9) - p[1]):
                    continue
                raise NotCanonical('cell outside 0..9: %r in %r' % (p, (lo, hi)))


class NotCanonical(Giveup):
    pass


def impossible(st):
    st.cons.append(Lin(-1))


def saturate(st):
    """lengths of digit sequences are monotone in the number; equal digit sequences denote equal numbers"""
    for t, v in list(st.atoms.items()):
        if t.op == 'eqseq':
            a, b = [simp(st, t2.args[0]) for t2 in t.args]
            if v is True:
                x, y = D.value(st, a), D.value(st, b)
                if x is not None and y is not None:
                    if not st.add_eq(D.normal(st, x - y)):
                        impossible(st)
            elif st.norm(t.args[0]) is st.norm(t.args[1]) or a == b:
                impossible(st)
    ts = set()
    for c in st.cons:
        for t, _ in c.t:
            subterms(t, ts)
    for r, v in st.store.items():
        if isinstance(v, Struct) and v.cls == CLS:
            for p in v.f['chunks_'].p:
                if p[0] in ('sl', 'rv', 'st'):
                    subterms(p[1], ts)
    us = {t.args[0] for t in ts if t.op == 'digs'}
    us = sorted({st.nl(u) for u in us}, key=repr)
    for a in us:
        for b in us:
            if a is b:
                continue
            na, nb = D.ndig(a), D.ndig(b)
            if st.entails_ge(L(a) - L(b)):
                if not st.entails_ge(na - nb):
                    st.add_ge(na - nb)
            elif st.entails_ge(na - nb - 1):
                st.add_ge(L(a) - L(b) - 1)
    return st


# ---------------------------------------------------------------- contracts

def tdiv(st, I, a, b):
    """[(state, q, r)] truncated division of numbers of known sign, b != 0"""
    out = []
    for sa, ca in ((1, c_ge(a)), (-1, c_ge(-a - 1))):
        for s in st.copy().assume(ca):
            for sb, cb in ((1, c_ge(b - 1)), (-1, c_ge(-b - 1))):
                for s2 in s.copy().assume(cb):
                    if s2.empty():
                        continue
                    x, y = s2.nl(L(a).scale(sa)), s2.nl(L(b).scale(sb))
                    if x.is_const() and y.is_const():
                        q, r = L(x.c // y.c), L(x.c % y.c)
                    else:
                        q, r = t_fdiv(x, y), t_fmod(x, y)
                        if not y.is_const():
                            r = x - q * y
                            s2.add_ge(q)
                            s2.add_ge(r)
                            s2.add_ge(y - r - 1)
                        else:
                            I.divax(s2, x, y, r, q)
                    out.append((s2, s2.nl(q.scale(sa * sb)), s2.nl(r.scale(sa))))
    return out


class Contracts:
    def __init__(self, W):
        self.W = W

    def ints(self, I, st, addrs, node):
        """[(state, [numbers])]"""
        work = [(st, [])]
        for a in addrs:
            nw = []
            for s, vs in work:
                x = I.rv(s, a, node)
                for s2, v in x:
                    if not isinstance(v, Struct):
                        I.giveup('operand %r' % (v,), node)
                    try:
                        for s3, n in self.W.number(s2, v):
                            nw.append((s3, vs + [n]))
                    except NotCanonical as e:
                        I.giveup('operand not canonical (%s)' % e, node)
            work = nw
        return work

    def inplace(self, fn):
        def h(I, st, f, this, args, node):
            out = []
            for s, vs in self.ints(I, st, [this] + list(args), node):
                for s2, v in fn(I, s, vs, node):
                    for s3, x in self.W.put(s2, v):
                        for s4 in I.write(s3, this, x, node):
                            out.append((s4, this))
            return out
        return h

    def produce(self, fn):
        def h(I, st, f, this, args, node):
            out = []
            for s, vs in self.ints(I, st, ([this] if this is not None else []) + list(args), node):
                for s2, v in fn(I, s, vs, node):
                    out += self.W.put(s2, v)
            return out
        return h

    def compare(self, fn):
        def h(I, st, f, this, args, node):
            out = []
            for s, (a, b) in self.ints(I, st, [this] + list(args), node):
                out += fn(s, a, b)
            return out
        return h

    def table(self):
        one = lambda g: lambda I, s, vs, node: [(s, g(*vs))]

        def div(which):
            def g(I, s, vs, node):
                a, b = vs
                out = []
                z, nz = s.fork(c_eq(b))
                for y in z:
                    I.do_throw(y, Exc('std::runtime_error', 'Error: Divide by zero.'), node)
                for y in nz:
                    out += [(t, (q, r)[which]) for t, q, r in tdiv(y, I, y.nl(a), y.nl(b))]
                return out
            return g

        def three(a, b, s, absol=False):
            out = []
            for r, c in ((1, c_ge(a - b - 1)), (0, c_eq(a - b)), (-1, c_ge(b - a - 1))):
                for y in s.copy().assume(c):
                    if not y.empty():
                        out.append((saturate(y), L(r)))
            return out

        def absn(s, v):
            out = []
            for sg, c in ((1, c_ge(v)), (-1, c_ge(-v - 1))):
                for y in s.copy().assume(c):
                    if not y.empty():
                        out.append((y, y.nl(v.scale(sg))))
            return out

        def acmp(s, a, b):
            out = []
            for s1, x in absn(s, a):
                for s2, y in absn(s1, b):
                    out += three(x, y, s2)
            return out

        def trim(I, st, f, this, args, node):
            out = []
            for s, x in I.rv(st, this, node):
                if not D.refine(s):
                    continue
                ps = simp(s, x.f['chunks_'].p)
                try:
                    self.W.cells(s, ps)
                except NotCanonical as e:
                    I.giveup('trim of a non-decimal vector (%s)' % e, node)
                v = D.value(s, ps)
                sg = s.nl(x.f['sign_'])
                if v is None or not sg.is_const():
                    I.giveup('trim', node)
                s.add_ge(v)
                for s2, y in self.W.put(s, v):
                    if not y.f['sign_'].is_const() or y.f['sign_'].c == -1:
                        continue
                    r = y if y.f['sign_'] == ZERO else Struct(CLS, dict(y.f, sign_=sg))
                    for s3 in I.write(s2, this, r, node):
                        out.append((s3, this))
            return out

        def digits_(I, st, f, this, args, node):
            out = []
            for s, (v,) in self.ints(I, st, [this], node):
                for y, u in absn(s, v):
                    for z, c in ((True, c_eq(u)), (False, c_ge(u - 1))):
                        for w in y.copy().assume(c):
                            if not w.empty():
                                out.append((w, ZERO if z else D.ndig(w.nl(u))))
            return out
        inc = lambda d: lambda I, s, vs, node: [(y, y.nl(vs[0] + sg * d)) for sg, c in ((1, c_ge(vs[0])), (-1, c_ge(-vs[0] - 1))) for y in s.copy().assume(c) if not y.empty()]
        neg = one(lambda a: -a)

        def ab(I, s, vs, node):
            return absn(s, vs[0])
        T = {
            'Int.trim()': trim,
            'Int.abs_inc()': self.inplace(inc(1)),
            'Int.abs_dec()': self.inplace(inc(-1)),
            'Int.abs_cmp(Int) const': self.compare(acmp),
            'Int.operator<=>(Int) const': self.compare(lambda s, a, b: three(a, b, s)),
            'Int.operator==(Int) const': self.compare(lambda s, a, b: [(y, r) for r, lst in ((True, s.copy().assume(c_eq(a - b))), (False, s.copy().assume(c_not(c_eq(a - b))))) for y in lst if not y.empty()]),
            'Int.operator+=(Int)': self.inplace(one(lambda a, b: a + b)),
            'Int.operator-=(Int)': self.inplace(one(lambda a, b: a - b)),
            'Int.operator*=(Int)': self.inplace(one(lambda a, b: a * b)),
            'Int.operator/=(Int)': self.inplace(div(0)),
            'Int.operator%=(Int)': self.inplace(div(1)),
            'Int.operator++()': self.inplace(one(lambda a: a + 1)),
            'Int.operator--()': self.inplace(one(lambda a: a - 1)),
            'Int.operator+(Int) const': self.produce(one(lambda a, b: a + b)),
            'Int.operator-(Int) const': self.produce(one(lambda a, b: a - b)),
            'Int.operator*(Int) const': self.produce(one(lambda a, b: a * b)),
            'Int.operator/(Int) const': self.produce(div(0)),
            'Int.operator%(Int) const': self.produce(div(1)),
            'Int.operator-() const': self.produce(neg),
            'Int.operator+() const': self.produce(one(lambda a: a)),
            'Int.abs() const': self.produce(ab),
            'Int.digits() const': digits_,
        }
        return {self.W.fn[k]['fid']: h for k, h in T.items() if k in self.W.fn}
