"""Real-number normal form of floating-point expressions: rational functions over atoms.

Two expressions with the same normal form compute the same real function, i.e. agree up to rounding."""
import math
from fractions import Fraction

from . import model
from .dom import Fl
from .lin import L, Lin, Term, factors

SIGNED = {'sin': -1, 'atan': -1, 'tan': -1, 'cbrt': -1, 'cos': 1, 'fabs': 1}


class Poly:
    """polynomial over the rationals; atoms are hashable keys"""
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v != 0}

    def key(self):
        return tuple(sorted(self.t.items(), key=repr))

    def __eq__(self, o):
        return self.t == o.t

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.t.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        out = Poly()
        for a, x in self.t.items():
            for b, y in o.t.items():
                d = {}
                for m, e in a + b:
                    d[m] = d.get(m, 0) + e
                p = Poly({(): x * y})
                mono = []
                for m, e in sorted(d.items(), key=repr):
                    if isinstance(m, tuple) and m[0] == 'sqrt' and e >= 2:
                        rad = Poly(dict(m[1]))
                        for _ in range(e // 2):
                            p = p * rad
                        e %= 2
                    if e:
                        mono.append((m, e))
                mono = tuple(mono)
                if mono:
                    q = {}
                    for k, v in p.t.items():
                        if not k:
                            q[mono] = q.get(mono, 0) + v
                        else:
                            r = Poly({k: v}) * Poly({mono: Fraction(1)})
                            for kk, vv in r.t.items():
                                q[kk] = q.get(kk, 0) + vv
                    p = Poly(q)
                out = out + p
        return out


def const(c):
    return Poly({(): Fraction(c)})


def atom(k):
    return Poly({((k, 1),): Fraction(1)})


ONE = const(1)


class NF:
    """num / den"""

    def __init__(self, n, d=ONE):
        self.n, self.d = n, d

    def __add__(self, o):
        if self.d == o.d:
            return NF(self.n + o.n, self.d)
        return NF(self.n * o.d + o.n * self.d, self.d * o.d)

    def neg(self):
        return NF(self.n.scale(-1), self.d)

    def __mul__(self, o):
        return NF(self.n * o.n, self.d * o.d)

    def div(self, o):
        return NF(self.n * o.d, self.d * o.n)

    def same(self, o):
        return (self.n * o.d - o.n * self.d).t == {}

    def key(self):
        """canonical for polynomials (constant denominator); otherwise a syntactic key"""
        if len(self.d.t) == 1 and () in self.d.t:
            return ('p',) + self.n.scale(1 / self.d.t[()]).key()
        return ('r', self.n.key(), self.d.key())

    def signed(self):
        """(sign, key) with key invariant under negation"""
        a, b = repr(self.key()), repr(self.neg().key())
        return (1, a) if a <= b else (-1, b)


def nf_lin(l):
    l = L(l)
    p = const(l.c)
    for t, c in l.t:
        m = const(c)
        for f in factors(t):
            m = m * atom(('i', f.id))
        p = p + m
    return NF(p)


def nf(x):
    if isinstance(x, Fl):
        x = x.t
    if isinstance(x, (int, float)):
        if isinstance(x, float) and not math.isfinite(x):
            return NF(atom(('c', repr(x))))
        return NF(const(Fraction(x)))
    if isinstance(x, str):
        return nf(float(x))
    o = x.op
    if o == 'fl':
        return nf(float(x.args[0]))
    if o == 'i2d':
        return nf_lin(x.args[0])
    if o == 'fneg':
        return nf(x.args[0]).neg()
    if o in ('f+', 'f-', 'f*', 'f/'):
        a, b = nf(x.args[0]), nf(x.args[1])
        if o == 'f+':
            return a + b
        if o == 'f-':
            return a + b.neg()
        if o == 'f*':
            return a * b
        return a.div(b)
    if o in ('sqrt', 'hypot'):
        a = nf(x.args[0])
        if o == 'hypot':
            b = nf(x.args[1])
            a = a * a + b * b
        if len(a.d.t) == 1 and () in a.d.t:
            p = a.n.scale(1 / a.d.t[()])
            if not p.t:
                return NF(const(0))
            return NF(atom(('sqrt', p.key())))
        return NF(atom(('sqrtr', a.key())))
    if o == 'pow' and isinstance(x.args[1], Term) and x.args[1].op == 'fl':
        e = float(x.args[1].args[0])
        if e == int(e) and 0 <= e <= 8:
            r, a = NF(ONE), nf(x.args[0])
            for _ in range(int(e)):
                r = r * a
            return r
    if o == 'pow':
        r = power(x)
        if r is not None:
            return r
    if o in SIGNED:
        a = nf(x.args[0])
        if a.d.t.keys() == {()} and a.n.t.keys() <= {()}:
            v = a.n.t.get((), Fraction(0)) / a.d.t[()]
            if o == 'fabs' or v == 0:
                return NF(const(abs(v) if o == 'fabs' else 1 if o == 'cos' else 0))
        s, k = nf(x.args[0]).signed()
        if SIGNED[o] > 0:
            s = 1
        return NF(atom((o, k)).scale(s))
    if o == 'atan2':
        s, k = nf(x.args[0]).signed()
        return NF(atom((o, k, repr(nf(x.args[1]).key()))).scale(s))
    args = []
    for a in x.args:
        if isinstance(a, Term) and is_float(a):
            args.append(repr(nf(a).key()))
        else:
            args.append(a.id if isinstance(a, Term) else repr(a))
    return NF(atom((o,) + tuple(args)))


def power(x):
    """constant base, integer linear exponent: c^(k + sum a_i*s_i) as a product of the atoms c^s_i"""
    b, e = nf(x.args[0]), nf(x.args[1])
    if b.d != ONE or len(b.n.t) != 1 or () not in b.n.t or b.n.t[()] <= 0 or e.d != ONE:
        return None
    c = b.n.t[()]
    num, den = ONE, ONE
    for mono, co in e.n.t.items():
        if co.denominator != 1:
            return None
        if not mono:
            if abs(co) > 400:
                return None
            f = const(c ** int(abs(co)))
        elif all(m[0] == 'i' for m, _ in mono):
            f = ONE
            a = atom(('pw', c, mono))
            if abs(co) > 8:
                return None
            for _ in range(int(abs(co))):
                f = f * a
        else:
            return None
        if co > 0:
            num = num * f
        else:
            den = den * f
    return NF(num, den)


FOPS = {'fl', 'i2d', 'fneg', 'f+', 'f-', 'f*', 'f/', 'fabs', 'sqrt', 'hypot', 'pow', 'exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'atan2', 'floor', 'ceil', 'round', 'trunc', 'cbrt', 'dfmod', 'copysign', 'fmax', 'fmin', 'conv', 'fma'}


def is_float(t):
    return t.op in FOPS


def same(a, b):
    """the two expressions denote the same real function"""
    try:
        return nf(a).same(nf(b))
    except (OverflowError, ZeroDivisionError, RecursionError):
        return False


# ------------------------------------------------------------------ values in concrete models

def f1(fn):
    def h(m, t):
        try:
            return fn(m.flt(t.args[0]))
        except ValueError:
            raise model.Unk('float domain')
    return h


def f2(fn):
    def h(m, t):
        try:
            return fn(m.flt(t.args[0]), m.flt(t.args[1]))
        except ValueError:
            raise model.Unk('float domain')
    return h


for _n in ('sqrt', 'log', 'log10', 'log2', 'exp', 'sin', 'cos', 'tan', 'trunc'):
    model.FLTFN[_n] = f1(lambda x, _f=getattr(math, _n): float(_f(x)))
model.FLTFN['floor'] = f1(lambda x: float(math.floor(x)))
model.FLTFN['ceil'] = f1(lambda x: float(math.ceil(x)))
model.FLTFN['round'] = f1(lambda x: float(math.floor(abs(x) + .5)) * (1 if x >= 0 else -1))
model.FLTFN['cbrt'] = f1(lambda x: math.copysign(abs(x) ** (1 / 3), x))
model.FLTFN['hypot'] = f2(math.hypot)
model.FLTFN['atan2'] = f2(math.atan2)
model.FLTFN['copysign'] = f2(math.copysign)
model.FLTFN['dfmod'] = f2(math.fmod)
model.FLTFN['fmax'] = f2(max)
model.FLTFN['fmin'] = f2(min)


def _pow(m, t):
    a, b = m.flt(t.args[0]), m.flt(t.args[1])
    try:
        return math.pow(a, b)
    except ValueError:
        return math.inf if a == 0 and b < 0 else math.nan
    except OverflowError:
        raise model.Unk('pow')


model.FLTFN['pow'] = _pow


def apart(x, y):
    """numbers that differ by more than rounding can explain"""
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) != math.isnan(y)
    if x == y:
        return False
    if math.isinf(x) or math.isinf(y):
        return True
    return abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y))


# ------------------------------------------------------------------ consistency of the float comparisons of a path

def _key(x):
    """(sign, key, constant) of a float term; key None for constants"""
    n = nf(x)
    if len(n.d.t) == 1 and () in n.d.t:
        p = n.n.scale(1 / n.d.t[()])
        c = p.t.get((), Fraction(0))
        r = {k: v for k, v in p.t.items() if k != ()}
        if not r:
            return 1, None, c
        lead = r[min(r, key=repr)]
        # the key of a polynomial has a positive leading coefficient, so |x| is always +1 times its own key
        return (1, repr(Poly(r).key()), c) if lead > 0 else (-1, repr(Poly(r).scale(-1).key()), c)
    s, k = n.signed()
    return s, k, Fraction(0)


def infeasible(atoms):
    """the comparisons (finite, NaN-free values) contradict each other.  atoms: {term: truth}"""
    iv, zero = {}, set()
    fab = {}

    def bound(k, lo, los, hi, his):
        a = iv.get(k, (None, False, None, False))
        l, ls, h, hs = a
        if lo is not None and (l is None or lo > l or lo == l and los):
            l, ls = lo, los
        if hi is not None and (h is None or hi < h or hi == h and his):
            h, hs = hi, his
        iv[k] = (l, ls, h, hs)
        return l is None or h is None or l < h or l == h and not ls and not hs

    def note(t):
        if isinstance(t, Term):
            if t.op == 'fabs':
                s, k, c = _key(t)
                s2, k2, c2 = _key(t.args[0])
                if k is not None and k2 is not None and c2 == 0 and s == 1:
                    fab[k] = k2
                if k is not None and s == 1:
                    bound(k, Fraction(0), False, None, False)
            for a in t.args:
                note(a)
    ne = []
    try:
        for t, v in atoms.items():
            if not isinstance(t, Term) or t.op not in ('feq', 'flt', 'fle'):
                continue
            for x in t.args:
                note(x)
            d = Term('f-', t.args[0], t.args[1])
            s, k, c = _key(d)
            # s*K + c  (op) 0
            if t.op == 'feq':
                if k is None:
                    if (c == 0) != v:
                        return True
                elif v:
                    if not bound(k, -c * s, False, -c * s, False):
                        return True
                else:
                    ne.append((k, -c * s))
                continue
            less = t.op == 'flt'
            # truth v of d < 0 / d <= 0
            strict = less if v else not less
            up = v
            if k is None:
                ok = (c < 0 if strict else c <= 0) if up else (c > 0 if strict else c >= 0)
                if not ok:
                    return True
                continue
            x = -c * s
            r = bound(k, None, False, x, strict) if up == (s > 0) else bound(k, x, strict, None, False)
            if not r:
                return True
        for k, k2 in fab.items():
            l, ls, h, hs = iv.get(k2, (None, False, None, False))
            if l is not None and h is not None:
                m = max(abs(l), abs(h))
                if not bound(k, None, False, m, False):
                    return True
            if l is not None and l >= 0 and not bound(k, l, ls, None, False):
                return True
            if h is not None and h <= 0 and not bound(k, -h, hs, None, False):
                return True
            l, ls, h, hs = iv.get(k, (None, False, None, False))
            if h is not None and (not bound(k2, -h, hs, None, False) or not bound(k2, None, False, h, hs)):
                return True
        for k, x in ne:
            l, ls, h, hs = iv.get(k, (None, False, None, False))
            if l is not None and h is not None and l == h == x:
                return True
            # |y| <= 0 implies y = 0
    except (OverflowError, ZeroDivisionError, RecursionError):
        return False
    return False
