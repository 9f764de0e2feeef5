"""Terms, affine/polynomial expressions over terms, and the relational (polyhedral) numeric domain.

Everything here is the domain's own decision procedure: entailment and emptiness of conjunctions of
linear integer constraints by exact simplex, with product constraints for monomials.
"""
from fractions import Fraction
from math import gcd


class Term:
    """Hash-consed term.  op 'sym' = free symbol, otherwise an operator applied to args (Terms, Lins, str, int)."""
    __slots__ = ('op', 'args', 'id', '_b', '_ne')
    table = {}
    counter = 0

    def __new__(cls, op, *args):
        key = (op, args)
        t = cls.table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            Term.counter += 1
            t.id = Term.counter
            t._b = None
            cls.table[key] = t
        return t

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        if self.op == 'sym':
            return str(self.args[0])
        if self.op == '*':
            return '*'.join(map(repr, self.args))
        if self.op == 'at':
            return '%r[%r]' % self.args[:2]
        return '%s(%s)' % (self.op, ','.join(map(repr, self.args)))


def sym(name):
    return Term('sym', name)


_fresh = [0]


def fresh(prefix):
    _fresh[0] += 1
    return Term('sym', '%s#%d' % (prefix, _fresh[0]))


def reset_fresh():
    _fresh[0] = 0


class Lin:
    """c + sum coef*monomial, monomials are Terms ('*' terms are products of other terms)."""
    __slots__ = ('c', 't', '_h')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self._h = None

    @staticmethod
    def mk(c, d):
        return Lin(c, tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].id)))

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, bool):
            return Lin(int(x))
        if isinstance(x, int):
            return Lin(x)
        if isinstance(x, Term):
            return Lin(0, ((x, 1),))
        raise TypeError(x)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def __add__(self, o):
        o = Lin.of(o)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        d = dict(self.t)
        for k, v in o.t:
            d[k] = d.get(k, 0) + v
        return Lin.mk(self.c + o.c, d)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((k, -v) for k, v in self.t))

    def __sub__(self, o):
        return self + (-Lin.of(o))

    def __rsub__(self, o):
        return Lin.of(o) - self

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def __mul__(self, o):
        o = Lin.of(o)
        if not o.t:
            return self.scale(o.c)
        if not self.t:
            return o.scale(self.c)
        d = {}
        c = self.c * o.c
        for k, v in self.t:
            d[k] = d.get(k, 0) + v * o.c
        for k, v in o.t:
            d[k] = d.get(k, 0) + v * self.c
        for k, v in self.t:
            for k2, v2 in o.t:
                m = mono(k, k2)
                d[m] = d.get(m, 0) + v * v2
        return Lin.mk(c, d)

    __rmul__ = __mul__

    def syms(self):
        return [k for k, _ in self.t]

    def coef(self, s):
        for k, v in self.t:
            if k is s:
                return v
        return 0

    def __repr__(self):
        if not self.t:
            return str(self.c)
        out = ''
        for k, v in self.t:
            sg = '+' if v > 0 else '-'
            a = abs(v)
            out += (sg if out or sg == '-' else '') + (('%d*' % a) if a != 1 else '') + repr(k)
        if self.c:
            out += '%+d' % self.c
        return out


def factors(t):
    return t.args if t.op == '*' else (t,)


def mono(a, b):
    fs = tuple(sorted(factors(a) + factors(b), key=lambda x: x.id))
    return Term('*', *fs)


ZERO = Lin(0)
ONE = Lin(1)


def L(x):
    return Lin.of(x)


def norm_ge(l):
    """canonical form of l >= 0 over the integers"""
    if not l.t:
        return l
    g = 0
    for _, v in l.t:
        g = gcd(g, abs(v))
    if g > 1:
        return Lin(l.c // g, tuple((k, v // g) for k, v in l.t))
    return l


def subterms(x, out):
    """all Terms occurring in x (Lin/Term/tuple), including inside arguments"""
    if isinstance(x, Lin):
        for k, _ in x.t:
            subterms(k, out)
    elif isinstance(x, Term):
        if x in out:
            return
        out.add(x)
        if x.op != 'sym':
            for a in x.args:
                subterms(a, out)
    elif isinstance(x, tuple):
        for a in x:
            subterms(a, out)


def _direct(x):
    if x._b is None:
        s = set()
        subterms(x, s)
        x._b = frozenset(s)
    return x._b


def occurs(s, x):
    if isinstance(x, Lin):
        return any(occurs(s, k) for k, _ in x.t)
    return s in _direct(x)


REBUILD = {}  # op -> function(args) -> Lin or Term, used when substituting inside terms


def subst_lin(l, m):
    if not m:
        return l
    r = None
    for k, v in l.t:
        nk = subst_term(k, m)
        if nk is not k:
            if r is None:
                r = True
            break
    if r is None:
        return l
    acc = Lin(l.c)
    for k, v in l.t:
        nk = subst_term(k, m)
        acc = acc + (nk.scale(v) if isinstance(nk, Lin) else Lin(0, ((nk, v),)))
    return acc


_subst_cache = {}


def subst_term(t, m):
    """returns Term or Lin"""
    if t in m:
        return m[t]
    if t.op == 'sym':
        return t
    b = _direct(t)
    if not any(s in b for s in m):
        return t
    na = []
    ch = False
    for a in t.args:
        x = subst_any(a, m)
        if x is not a:
            ch = True
        na.append(x)
    if not ch:
        return t
    if t.op == '*':
        acc = ONE
        for a in na:
            acc = acc * L(a)
        return acc
    f = REBUILD.get(t.op)
    if f:
        return f(*na)
    # a term argument position that became a Lin stays a Lin
    return Term(t.op, *na)


def subst_any(a, m):
    if isinstance(a, Lin):
        return subst_lin(a, m)
    if isinstance(a, Term):
        return subst_term(a, m)
    if isinstance(a, tuple):
        r = tuple(subst_any(x, m) for x in a)
        return a if all(x is y for x, y in zip(r, a)) else r
    return a


# ---------------------------------------------------------------- exact simplex (feasibility of a conjunction of l >= 0)

def simplex_feasible(cons):
    """rational feasibility of {l >= 0}.  Returns None when infeasible, else a dict monomial -> Fraction."""
    # general simplex: slack s_i = sum coef*x ; s_i >= -c
    rows = {}
    lower = {}
    nv = {}
    order = {}

    def vid(x):
        if x not in order:
            order[x] = len(order)
        return x

    slack_of = {}
    low1 = {}
    up1 = {}
    for l in cons:
        if not l.t:
            if l.c < 0:
                return None
            continue
        if len(l.t) == 1:
            k, v = l.t[0]
            vid(k)
            if v > 0:
                b = Fraction(-l.c, v)
                if k not in low1 or low1[k] < b:
                    low1[k] = b
            else:
                b = Fraction(l.c, -v)
                if k not in up1 or up1[k] > b:
                    up1[k] = b
            continue
        g = 0
        for _, v in l.t:
            g = gcd(g, abs(v))
        key = tuple((k, v // g) for k, v in l.t)
        b = Fraction(-l.c, g)
        neg = tuple((k, -v) for k, v in key)
        for k, _ in key:
            vid(k)
        if neg in slack_of:
            s = slack_of[neg]
            if s not in up1 or up1[s] > -b:
                up1[s] = -b
        else:
            if key not in slack_of:
                s = ('s', len(slack_of))
                slack_of[key] = s
                rows[s] = {k: Fraction(v) for k, v in key}
                vid(s)
            s = slack_of[key]
            if s not in low1 or low1[s] < b:
                low1[s] = b
    for x in order:
        if x in low1 and x in up1 and low1[x] > up1[x]:
            return None
    val = {}
    for x in order:
        if x not in rows:
            v = Fraction(0)
            if x in low1 and v < low1[x]:
                v = low1[x]
            if x in up1 and v > up1[x]:
                v = up1[x]
            val[x] = v
    for s, r in rows.items():
        val[s] = sum((c * val[k] for k, c in r.items()), Fraction(0))
    it = 0
    while True:
        it += 1
        if it > 400:
            return {}
        bad = None
        for s in sorted(rows, key=order.get):
            if s in low1 and val[s] < low1[s]:
                bad = (s, 1)
                break
            if s in up1 and val[s] > up1[s]:
                bad = (s, -1)
                break
        if bad is None:
            return {k: v for k, v in val.items() if isinstance(k, Term)}
        s, d = bad
        target = low1[s] if d == 1 else up1[s]
        r = rows[s]
        piv = None
        for x in sorted(r, key=order.get):
            c = r[x] * d
            if c > 0 and (x not in up1 or val[x] < up1[x]):
                piv = x
                break
            if c < 0 and (x not in low1 or val[x] > low1[x]):
                piv = x
                break
        if piv is None:
            return None
        # pivot s <-> piv
        a = r[piv]
        theta = (target - val[s]) / a
        val[s] = target
        val[piv] += theta
        for o, ro in rows.items():
            if o is not s and o != s and piv in ro:
                val[o] += ro[piv] * theta
        newrow = {s: 1 / a}
        for k, c in r.items():
            if k is not piv:
                newrow[k] = -c / a
        del rows[s]
        for o, ro in rows.items():
            if piv in ro:
                f = ro.pop(piv)
                for k, c in newrow.items():
                    z = ro.get(k, 0) + f * c
                    if z == 0:
                        ro.pop(k, None)
                    else:
                        ro[k] = z
        rows[piv] = newrow


_inf_cache = {}
STAT = {'lp': 0, 'lpcache': 0, 'queries': 0}


def int_infeasible(cons, depth=4):
    """True only if the conjunction of l >= 0 has no integer solution (bounded branching, exact)."""
    key = frozenset(cons)
    r = _inf_cache.get(key)
    if r is not None:
        STAT['lpcache'] += 1
        return r
    STAT['lp'] += 1
    r = _int_inf(list(key), depth)
    _inf_cache[key] = r
    return r


def _int_inf(cons, depth):
    cons = sorted(cons, key=lambda l: (tuple(k.id for k, _ in l.t), l.c))
    m = simplex_feasible(cons)
    if m is None:
        return True
    if depth == 0:
        return False
    for k in sorted(m, key=lambda t: t.id):
        v = m[k]
        if v.denominator != 1:
            f = v.numerator // v.denominator
            return _int_inf(cons + [Lin(f, ((k, -1),))], depth - 1) and _int_inf(cons + [Lin(-f - 1, ((k, 1),))], depth - 1)
    return False


def relevant(cons, goal):
    """constraints connected to goal's monomials"""
    want = set(goal.syms()) if isinstance(goal, Lin) else set(goal)
    # a monomial drags its factors
    def expand(ss):
        r = set(ss)
        for s in ss:
            if s.op == '*':
                r.update(s.args)
        return r
    want = expand(want)
    out = []
    rest = list(cons)
    ch = True
    while ch:
        ch = False
        keep = []
        for l in rest:
            ks = expand(l.syms())
            if ks & want:
                out.append(l)
                want |= ks
                ch = True
            else:
                keep.append(l)
        rest = keep
    return out


def product_constraints(cons, monos):
    """c1*c2 >= 0 for constraints over the factors of the monomials of interest"""
    out = []
    fs = set()
    for m in monos:
        fs.update(m.args)
    lin = []
    for l in cons:
        ks = l.syms()
        if all(k.op != '*' for k in ks) and any(k in fs for k in ks):
            lin.append(l)
    lin = lin[:14]
    seen = set()
    for i, a in enumerate(lin):
        for b in lin[i:]:
            p = a * b
            ms = [k for k in p.syms() if k.op == '*']
            if ms and any(m in monos for m in ms) and p not in seen:
                seen.add(p)
                out.append(p)
    return out[:120]


def infeasible(cons):
    cs = [norm_ge(c) for c in cons]
    for c in cs:
        if not c.t and c.c < 0:
            return True
    if int_infeasible(cs):
        return True
    monos = {k for c in cs for k in c.syms() if k.op == '*'}
    if monos:
        extra = product_constraints(cs, monos)
        if extra:
            return int_infeasible(cs + [norm_ge(e) for e in extra], 3)
    return False


def entails(cons, goal):
    """conjunction cons |= goal >= 0"""
    STAT['queries'] += 1
    goal = norm_ge(goal)
    if not goal.t:
        return goal.c >= 0
    rel = relevant(cons, goal)
    for l in rel:
        if l.t == goal.t and l.c <= goal.c:
            return True
    return infeasible(rel + [Lin(-goal.c - 1, tuple((k, -v) for k, v in goal.t))])
