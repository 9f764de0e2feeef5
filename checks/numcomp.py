"""Number-theoretic results (C30): loops over numbers with inductive facts of the mathematical notion they compute.

The operations of a big integer are replaced by their contracts (proved by C07, C08, C12, C29).  A loop is summarised by inductive facts: linear
bounds and parities of the modified numbers (the largest inductive subset of a candidate set is kept), and one fact of the notion:
  factorial   r * i! is kept
  gcd         {a, b} changes by a unimodular step
  power       r * b^n is kept (modulo m)
  logarithm   v = floor(x / b^k)
  root        c' = (c + x/c)/2 :  c' >= isqrt(x), and c' >= c implies c <= isqrt(x)
  primality   no divisor in [2, i)
  next prime  no prime in (x, p]
On the exits the fact determines the value, which is compared with the definition.  A failed proof is confirmed by constant propagation or left
undecided.
"""
import math
from .intcomp import *          # noqa
from .intcomp import IntOp, Meaning, Nothing, MEAN, tdivmod
from . import intspec
from .intspec import World, Contracts, NotCanonical, impossible, saturate, tdiv
from engine import digits as D, bignum, loops
from engine.lin import fresh
from engine.interp import Interp, Fl

ERR = 'std::runtime_error'


def isprime(n):
    if n < 2:
        return False
    i = 2
    while i * i <= n:
        if n % i == 0:
            return False
        i += 1
    return True


def nextprime(n):
    p = max(2, n + 1)
    while not isprime(p):
        p += 1
    return p


def ipow(b, e, m=0):
    if e < 0:
        if b == 0:
            return None
        r = (b if e % 2 else 1) if abs(b) == 1 else 0
    elif m and abs(b) > 1:
        r = pow(abs(b), e, abs(m)) * (-1 if b < 0 and e % 2 else 1)
        return r
    else:
        r = b ** e
    return tdivmod(r, m)[1] if m else r


def ilog(x, b):
    k = 0
    while x >= b:
        x //= b
        k += 1
    return k


NUM = {
    'Int.factorial() const': Meaning('value', lambda n: math.factorial(n), 'C30', lambda n: n < 0),
    'Int.is_prime() const': Meaning('cond', isprime, 'C30'),
    'Int.next_prime() const': Meaning('value', nextprime, 'C30'),
    'Int.sqrt(Int)': Meaning('value', lambda n: math.isqrt(n), 'C30', lambda n: n < 0),
    'Int.pow(Int,Int,Int)': Meaning('value', ipow, 'C30', lambda b, e, m: b == 0 and e < 0),
    'Int.log(Int,Int)': Meaning('value', ilog, 'C30', lambda x, b: x <= 0 or b < 2),
    'Int.gcd(Int,Int)': Meaning('value', lambda a, b: math.gcd(a, b), 'C30'),
    'Int.lcm(Int,Int)': Meaning('value', lambda a, b: math.lcm(a, b), 'C30'),
}
ARITY = {'Int.pow(Int,Int,Int)': 3, 'Int.log(Int,Int)': 2, 'Int.gcd(Int,Int)': 2, 'Int.lcm(Int,Int)': 2}


class Endless(Exception):
    pass


class NoFact(Giveup):
    pass


def known_digits(s, ts):
    for t in ts:
        if t.op == 'at' and t.args[0].op == 'base' and t.args[0].args[0].op == 'digs':
            u, i = s.nl(t.args[0].args[0].args[0]), s.nl(t.args[1])
            if u.is_const() and i.is_const() and 0 <= i.c < len(str(u.c)):
                s.add_eq(L(t) - int(str(u.c)[::-1][i.c]))


class Sharper(Contracts):
    """contracts that also know powers of ten are positive and, for the root, the facts of Newton's step"""

    def __init__(self, op):
        Contracts.__init__(self, op.W)
        self.op = op

    def ints(self, I, st, addrs, node):
        out = []
        for s, vs in Contracts.ints(self, I, st, addrs, node):
            ts = set()
            for v in vs:
                subterms(v, ts)
            known_digits(s, ts)
            for t in ts:
                if t.op == 'p10':
                    s.add_ge(L(t) - 1)
                    # at most as long as an operand
                    for sg, x in zip(self.op.signs, self.op.N):
                        u = x.scale(sg)
                        if sg and not u.is_const() and s.entails_ge(D.ndig(u) - 1 - L(t.args[0])):
                            s.add_ge(u - L(t))
            vs = [s.nl(v) for v in vs]
            self.op.newton(s, vs)
            if not s.empty():
                out.append((s, vs))
        return out


class Fact:
    """an inductive fact of a notion over some of the numbers a loop changes"""

    def __init__(self, name, roles, first):
        self.name, self.roles, self.first = name, roles, first     # roles: positions in the list of numbers, or a number
        self.prev = False

    def pick(self, vals):
        return [vals[i] if isinstance(i, int) else i for i in self.roles]


class NumOp(IntOp):
    def __init__(self, key, signs, parity=None):
        IntOp.__init__(self, key, signs)
        self.par = parity
        if parity is not None:
            self.name += ' %s' % ('even', 'odd')[parity]

    termination = False

    def run(self, A):
        MEAN.setdefault(self.key, NUM[self.key])
        self.unranked = []
        r = IntOp.run(self, A)
        r.undecided += list(dict.fromkeys(self.unranked))
        if self.unranked and not r.problems:
            # the facts hold but no measure was found: look for an argument that is repeated for ever
            hits = []
            try:
                with limit(40):
                    self.refute(hits)
            except (Slow, RecursionError, Giveup):
                pass
            r.problems += [Problem(props, what, self.key, loc_of(self.f), wit) for props, what, wit in hits if 'C18' in props]
        return r

    # ------------------------------------------------------------ contracts
    def interp(self, contracts=True):
        if not contracts:
            return IntOp.interp(self, False)
        I = IntOp.interp(self)
        fn = self.W.fn
        C = self.C = Sharper(self)
        T = C.table()
        T = {k: T[fn[k]['fid']] for k in fn if fn[k]['fid'] in T}

        def mul(I, s, vs, node):
            a, b = vs
            p = s.nl(a * b)
            if not p.is_const() and not a.is_const() and not b.is_const():
                sa, sb = self.sign(s, a), self.sign(s, b)
                if sa and sb:
                    s.add_ge(p.scale(sa * sb) - a.scale(sa))
                    s.add_ge(p.scale(sa * sb) - b.scale(sb))
            return [(s, p)]

        def parity(which):
            def h(I, st, f, this, args, node):
                out = []
                for s, (v,) in C.ints(I, st, [this], node):
                    v = s.nl(v)
                    if all(k % 2 == 0 for _, k in v.t):
                        out.append((s, (v.c % 2 == 0) == which))
                        continue
                    for r in (0, 1):
                        y = s.copy()
                        q = t_fdiv(v, L(2))
                        y.add_ge(v - q.scale(2) - r)
                        y.add_ge(q.scale(2) + r - v)
                        if D.tight(y):
                            out.append((y, (r == 0) == which))
                return out
            return h

        def prime(I, st, f, this, args, node):
            out = []
            for s, (v,) in C.ints(I, st, [this], node):
                v = s.nl(v)
                if v.is_const():
                    if v.c > 10 ** 9:
                        I.giveup('a large prime', node)
                    out.append((s, isprime(v.c)))
                    continue
                for b in (True, False):
                    y = s.copy()
                    if b:
                        y.add_ge(v - 2)
                    y.store['#prime%d' % y.nroot] = Struct('vt::prime', {'n': v, 'is': L(int(b))})
                    y.nroot += 1
                    if not y.empty():
                        out.append((y, b))
            return out

        def gcd(I, st, f, this, args, node):
            out = []
            for s, (a, b) in C.ints(I, st, args, node):
                a, b = s.nl(a), s.nl(b)
                if a.is_const() and b.is_const():
                    out += self.W.put(s, L(math.gcd(a.c, b.c)))
                    continue
                g = fresh('gcd')
                s.add_ge(L(g) - (1 if self.sign(s, a) or self.sign(s, b) else 0))
                for y, x in self.W.put(s, L(g)):
                    y.store['#gcd'] = Struct('vt::gcd', {'a': a, 'b': b, 'g': L(g)})
                    out.append((y, x))
            return out
        def div(I, s, vs, node):
            a, b = s.nl(vs[0]), s.nl(vs[1])
            out = []
            z, nz = s.fork(c_eq(b))
            for y in z:
                if D.tight(y):
                    I.do_throw(y, Exc('std::runtime_error', 'Error: Divide by zero.'), node)
            for y in nz:
                for t, q, r in tdiv(y, I, y.nl(a), y.nl(b)):
                    self.divided(t, t.nl(a), t.nl(b), q)
                    out.append((t, q))
            return out
        def mod(I, s, vs, node):
            a, b = s.nl(vs[0]), s.nl(vs[1])
            out = []
            z, nz = s.fork(c_eq(b))
            for y in z:
                if D.tight(y):
                    I.do_throw(y, Exc('std::runtime_error', 'Error: Divide by zero.'), node)
            for y in nz:
                for t, q, r in tdiv(y, I, y.nl(a), y.nl(b)):
                    self.record(t, 'rem', {'a': t.nl(a), 'b': t.nl(b), 'r': r})
                    out.append((t, r))
            return out
        if 'pow' in self.key or 'gcd' in self.key:
            T['Int.operator%(Int) const'] = C.produce(mod)
            T['Int.operator%=(Int)'] = C.inplace(mod)

        def todouble(I, st, f, this, args, node):
            # zero exactly; otherwise only the sign is known
            out = []
            for s, (a,) in C.ints(I, st, [this], node):
                for k, c in ((0, c_eq(a)), (1, c_ge(a - 1)), (-1, c_ge(-a - 1))):
                    out += [(y, Fl(Term('fnz', k, fresh('real'))) if k else Fl(0.0)) for y in s.copy().assume(c) if not y.empty()]
            return out

        def three(s, a, b):
            return [(y, L(r)) for r, c in ((1, c_ge(a - b - 1)), (0, c_eq(a - b)), (-1, c_ge(b - a - 1))) for y in s.copy().assume(c) if not y.empty()]
        T['Int.operator<=>(Int) const'] = C.compare(three)
        if 'sqrt' in self.key:
            T['Int.operator/(Int) const'] = C.produce(div)
            T['Int.operator/=(Int)'] = C.inplace(div)
        for k in ('Int.operator*(Int) const',):
            T[k] = C.produce(mul)
        T['Int.operator*=(Int)'] = C.inplace(mul)
        T['Int.is_even() const'], T['Int.is_odd() const'] = parity(True), parity(False)
        if 'next_prime' in self.key:
            T['Int.is_prime() const'] = prime
        if 'lcm' in self.key:
            T['Int.gcd(Int,Int)'] = T['.gcd(Int,Int)'] = gcd
        I.contracts.update({fn[k]['fid']: h for k, h in T.items() if k in fn and fn[k]['fid'] != self.f['fid']})
        return I

    def sign(self, s, v):
        v = s.nl(v)
        if v.is_const():
            return (v.c > 0) - (v.c < 0)
        if s.entails_ge(v - 1):
            return 1
        if s.entails_ge(-v - 1):
            return -1
        return 0

    # ------------------------------------------------------------ the proof
    def prove(self):
        W = self.W
        st = State()
        N = []
        for i, sg in enumerate(self.signs):
            u = L(sym('xyz'[i]))
            if sg:
                if self.par is not None and i == self.spliton():
                    u = u.scale(2) + self.par
                    st.add_ge(u - 1)
                else:
                    st.add_ge(u - 1)
                W.facts(st, u)
            N.append(u.scale(sg))
        self.N = N
        self.roots = []
        if 'sqrt' in self.key and self.signs[0] > 0:
            S = L(sym('isqrt'))
            self.roots = [S]
            st.add_ge(S - 1)
            st.add_ge(N[0] - S)
        bad = []
        for peel in (0, 1):
            self.peel = peel
            I = self.interp()
            I.digit_domain = True
            I.budget = 10 ** 7
            I.loop_hook = self.hook
            s0 = st.copy()
            addr, args = self.setup(s0, [W.mk(s, v.scale(s)) for s, v in zip(self.signs, N)])
            self.pre, self.passed = [], args
            try:
                outs = I.run(s0, self.f['fid'], addr, args)
            except Giveup as e:
                bad = [('not analysable: %s' % e, None)]
                if os.environ.get('VT_NUM'):
                    print('   peel', peel, e)
                continue
            failed = []
            n = k = 0
            for o in outs:
                if not D.refine(o.st) or o.st.empty():
                    continue
                k += 1
                w = self.conclude(o)
                if w is None:
                    n += 1
                else:
                    failed.append((w, o))
            if not k:
                failed.append(('no feasible outcome', None))
            self.res.outcomes = self.res.obligations = k
            self.res.discharged = n
            if not failed:
                return []
            bad = failed
            if os.environ.get('VT_NUM'):
                for w, o in failed[:3]:
                    print('   peel', peel, w, [(v.cls, v.f) for r, v in o.st.store.items() if r[0] == '#'][:8] if o else '', o.st.cons[:12])
        return bad

    def spliton(self):
        return 1 if 'pow' in self.key else 0

    def conclude(self, o):
        M, s = self.M, o.st
        if o.kind == 'ub':
            return 'undefined behaviour: %s at line %s' % (o.val, o.line)
        dom = self.domain(s)
        if o.kind == 'throw':
            return None if dom is False else 'raises %s' % (o.val,)
        if dom is not True:
            return 'returns although the argument may be outside the domain'
        v = o.val
        if M.kind == 'cond':
            return self.goal(s, v)
        if isinstance(v, Addr):
            v = s.store[v.root]
        if not isinstance(v, Struct):
            return 'no integer is returned'
        try:
            cases = self.W.number(s, v)
        except NotCanonical as e:
            return 'the result is not canonical: %s' % e
        for y, n in cases:
            ts = set()
            subterms(n, ts)
            known_digits(y, ts)
            w = self.goal(y, y.nl(n))
            if w:
                return w
        return None

    def domain(self, s):
        k, N = self.key, [s.nl(x) for x in self.N]
        if 'factorial' in k or 'sqrt' in k:
            return self.signs[0] >= 0
        if 'log' in k:
            if self.signs[0] <= 0 or self.signs[1] <= 0:
                return False
            return True if s.entails_ge(N[1] - 2) else False if s.entails_ge(L(1) - N[1]) else None
        if 'pow' in k:
            return not (self.signs[0] == 0 and self.signs[1] < 0)
        return True

    def facts(self, s, name):
        return [v.f for r, v in s.store.items() if r.startswith('#fact') and isinstance(v, Struct) and v.cls == 'vt::' + name]

    def eq(self, s, l):
        l = D.normal(s, L(l))
        return l == ZERO or s.entails_eq(l)

    def goal(self, s, v):
        return getattr(self, 'goal_' + re.sub(r'.*\.(\w+)\(.*', r'\1', self.key))(s, v)

    def constant(self, s, v, f):
        """the operands have finitely many values here, all with the same result"""
        if not v.is_const():
            return False
        rg = [D.interval(s, x) for x in self.N]
        if any(lo is None or hi is None or hi - lo > 50 for lo, hi in rg):
            return False
        import itertools
        return all(f(*p) == v.c for p in itertools.product(*[range(lo, hi + 1) for lo, hi in rg]))

    def goal_factorial(self, s, v):
        N = self.N[0]
        if self.constant(s, v, math.factorial):
            return None
        for f in self.facts(s, 'fact'):
            r, i, r0, i0 = [f[k] for k in ('r', 'i', 'r0', 'i0')]
            if not self.eq(s, v - r):
                continue
            if f['kind'] == ZERO:
                done = self.eq(s, i) or self.eq(s, i - 1)
                if done and (self.eq(s, r0 - 1) and self.eq(s, i0 - N) or self.eq(s, r0 - N) and self.eq(s, i0 - N + 1) and s.entails_ge(N - 1)):
                    return None
            else:
                c = s.nl(i0 - f['kind'].c + 1)      # r0 must be c!
                if c.is_const() and 0 <= c.c <= 20 and self.eq(s, r0 - math.factorial(c.c)) and self.eq(s, i - f['kind'].c + 1 - N):
                    return None
        return 'the result is not related to the factorial: %r' % (v,)

    def goal_gcd(self, s, v):
        a, b = self.N
        for x, y in ((a, b), (b, a)):
            if self.eq(s, x) and self.eq(s, v - y.scale(self.sgn(y))):
                return None
        for f in self.facts(s, 'gcd'):
            if not any(self.eq(s, f['a0'] - x.scale(i)) and self.eq(s, f['b0'] - y.scale(j)) for x, y in ((a, b), (b, a)) for i in (1, -1) for j in (1, -1)):
                continue
            for p, q in ((f['a'], f['b']), (f['b'], f['a'])):
                if self.eq(s, q) and (self.eq(s, v - p) and s.entails_ge(v) or self.eq(s, v + p) and s.entails_ge(v)):
                    return None
        return 'the result is not related to the greatest common divisor: %r' % (v,)

    def sgn(self, x):
        return next((sg if sg else 1 for sg, n in zip(self.signs, self.N) if n == x), 1)

    def goal_lcm(self, s, v):
        a, b = self.N
        if not all(self.signs):
            return None if self.eq(s, v) else 'the least common multiple with zero is %r' % (v,)
        g = s.store.get('#gcd')
        p = s.nl(a * b).scale(self.signs[0] * self.signs[1])
        for x, y in ((a, b), (b, a)):
            x1, y1 = x.scale(self.sgn(x)), y.scale(self.sgn(y))
            if g is None or not (all(any(self.eq(s, n - g.f[k].scale(sg)) for sg in (1, -1)) for k, n in (('a', x), ('b', y)))):
                continue
            if v in (s.nl(t_fdiv(p, g.f['g'])), s.nl(t_fdiv(x1, g.f['g']) * y1), s.nl(t_fdiv(y1, g.f['g']) * x1)) or any(self.eq(s, v - w) for w in (t_fdiv(p, g.f['g']), t_fdiv(x1, g.f['g']) * y1, t_fdiv(y1, g.f['g']) * x1)):
                return None
        return 'the result is not related to the least common multiple: %r' % (v,)

    def goal_pow(self, s, v):
        b, e, m = self.N
        sb, se, sm = self.signs
        one = self.eq(s, b - 1) or self.eq(s, b + 1)

        def fits(w):
            """v is the remainder of the number w (of known sign)"""
            if not sm:
                return self.eq(s, v - w)
            M1 = m.scale(sm)
            if self.eq(s, v - w) and s.entails_ge(M1 - 1 - v) and s.entails_ge(M1 - 1 + v):
                return True
            if not self.congruent(s, v, w, M1):
                return False
            if not (s.entails_ge(D.normal(s, M1 - 1 - v)) and s.entails_ge(D.normal(s, M1 - 1 + v))):
                return False
            sw = self.sign(s, w)
            return sw > 0 and s.entails_ge(D.normal(s, v)) or sw < 0 and s.entails_ge(D.normal(s, -v))
        if one:
            return None if fits(L(-1 if sb < 0 and self.par else 1)) else 'a power of %d is %r' % (sb, v)
        if se < 0:
            return None if self.eq(s, v) else 'a negative power is %r' % (v,)
        if se == 0:
            return None if fits(ONE) else 'the power of zero is %r' % (v,)
        if sb == 0 and self.eq(s, v):
            return None
        for f in self.facts(s, 'pow'):
            if not (self.eq(s, f['n']) and self.eq(s, f['r0'] - 1) and self.eq(s, f['b0'] - b) and self.eq(s, f['n0'] - e)):
                continue
            r = f['r']
            if not sm:
                if self.eq(s, v - r):
                    return None
                continue
            M1 = m.scale(sm)
            if not self.congruent(s, v, r, M1):
                continue
            neg = sb < 0 and self.par == 1
            w = D.normal(s, -v if neg else v)
            if s.entails_ge(w) and s.entails_ge(D.normal(s, M1 - 1 - w)):
                return None
        return 'the result is not related to the power: %r' % (v,)

    def goal_log(self, s, v):
        x, b = self.N
        if self.eq(s, b - 10) and self.eq(s, v - D.ndig(x) + 1):
            return None
        if self.eq(s, v) and s.entails_ge(b - x - 1):
            return None
        for f in self.facts(s, 'log'):
            k, q, c = f['k'], f['q'], f['c'].c
            # q = floor(x / b^(k+c))
            if not (self.eq(s, f['x'] - x) and self.eq(s, f['b'] - b)):
                continue
            d = s.nl(v - k)
            if not d.is_const():
                continue
            j = d.c - c       # v = k + c + j
            if j == 0 and s.entails_ge(q - 1) and s.entails_ge(b - 1 - q):
                return None
            if j == -1 and self.eq(s, q) and f['prev'] == ONE:
                return None
        for f in self.facts(s, 'powers'):
            p, k, c = f['p'], f['k'], f['c'].c      # p = b^(k+c)
            if not self.eq(s, f['b'] - b):
                continue
            d = s.nl(v - k)
            if not d.is_const():
                continue
            j = d.c - c
            if j == -1 and s.entails_ge(p - x - 1) and f['prev'] == ONE:
                return None
            if j == 0 and s.entails_ge(x - p) and s.entails_ge(s.nl(p * b) - x - 1):
                return None
        return 'the result is not related to the logarithm: %r' % (v,)

    def goal_sqrt(self, s, v):
        if self.constant(s, v, math.isqrt):
            return None
        if not self.signs[0]:
            return None if self.eq(s, v) else 'the root of zero is %r' % (v,)
        for S in [t for t in self.roots]:
            y = s.copy()
            self.newton(y)
            if self.eq(y, v - S):
                return None
        return 'the result is not related to the root: %r' % (v,)

    def goal_is_prime(self, s, v):
        n = self.N[0]
        if is_cond(v) or isinstance(v, Lin):
            d = s.decide(v) if is_cond(v) else None
            if d is None:
                return 'the answer is not decided: %r' % (v,)
            v = d
        rg = D.interval(s, n)
        if rg[1] is not None and rg[0] is not None and rg[1] - rg[0] < 60:
            return None if all(isprime(k) == v for k in range(rg[0], rg[1] + 1)) else 'the answer for %s..%s is %s' % (rg + (v,))
        if rg[1] is not None and rg[1] <= 1:
            return None if v is False else 'a number below 2 is prime'
        if v is False:
            for f in self.facts(s, 'div'):
                i = f['i']
                if s.entails_ge(i - 2) and (self.eq(s, n - s.nl(i * t_fdiv(n, i))) or self.eq(s, t_fmod(n, i))):
                    if s.entails_ge(n - s.nl(i * i)) or s.entails_ge(n - i - 1):
                        return None
            return 'a number is called composite without a divisor'
        if not s.entails_ge(n - 2):
            return 'a number that may be below 2 is called prime'
        for f in self.facts(s, 'div'):
            if f['ok'] == ONE and s.entails_ge(s.nl(f['i'] * f['i']) - n - 1):
                return None
        return 'a number is called prime without trying all divisors'

    def goal_next_prime(self, s, v):
        n = self.N[0]
        if self.eq(s, v - 2) and s.entails_ge(L(1) - n):
            return None
        if self.constant(s, v, nextprime):
            return None
        if not s.entails_ge(v - n - 1):
            return 'the result may not exceed the number: %r' % (v,)
        if not any(isinstance(p, Struct) and p.cls == 'vt::prime' and p.f['is'] == ONE and self.eq(s, p.f['n'] - v) for p in s.store.values()):
            return 'the result is not known to be prime: %r' % (v,)
        for f in self.facts(s, 'noprime'):
            if self.skips(s, f['p'], v):
                return None
        return 'a prime may be skipped before %r' % (v,)

    def skips(self, s, p, q):
        """no prime above n lies strictly between p and q"""
        n = self.N[0]
        d = s.nl(q - p)
        if not d.is_const() or not 1 <= d.c <= 12:
            return False
        for j in range(1, d.c):
            m = s.nl(p + j)
            if s.entails_ge(n - m):
                continue
            y = s.copy()
            y.add_ge(m - n - 1)
            D.tight(y)
            if y.empty():
                continue
            if all(k % 2 == 0 for _, k in m.t) and m.c % 2 == 0:
                y.add_ge(L(2) - m)
                if not D.tight(y) or y.empty():
                    continue
            return False
        return True

    # ------------------------------------------------------------ loops
    def hook(self, I, st, node, step, cond, inc, body, do):
        if do:
            return None
        mods, _ = bignum.changes(I, st, step, 1)
        try:
            self.locations(I, st, mods)
        except NoFact as e:
            return None         # digits of one number: the loops of the constructors
        out = []
        work = [(st, None)]
        for _ in range(self.peel):
            nw = []
            for s, _h in work:
                self.note(I, s, step)
                for s2, k, v in step(s.copy()):
                    if k == 'n':
                        if D.tight(s2):
                            nw.append((s2, st))
                    else:
                        out.append((s2, 'n' if k in ('b', 'x') else k, v))
            work = nw
        for s, o in work:
            out += self.induct(I, s, o, step, node)
        return out

    def note(self, I, s, step):
        """the facts of the notion hold before the first iteration"""
        mods, _ = bignum.changes(I, s, step, 1)
        if not mods:
            return
        nums, lins = self.locations(I, s, mods)
        v0 = [s.nl(n.v0) for n in nums] + [s.nl(lc.v0) for lc in lins]
        for f in self.theory(s, v0, len(nums)):
            self.attach(s, f, v0)

    def induct(self, I, s0, origin, step, node):
        mods, pairs = bignum.changes(I, s0, step)
        if not mods:
            out = []
            if origin is not None:
                s0 = s0.copy()
                nums, lins = self.locations(I, s0, {m for m in loops.entry_diff(origin, s0) if m[0] in origin.store and m[0][0] != '#'})
                locs = nums + lins
                try:
                    old, new = [self.value(I, origin, lc) for lc in locs], [self.value(I, s0, lc) for lc in locs]
                    for f in self.theory(origin, old, len(nums)):
                        if self.kept(origin, s0, f, f.pick(old), f.pick(new)):
                            self.attach(s0, f, new)
                except Giveup:
                    pass
            for s2, k, v in step(s0.copy()):
                if k == 'n':
                    if D.tight(s2):
                        raise NoFact('loop without a change')
                else:
                    out.append((s2, 'n' if k in ('b', 'x') else k, v))
            return out
        if origin is not None:
            mods = set(mods) | {m for m in loops.entry_diff(origin, s0) if m[0] in origin.store and m[0][0] != '#'}
        nums, lins = self.locations(I, s0, mods)
        locs = list(nums) + list(lins)
        v0 = [n.v0 for n in nums] + [lc.v0 for lc in lins]
        put0 = [s0.nl(v) for v in v0]
        hs = [L(fresh('h')) for _ in locs]
        par = [None] * len(locs)
        for i, v in enumerate(put0):
            v = s0.nl(v)
            if all(k % 2 == 0 for _, k in v.t) and self.wants_parity():
                par[i] = v.c % 2
        # candidates
        cands = []
        for i, v in enumerate(put0):
            for c in (3, 2, 1, 0, -1):
                if s0.entails_ge(v - c):
                    cands.append(('ge', i, L(c)))
                    # weaker bounds are tried when this one is not inductive
            for c in (-1, 0):
                if s0.entails_ge(L(c) - v):
                    cands.append(('le', i, L(c)))
            if not v.is_const():
                cands += [('ge', i, v), ('le', i, v)]
            for w in self.N:
                if w != v and not w.is_const():
                    for d in (0, 1):
                        if s0.entails_ge(v - w + d):
                            cands.append(('ge', i, w - d))
                            break
        cands += self.newton_cands(s0, locs, put0)
        oldvals = None
        if origin is not None:
            oldvals = []
            for lc in locs:
                try:
                    oldvals.append(self.value(I, origin, lc))
                except Giveup:
                    oldvals.append(None)
        if self.roots and not any(c[0] == 'newton' for c in cands):
            if os.environ.get('VT_NUM'): print('   none:', put0, [s0.entails_ge(w - 1) for w in put0], {r: v.f for r, v in s0.store.items() if r[0] == '#'}, s0.nl(self.N[0]), self.newton_of(s0.copy(), put0[1]))
            raise NoFact("no Newton step")
        facts = []
        base = oldvals if oldvals is not None else put0
        for f in self.theory(s0, base, len(nums)):
            if oldvals is not None:
                if any(v is None for v in f.pick(oldvals)):
                    continue
                if not self.kept(origin, s0, f, f.pick(oldvals), f.pick(put0)):
                    continue
            facts.append(f)
        if not facts and self.newton_needed() is False:
            raise NoFact('no fact of the notion holds at the loop%s' % (' %r %r' % (put0, [s0.nl(w) for w in self.N]) if os.environ.get('VT_NUM') else ''))
        defs = {}
        for _ in range(40):
            gens = self.generalise(I, s0, locs, hs, par, cands, defs, len(nums))
            drop = False
            ends = []
            with loops.Capture(I):
                for g, vals in gens:
                    for s2, k, v in step(g.copy()):
                        if k == 'n' and D.tight(s2):
                            try:
                                ends.append((g, vals, s2, [s2.nl(self.value(I, s2, lc)) for lc in locs]))
                            except Giveup as e:
                                raise NoFact('the loop leaves no number: %s' % e)
            for g, vals, s2, new in ends:
                y = s2
                self.newton(y)
                for i, b in enumerate(par):
                    if b is not None and not (all(k % 2 == 0 for _, k in new[i].t) and new[i].c % 2 == b):
                        par[i] = None
                        drop = True
                for c in list(cands):
                    if not self.holds(y, c, new):
                        cands.remove(c)
                        drop = True
            for g, vals, y, new in [] if drop else ends:
                for f in list(facts):
                    if f.name == 'log' and f.prev and not y.entails_ge(f.pick(vals)[0] - 1):
                        f.prev = False
                        drop = True
                    if f.name == 'powers' and f.prev and not y.entails_ge(self.N[0] - f.pick(vals)[0]):
                        f.prev = False
                        drop = True
                    if not self.kept(g, y, f, f.pick(vals), f.pick(new)):
                        if os.environ.get('VT_NUM'): print('   lost', f.name, f.roles, f.pick(vals), f.pick(new))
                        facts.remove(f)
                        drop = True
                        if not facts:
                            raise NoFact('no fact of the notion is kept by the loop')
            if not drop:
                break
        else:
            raise NoFact('no inductive facts')
        if self.termination and ends and not self.ranked(ends):
            self.unranked.append('the loop at line %s: no measure that every iteration decreases was found' % node.get('l'))
        out = []
        with loops.Capture(I) as cap:
            for g, vals in gens:
                for f in facts:
                    self.attach(g, f, vals)
                for s2, k, v in step(g):
                    if k != 'n':
                        out.append((s2, 'n' if k in ('b', 'x') else k, v))
            cap.commit()
        if os.environ.get('VT_NUM'):
            print('  loop', self.name, 'cands', cands, 'par', par, 'facts', [(f.name, f.roles) for f in facts], 'exits', len(out))
        return out

    def ranked(self, ends):
        """a modified number comes strictly closer to a bound with each iteration"""
        for i in range(len(ends[0][1])):
            if all(s.entails_ge(s.nl(v[i] - w[i] - 1)) and s.entails_ge(s.nl(w[i] + 1)) for g, v, s, w in ends):
                return True
            if all(s.entails_ge(s.nl(w[i] - v[i] - 1)) and self.bounded(s, v[i]) for g, v, s, w in ends):
                return True
        # the search for a prime ends because there are infinitely many
        return 'next_prime' in self.key and any(all(s.entails_ge(s.nl(w[i] - v[i] - 1)) for g, v, s, w in ends) for i in range(len(ends[0][1])))

    def bounded(self, s, v):
        y = s.copy()
        sq = y.nl(v * v)
        if s.entails_ge(v):
            y.add_ge(sq - v)
        return any(y.entails_ge(y.nl(w.scale(k) - v)) for w in self.N for k in (1, -1))

    def locations(self, I, s0, mods):
        nums, lins, seen = [], [], set()
        for r, p in sorted(mods, key=repr):
            o = bignum.owner(I.world, s0, r, p)
            if o is None:
                v = loops.get_path(s0.store[r], p)
                if not isinstance(v, Lin):
                    raise NoFact('the loop changes more than numbers')
                lins.append(loops.Loc(r, p, v))
            elif (r, o) not in seen:
                seen.add((r, o))
                v = loops.get_path(s0.store[r], o)
                try:
                    x = I.world.number(s0.copy(), v)
                except Giveup as e:
                    raise NoFact('the loop changes what is no number at its start (%s)' % e)
                if len(x) != 1:
                    raise NoFact('sign of a number at the start of the loop')
                nums.append(bignum.Num(loops.Loc(r, o, v), x[0][1]))
        return nums, lins

    def value(self, I, s, lc):
        if isinstance(lc, bignum.Num):
            return bignum.number_of(I, s, lc.lc)
        return lc.get(s)

    def generalise(self, I, s0, locs, hs, par, cands, defs, nn):
        vals = []
        for i, h in enumerate(hs):
            vals.append(h.scale(2) + par[i] if par[i] is not None else h)
        g = s0.copy()
        dep = {c[1] for c in cands if c[0] == 'newton'}
        for now in (False, True):
            for c in cands:
                if now and c[0] == 'newton':
                    vals[c[1]] = self.newton_of(g, vals[c[2]])
            for c in cands:
                if (c[1] in dep) == now:
                    if c[0] == 'ge':
                        g.add_ge(vals[c[1]] - c[2])
                    elif c[0] == 'le':
                        g.add_ge(c[2] - vals[c[1]])
            if not now and not D.tight(g):
                return []
        if not D.tight(g):
            return []
        for i, lc in enumerate(locs[nn:]):
            lc.put(g, vals[nn + i])
            rg = loops.loc_range(I, lc, g)
            if rg:
                g.add_ge(vals[nn + i] - rg[0])
                g.add_ge(L(rg[1]) - vals[nn + i])
        out = []
        for y in bignum.put_numbers(I, g, [(n, v) for n, v in zip(locs[:nn], vals)]):
            out.append((y, [y.nl(v) for v in vals]))
        return out

    def holds(self, s, c, new):
        if c[0] == 'ge':
            return s.entails_ge(D.normal(s, new[c[1]] - c[2]))
        if c[0] == 'le':
            return s.entails_ge(D.normal(s, c[2] - new[c[1]]))
        if c[0] == 'newton':
            y = s.copy()
            w = self.newton_of(y, new[c[2]])
            return self.eq(y, new[c[1]] - w)
        return False

    def wants_parity(self):
        return 'next_prime' in self.key

    # ------------------------------------------------------------ roots
    def newton_needed(self):
        return 'sqrt' in self.key

    def newton_of(self, s, c):
        """(c + x/c)/2 with the facts about it"""
        x = self.N[0]
        if not s.entails_ge(c - 1):
            raise NoFact('a divisor that may be zero')
        q = s.nl(t_fdiv(x, c))
        r = x - q * c
        s.add_ge(q)
        s.add_ge(r)
        s.add_ge(c - 1 - r)
        n = t_fdiv(s.nl(c + q), L(2))
        s.add_ge(c + q - n.scale(2))
        s.add_ge(n.scale(2) + 1 - c - q)
        n = s.nl(n)
        self.record(s, 'newton', {'c': c, 'n': n})
        self.newton(s)
        return n

    def newton_cands(self, s0, locs, put0):
        if not self.newton_needed() or not self.signs[0]:
            return []
        x = self.N[0]
        S = self.roots[0]
        y = s0.copy()
        self.newton(y)
        out = []
        for i, v in enumerate(put0):
            if y.entails_ge(v - S):
                out.append(('ge', i, S))
        for i, v in enumerate(put0):
            for j, w in enumerate(put0):
                if i != j:
                    z = s0.copy()
                    try:
                        if s0.entails_ge(w - 1) and self.eq(z, v - self.newton_of(z, w)):
                            out.append(('newton', i, j))
                            return out
                    except (Giveup, ValueError):
                        pass
        return out

    def newton(self, s, more=()):
        """what is known of  n = (c + x/c)/2 :  n >= isqrt(x) for c >= 1;  n >= c implies c <= isqrt(x)"""
        if not self.roots:
            return
        S = self.roots[0]
        for r, v in list(s.store.items()):
            if r.startswith('#newton'):
                c, n = s.nl(v.f['c']), s.nl(v.f['n'])
                s.add_ge(n - S)
                if s.entails_ge(n - c):
                    s.add_ge(S - c)
        D.tight(s)

    def divided(self, s, a, b, q):
        """a division was done: a quotient of x, or the second half of Newton's step"""
        if not self.roots:
            return
        if self.eq(s, a - self.N[0]) and s.entails_ge(b - 1):
            self.record(s, 'quot', {'c': b, 'q': q})
        elif b.is_const() and b.c == 2:
            for r, v in list(s.store.items()):
                if r.startswith('#quot') and self.eq(s, a - v.f['c'] - v.f['q']):
                    self.record(s, 'newton', {'c': v.f['c'], 'n': q})
                    self.newton(s)

    def record(self, s, name, d):
        for r, v in s.store.items():
            if r.startswith('#' + name) and v.f == d:
                return
        s.store['#%s%d' % (name, s.nroot)] = Struct('vt::' + name, d)
        s.nroot += 1

    # ------------------------------------------------------------ the notions
    def theory(self, s, v0, nn):
        import itertools
        k = self.key
        n = len(v0)
        if 'factorial' in k:
            return [Fact(nm, (i, j), None and 0) for i, j in itertools.permutations(range(n), 2) for nm in ('fact0', 'fact1', 'fact2')] if self.keep0(v0) else []
        if 'gcd' in k:
            return [Fact('gcd', (i, j), None) for i, j in itertools.combinations(range(n), 2)] if self.keep0(v0) else []
        if 'pow' in k:
            self.keep0(v0)
            fs = [Fact('pow', p, None) for p in itertools.permutations(range(n), 3)] + [Fact('pow', (i, self.N[0], j), None) for i, j in itertools.permutations(range(n), 2)]
            return [f for f in fs if all(v is not None and self.eq(s, v - w) for v, w in zip(f.pick(v0), (ONE, self.N[0], self.N[1])))]
        if 'log' in k:
            self.keep0(v0)
            out = []
            for i, j in itertools.permutations(range(n), 2):
                x, b = [s.nl(w) for w in self.N]
                if s.nl(v0[j]).is_const():
                    for c, w in ((0, x), (1, t_fdiv(x, b))):
                        if v0[i] is not None and self.eq(s, v0[i] - w):
                            out.append(self.since(Fact('log', (i, j), c - v0[j].c), c == 1 and s.entails_ge(x - 1)))
                    for c, w in ((0, ONE), (1, b)):
                        if v0[i] is not None and self.eq(s, v0[i] - w):
                            out.append(self.since(Fact('powers', (i, j), c - v0[j].c), c == 1 and s.entails_ge(x - 1)))
            return out
        if 'is_prime' in k:
            self.keep0(v0)
            return [Fact('div', (i,), None) for i in range(n) if v0[i] is not None and self.eq(s, v0[i] - 2)]
        if 'next_prime' in k:
            self.keep0(v0)
            N = self.N[0]
            return [Fact('noprime', (i,), None) for i in range(n) if v0[i] is not None and (self.eq(s, v0[i] - N) or s.entails_ge(N - v0[i]) and s.entails_ge(v0[i] - N + 1))]
        return []

    def since(self, f, prev):
        f.prev = prev
        return f

    def keep0(self, v0):
        self.v0 = v0
        return True

    def kept(self, s0, s, f, old, new):
        """one iteration keeps the fact"""
        if f.name.startswith('fact'):
            (r, i), (r2, i2) = old, new
            if f.name == 'fact0':
                return self.eq(s, i2 - i + 1) and s.entails_ge(i - 1) and self.eq(s, r2 - s.nl(r * i))
            if not (self.eq(s, i2 - i - 1) and s.entails_ge(i)):
                return False
            return self.eq(s, r2 - s.nl(r * (i if f.name == 'fact2' else i2)))
        if f.name == 'gcd':
            (a, b), (a2, b2) = old, new
            for p, q in ((a2, b2), (b2, a2)):
                for x, y in ((a, b), (b, a)):
                    # p = +-y, q = +-x modulo y
                    if any(self.eq(s, p - y.scale(i)) for i in (1, -1)):
                        for j in (1, -1):
                            if self.congruent(s, q, x.scale(j), y):
                                return True
            return False
        if f.name == 'pow':
            (r, b, n), (r2, b2, n2) = old, new
            m = self.N[2]
            same = lambda x, y: self.eq(s, x - y) or self.signs[2] != 0 and self.congruent(s, x, y, m)
            if not s.entails_ge(n - 1):
                return False
            for e in (0, 1):
                if self.eq(s, n - n2.scale(2) - e):
                    if same(b2, s.nl(b * b)) and same(r2, s.nl(r * b) if e else r):
                        return True
            return self.eq(s, n2 - n + 1) and same(b2, b) and same(r2, s.nl(r * b))
        if f.name == 'log':
            (q, k), (q2, k2) = old, new
            b = self.N[1]
            return self.eq(s, k2 - k - 1) and self.eq(s, q2 - t_fdiv(q, s.nl(b)))
        if f.name == 'powers':
            (p, k), (p2, k2) = old, new
            return self.eq(s, k2 - k - 1) and self.eq(s, p2 - s.nl(p * self.N[1]))
        if f.name == 'div':
            (i,), (i2,) = old, new
            n = self.N[0]
            return self.eq(s, i2 - i - 1) and s.entails_ge(i - 2) and s.entails_ge(D.normal(s, n - s.nl(i * t_fdiv(n, i))) - 1)
        if f.name == 'noprime':
            (p,), (p2,) = old, new
            if not any(isinstance(x, Struct) and x.cls == 'vt::prime' and x.f['is'] == ZERO and self.eq(s, x.f['n'] - p2) for x in s.store.values()):
                return False
            return self.skips(s, p, p2)
        return False

    def congruent(self, s, x, y, m):
        """x = y modulo m"""
        d = D.normal(s, x - y)
        if d == ZERO or self.eq(s, d):
            return True
        if self.multiple(s, d, m):
            return True
        todo, seen = [x], []
        recs = [v.f for r, v in s.store.items() if r.startswith('#rem') and any(self.eq(s, v.f['b'] - m.scale(i)) for i in (1, -1))]
        while todo and len(seen) < 12:
            w = todo.pop()
            if self.eq(s, w - y):
                return True
            seen.append(w)
            for f in recs:
                for p, q in ((f['r'], f['a']), (f['a'], f['r'])):
                    if self.eq(s, w - p) and not any(z == q for z in seen + todo):
                        todo.append(q)
        return False

    def multiple(self, s, d, y):
        y = D.normal(s, y)
        if len(y.t) == 1 and y.t[0][1] == -1:
            y = -y
        return bignum.divisible(d, y)

    def attach(self, g, f, vals):
        v = f.pick(vals)
        z = f.pick(self.v0)
        if f.name.startswith('fact'):
            d = {'r': v[0], 'i': v[1], 'r0': z[0], 'i0': z[1], 'kind': L({'fact0': 0, 'fact1': 1, 'fact2': 2}[f.name])}
            nm = 'fact'
        elif f.name == 'gcd':
            d = {'a': v[0], 'b': v[1], 'a0': z[0], 'b0': z[1]}
            nm = 'gcd'
        elif f.name == 'pow':
            d = {'r': v[0], 'b': v[1], 'n': v[2], 'r0': z[0], 'b0': z[1], 'n0': z[2]}
            nm = 'pow'
        elif f.name == 'log':
            # whether floor(x / b^(k+c-1)) >= 1: at the start x >= 1 with one division done, later the value before the iteration was not 0
            d = {'q': v[0], 'k': v[1], 'c': L(f.first), 'x': self.N[0], 'b': self.N[1], 'prev': ONE if f.prev else ZERO}
            nm = 'log'
        elif f.name == 'powers':
            d = {'p': v[0], 'k': v[1], 'c': L(f.first), 'b': self.N[1], 'prev': ONE if f.prev else ZERO}
            nm = 'powers'
        elif f.name == 'div':
            d = {'i': v[0], 'ok': ONE}
            nm = 'div'
        else:
            d = {'p': v[0]}
            nm = 'noprime'
        g.store['#fact%d' % g.nroot] = Struct('vt::' + nm, d)
        g.nroot += 1

    # ------------------------------------------------------------ constants
    def at(self, p):
        I = self.interp()
        I.digit_domain = True
        I.loop_hook = self.constant_loop
        I.budget = 10 ** 7
        st = State()
        addr, args = self.setup(st, [self.W.lit(x) for x in p])
        try:
            outs = [o for o in I.run(st, self.f['fid'], addr, args) if not o.st.empty()]
        except Giveup:
            raise Nothing()
        except loops.Lasso as e:
            return ('lasso', e.line, None)
        except Endless:
            if max(map(abs, p)) > 64:
                raise Nothing()
            return ('endless', None, None)
        if len(outs) != 1 or outs[0].st.taint:
            raise Nothing()
        o = outs[0]
        if o.kind != 'ret':
            now = [self.cells(o.st, o.st.store[a.root]) for a in ([addr] if addr is not None else []) + list(args) if isinstance(a, Addr)] if o.kind == 'throw' else []
            return (o.kind, o.val, (o.line, now))
        if self.M.kind == 'cond':
            return ('scalar', self.const(o.st, o.val), None)
        return ('int', self.cells(o.st, self.produced(o, addr)), ([], None))

    def constant_loop(self, I, st, node, step, cond, inc, body, do):
        first = True
        mark = None
        for _ in range(3000):
            # a state that was met before is met for ever
            k = loops.state_key(st)
            if k == mark:
                raise loops.Lasso(st, node.get('l'))
            if _ & (_ - 1) == 0:
                mark = k
            r = [(s, k, v) for s, k, v in (step(st, first) if do else step(st)) if not s.empty()]
            first = False
            if len(r) != 1:
                return None if _ == 0 else I.giveup('constant loop', node)
            s, k, v = r[0]
            if k != 'n':
                return [(s, 'n' if k in ('b', 'x') else k, v)]
            st = s
        raise Endless()

    def judge(self, p, got):
        if got[0] == 'endless':
            return ('C18', 'C30'), 'no result after 3000 iterations of a loop'
        w = IntOp.judge(self, p, got)
        more = ('C12',) if 'pow' in self.key and p[2] and got[0] not in ('ub', 'throw') else ()
        return w and (tuple(dict.fromkeys(tuple(w[0]) + more + ('C30',))), w[1])

    def points(self):
        import itertools
        lits = sorted(c for c in literals(self.W.P, self.f) if 3 <= c <= 10 ** 6)
        near = [c + d for c in lits for d in (-1, 0, 1)]
        k = self.key
        if len(self.signs) == 1:
            ns = list(range(0, 60)) + near
            if 'factorial' in k:
                ns += [100]
            elif 'prime' in k:
                ns += [n * n for n in (7, 11, 13, 17, 19, 23, 29, 31)] + [p for p in range(60, 140)] + [997 * 991, 1009 * 1009, 10 ** 4 + 7, 9973]
            else:
                ns += [d for n in range(8, 40) for d in (n * n - 1, n * n, n * n + 1)] + [10 ** e + d for e in range(2, 24) for d in (-1, 0, 1)] + [10 ** e * c + d for e in (3, 4, 7, 8, 15, 16, 21, 22) for c in (2, 25, 49, 81, 99) for d in (-1, 0, 1)]
            if 'sqrt' in k:
                ns += [n * n + d for n in (57, 99, 100, 101, 316, 999, 1024, 31623) for d in (-3, -2, 2, 3, n - 1, n, n + 1, 2 * n - 1, 2 * n)]
            if 'factorial' not in k:
                ns += list(range(60, 1500))
            pts = [(n,) for n in dict.fromkeys(ns)]
        elif len(self.signs) == 2:
            if 'log' in k:
                bs = list(dict.fromkeys([2, 3, 10, 7, 1, 4, 5, 9, 11, 16, 99, 100, 101, 10 ** 6] + near))
                pts = []
                for b in bs:
                    xs = [0, 1, 2, 3, b] + ([b ** e + d for e in range(1, 8) for d in (-1, 0, 1)] if b > 1 else [5, 9]) + [10 ** 12, 10 ** 20 + 7]
                    pts += [(x, b) for x in dict.fromkeys(xs)]
            else:
                ns = list(range(0, 13)) + [14, 15, 18, 21, 24, 30, 35, 36, 48, 60, 97, 100, 121, 144, 360, 1001, 10 ** 6, 2 ** 20, 3 ** 12, 10 ** 12, 10 ** 15 + 37, 6 ** 15] + near
                ns = list(dict.fromkeys(ns))
                pts = [(ns[i], ns[d - i]) for d in range(2 * len(ns) - 1) for i in range(max(0, d - len(ns) + 1), min(d, len(ns) - 1) + 1)]
        else:
            bs = [0, 1, 2, 3, 5, 7, 10, 11, 12, 99, 123456789]
            es = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 31]
            ms = [0, 1, 2, 3, 5, 7, 10, 12, 97, 1000, 10 ** 9 + 7] + near
            ms = list(dict.fromkeys(ms))
            pts = sorted(itertools.product(bs, es, ms), key=lambda p: bs.index(p[0]) + es.index(p[1]) + ms.index(p[2]))
        for t in pts:
            if any(n < 0 for n in t) or any((s == 0) != (n == 0) for s, n in zip(self.signs, t)):
                continue
            p = tuple(s * n for s, n in zip(self.signs, t))
            if self.par is not None and abs(p[self.spliton()]) % 2 != self.par:
                continue
            yield p


# ---------------------------------------------------------------- fractions

FR = 'pyincpp::Fraction'
UNIT = L(Term('sym', 'unit'))


class Units:
    """fractions as integer multiples of a common unit (the reciprocal of a common denominator); products are multiples of its square"""

    def __init__(self, P):
        self.P = P
        self.fn, self.all = {}, {}
        for fid, f in P.fns.items():
            k = key_of(P, f)
            self.all.setdefault(k, []).append(fid)
            if 'body' in f or f.get('defaulted') or k not in self.fn:
                self.fn.setdefault(k, dict(f, fid=fid))
        self.rec = [r for r in P.records.values() if r['name'] == FR][0]

    def mk(self, sign, u):
        return Struct(FR, {'numerator_': L(u).scale(sign) if sign else ZERO, 'denominator_': UNIT})

    def facts(self, st, u):
        pass

    def put(self, st, v):
        v = D.normal(st, v)
        if v.is_const():
            return [(st, self.mk(1, v))]
        return [(s, self.mk(1, s.nl(v))) for c in (c_ge(v - 1), c_eq(v), c_ge(-v - 1)) for s in st.copy().assume(c) if not s.empty() and D.tight(s)]

    def number(self, st, x):
        n, d = st.nl(x.f['numerator_']), st.nl(x.f['denominator_'])
        if d == UNIT or n == ZERO and d == ONE:
            return [(st, n)]
        raise NotCanonical('a fraction built from its parts')


class FracOp(NumOp):
    def run(self, A):
        t0 = time.time()
        res = Result()
        try:
            W = getattr(A, 'frac_world', None)
            if W is None:
                W = A.frac_world = Units(A.P)
        except Exception as e:
            res.undecided.append('no fraction class: %r' % (e,))
            return res
        if self.key not in W.fn:
            res.undecided.append('function not found in the current sources')
            return res
        self.unranked = []
        self.W, self.f, self.M, self.res = W, W.fn[self.key], FRAC[self.key], res
        try:
            with limit(60):
                failed = self.prove()
        except Slow:
            failed = [('time limit', None)]
        except (Giveup, RecursionError) as e:
            failed = [('not analysable: %s' % e, None)]
        except Exception as e:
            if os.environ.get('VT_CRASH'):
                raise
            failed = [('internal: %r' % (e,), None)]
        if failed:
            if res.obligations == res.discharged:
                res.obligations += 1
            hits = []
            try:
                with limit(60):
                    self.refute(hits)
            except (Slow, RecursionError, Giveup):
                pass
            for props, what, wit in hits:
                res.problems.append(Problem(props, what, self.key, loc_of(self.f), wit))
            res.undecided += [w for w, _ in failed[:3]]
        res.time = time.time() - t0
        return res

    def interp(self, contracts=True):
        W, fn = self.W, self.W.fn
        I = Interp(W.P, {})
        if not contracts:
            return I
        I.world = W
        C = self.C = Contracts(W)
        one = lambda g: lambda I, s, vs, node: [(s, s.nl(g(*vs)))]

        def mul(I, s, vs, node):
            a, b = vs
            p = s.nl(a * b)
            k = self.sign(s, a) * self.sign(s, b)
            if k:
                s.add_ge(p.scale(k) - 1)
            return [(s, p)]

        def absn(I, s, vs, node):
            return [(y, y.nl(vs[0].scale(k))) for k, c in ((1, c_ge(vs[0])), (-1, c_ge(-vs[0] - 1))) for y in s.copy().assume(c) if not y.empty()]

        def nonzero(I, s, b, node):
            z, nz = s.fork(c_eq(b))
            for y in z:
                if D.tight(y):
                    I.do_throw(y, Exc('std::runtime_error', 'Error: Divide by zero.'), node)
            return [y for y in nz if not y.empty()]

        def mod(I, s, vs, node):
            out = []
            for y in nonzero(I, s, vs[1], node):
                for t, q, r in tdiv(y, I, y.nl(vs[0]), y.nl(vs[1])):
                    self.record(t, 'rem', {'a': t.nl(vs[0]), 'b': t.nl(vs[1]), 'r': r})
                    out.append((t, r))
            return out

        def quo(I, s, vs, node):
            out = []
            for y in nonzero(I, s, vs[1], node):
                q = fresh('quot')
                y.store['#ratio%d' % y.nroot] = Struct('vt::ratio', {'a': vs[0], 'b': vs[1], 'q': L(q)})
                y.nroot += 1
                out.append((y, L(q)))
            return out

        def gcd(I, st, f, this, args, node):
            out = []
            for s, (a, b) in C.ints(I, st, args, node):
                g = fresh('gcd')
                s.add_ge(L(g) - (1 if self.sign(s, a) or self.sign(s, b) else 0))
                for y, x in W.put(s, L(g)):
                    y.store['#gcd'] = Struct('vt::gcd', {'a': s.nl(a), 'b': s.nl(b), 'g': L(g)})
                    out.append((y, x))
            return out

        def todouble(I, st, f, this, args, node):
            # zero exactly; otherwise only the sign is known
            out = []
            for s, (a,) in C.ints(I, st, [this], node):
                for k, c in ((0, c_eq(a)), (1, c_ge(a - 1)), (-1, c_ge(-a - 1))):
                    out += [(y, Fl(Term('fnz', k, fresh('real'))) if k else Fl(0.0)) for y in s.copy().assume(c) if not y.empty()]
            return out

        def three(s, a, b):
            return [(y, L(r)) for r, c in ((1, c_ge(a - b - 1)), (0, c_eq(a - b)), (-1, c_ge(b - a - 1))) for y in s.copy().assume(c) if not y.empty()]

        def same(s, a, b):
            return [(y, r) for r, c in ((True, c_eq(a - b)), (False, c_not(c_eq(a - b)))) for y in s.copy().assume(c) if not y.empty()]
        T = {'Fraction.abs() const': C.produce(absn), 'Fraction.operator-() const': C.produce(one(lambda a: -a)), 'Fraction.operator+() const': C.produce(one(lambda a: a)),
             'Fraction.operator==(Fraction) const': C.compare(same), 'Fraction.operator<=>(Fraction) const': C.compare(three)}
        for op, g in (('+', one(lambda a, b: a + b)), ('-', one(lambda a, b: a - b)), ('*', mul), ('/', quo), ('%', mod)):
            T['Fraction.operator%s(Fraction) const' % op] = C.produce(g)
            T['Fraction.operator%s=(Fraction)' % op] = C.inplace(g)
        T['Fraction.operator double() const'] = todouble
        if 'lcm' in self.key:
            T['Fraction.gcd(Fraction,Fraction)'] = T['.gcd(Fraction,Fraction)'] = gcd
        I.contracts.update({fid: h for k, h in T.items() for fid in W.all.get(k, ()) if fid != self.f['fid']})
        return I

    def goal_lcm(self, s, v):
        a, b = self.N
        if not all(self.signs):
            return None if self.eq(s, v) else 'the least common multiple with zero is %r' % (v,)
        g = s.store.get('#gcd')
        if g is None or not all(any(self.eq(s, n - g.f[k].scale(sg)) for sg in (1, -1)) for k, n in (('a', a), ('b', b))):
            return 'the result is not related to the greatest common divisor'
        p = s.nl(a * b).scale(self.signs[0] * self.signs[1])
        for r in s.store.values():
            if isinstance(r, Struct) and r.cls == 'vt::ratio' and self.eq(s, v - r.f['q']) and self.eq(s, r.f['a'] - p) and self.eq(s, r.f['b'] - g.f['g']):
                return None
        return 'the result is not the product divided by the greatest common divisor: %r' % (v,)

    # ------------------------------------------------------------ constants
    def at(self, p):
        I = Interp(self.W.P, {})
        I.loop_hook = self.constant_loop
        I.budget = 10 ** 7
        st = State()
        args = [st.alloc(Struct(FR, {'numerator_': L(x.numerator), 'denominator_': L(x.denominator)}), 'a') for x in p]
        try:
            outs = [o for o in I.run(st, self.f['fid'], None, args) if not o.st.empty()]
        except Giveup:
            raise Nothing()
        except loops.Lasso as e:
            return ('lasso', e.line, None)
        except Endless:
            return ('endless', None, None)
        if len(outs) != 1 or outs[0].st.taint:
            raise Nothing()
        o = outs[0]
        if o.kind != 'ret':
            return (o.kind, o.val, (o.line, []))
        v = o.st.store[o.val.root] if isinstance(o.val, Addr) else o.val
        if not isinstance(v, Struct) or v.cls != FR:
            raise Nothing()
        return ('fraction', (self.const(o.st, v.f['numerator_']), self.const(o.st, v.f['denominator_'])), None)

    def judge(self, p, got):
        kind, v, extra = got
        if kind == 'lasso':
            return ('C18', 'C30'), 'an iteration of the loop at line %s changes nothing: the call never returns' % v
        if kind == 'endless':
            return ('C18', 'C30'), 'no result after 3000 iterations of a loop'
        w = self.M.value(*p)
        big = max(abs(w.numerator), w.denominator) > 2 ** 31 - 1
        if kind == 'ub':
            return ub_props(v) + ('C30',), 'undefined behaviour: %s at line %s' % (v, extra[0])
        if kind == 'throw':
            return None if big or max(abs(x) for q in p for x in (q.numerator, q.denominator)) > 10 ** 4 else (('C30',), 'raises %s' % (v,))
        if v[1] <= 0 or math.gcd(*v) != 1:
            return ('C10', 'C30'), 'the result %d/%d is not in lowest terms' % v
        return None if v == (w.numerator, w.denominator) else (('C30',), 'is %d/%d, not %s' % (v + (w,)))

    def points(self):
        from fractions import Fraction as F
        xs = [F(0), F(1), F(2), F(1, 2), F(3), F(3, 2), F(4), F(1, 3), F(2, 3), F(5, 6), F(3, 4), F(6), F(9, 10), F(15, 4), F(12), F(7, 30), F(100, 7), F(35, 6)]
        for d in range(2 * len(xs) - 1):
            for i in range(max(0, d - len(xs) + 1), min(d, len(xs) - 1) + 1):
                t = (xs[i], xs[d - i])
                if not any((sg == 0) != (n == 0) for sg, n in zip(self.signs, t)):
                    yield tuple(n * sg for n, sg in zip(t, self.signs))


def fgcd(a, b):
    from fractions import Fraction as F
    return F(math.gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


FRAC = {
    'Fraction.gcd(Fraction,Fraction)': Meaning('value', fgcd, 'C30'),
    'Fraction.lcm(Fraction,Fraction)': Meaning('value', lambda a, b: abs(a * b) / fgcd(a, b) if a and b else a * 0, 'C30'),
}


class Query(IntOp):
    """a query the notions rely on, reported for them as well"""

    def run(self, A):
        r = IntOp.run(self, A)
        for p in r.problems:
            p.props = tuple(p.props) + ('C30',)
        return r


DOMAIN = ('factorial', 'sqrt', 'pow', 'log')


def components(prop):
    import itertools
    if prop == 'C12':
        return [o for o in components('C30') if o.key.startswith('Int.pow')]
    if prop == 'C11':
        return [o for o in components('C30') if o.key.startswith('Int.') and any(x in o.key for x in DOMAIN)]
    if prop == 'C07':
        return [o for o in components('C30') if type(o) is NumOp]
    if prop == 'C18':
        out = [o for o in components('C30') if isinstance(o, NumOp)]
        for o in out:
            o.termination = True
            o.name = 'progress of ' + o.name
        return out
    out = []
    for k in NUM:
        n = ARITY.get(k, 1)
        for sg in itertools.product((1, -1, 0), repeat=n):
            i = 1 if 'pow' in k else 0
            if sg[i] and ('pow' in k or 'next_prime' in k):
                out += [NumOp(k, sg, p) for p in (0, 1)]
            else:
                out.append(NumOp(k, sg))
    for k in FRAC:
        for sg in itertools.product((1, -1, 0), repeat=2):
            out.append(FracOp(k, sg))
    for k in ('Int.is_even() const', 'Int.is_odd() const', 'Int.is_zero() const'):
        for sg in (1, -1, 0):
            out.append(Query(k, (sg,)))
    return out
