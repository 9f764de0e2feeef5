"""Big-integer operations against their mathematical definition, one sign combination at a time (proof over the digit domain); a concrete
counterexample is looked for by constant propagation only where the proof does not go through."""
import contextlib
import math
import os
import re
import signal
import time

from .core import *          # noqa
from . import intspec
from .intspec import World, Contracts, NotCanonical, saturate
from engine import digits as D
from engine.interp import Interp
from engine.loops import Lasso


class Slow(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    """inner time limit that leaves the remaining time of an outer one in place"""
    def on(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, on)
    rest = signal.alarm(seconds)
    t0 = time.time()
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if rest:
            signal.alarm(max(1, int(rest - (time.time() - t0))))


class Nothing(Exception):
    """the point is outside what constant propagation follows"""


# ---------------------------------------------------------------- what each operation means
# value(*numbers) is used on symbolic numbers (Lin) and on Python integers alike

def tdivmod(a, b):
    q = abs(a) // abs(b)
    q = -q if (a < 0) != (b < 0) else q
    return q, a - b * q


class Meaning:
    def __init__(self, kind, value=None, prop='C29', raises=None, domain=None):
        self.kind, self.value, self.prop = kind, value, prop
        self.raises = raises      # numbers -> condition under which the documented error is raised (bool or cond)
        self.domain = domain


def neg_when(c):
    return c


POLY = {
    'Int.operator+=(Int)': lambda a, b: a + b, 'Int.operator-=(Int)': lambda a, b: a - b, 'Int.operator*=(Int)': lambda a, b: a * b,
    'Int.operator+(Int) const': lambda a, b: a + b, 'Int.operator-(Int) const': lambda a, b: a - b, 'Int.operator*(Int) const': lambda a, b: a * b,
    'Int.operator++()': lambda a: a + 1, 'Int.operator--()': lambda a: a - 1, 'Int.operator+() const': lambda a: a, 'Int.operator-() const': lambda a: -a,
    'Int.Int(int)': lambda b: b, 'Int.Int(Int)': lambda b: b, 'Int.Int(Int&&)': lambda b: b, 'Int.operator=(Int)': lambda a, b: b, 'Int.operator=(Int&&)': lambda a, b: b,
}
MEAN = {k: Meaning('value', v) for k, v in POLY.items()}
MEAN['Int.abs_inc()'] = Meaning('abs+', lambda a: a + 1 if a > 0 else a - 1)
MEAN['Int.abs_dec()'] = Meaning('abs-', lambda a: a - 1 if a > 0 else a + 1)
MEAN['Int.abs() const'] = Meaning('abs', abs)
for k in ('Int.operator/=(Int)', 'Int.operator/(Int) const'):
    MEAN[k] = Meaning('quotient', lambda a, b: tdivmod(a, b)[0], 'C12', lambda a, b: b == 0)
for k in ('Int.operator%=(Int)', 'Int.operator%(Int) const'):
    MEAN[k] = Meaning('remainder', lambda a, b: tdivmod(a, b)[1], 'C12', lambda a, b: b == 0)
MEAN['Int.operator<=>(Int) const'] = Meaning('order', lambda a, b: (a > b) - (a < b), 'C08')
MEAN['Int.abs_cmp(Int) const'] = Meaning('absorder', lambda a, b: (abs(a) > abs(b)) - (abs(a) < abs(b)), 'C08')
MEAN['Int.operator==(Int) const'] = Meaning('cond', lambda a, b: a == b, 'C08')
MEAN['Int.is_zero() const'] = Meaning('cond', lambda a: a == 0, 'C07')
MEAN['Int.is_positive() const'] = Meaning('cond', lambda a: a > 0, 'C07')
MEAN['Int.is_negative() const'] = Meaning('cond', lambda a: a < 0, 'C07')
MEAN['Int.is_even() const'] = Meaning('parity', lambda a: a % 2 == 0, 'C07')
MEAN['Int.is_odd() const'] = Meaning('parity', lambda a: a % 2 == 1, 'C07')
MEAN['Int.digits() const'] = Meaning('digits', lambda a: len(str(abs(a))) if a else 0, 'C07')
MEAN['Int.to_integer() const'] = Meaning('toint', lambda a: a, 'C29', lambda a: not -2 ** 31 <= a < 2 ** 31)
CONDS = {'Int.operator==(Int) const': lambda a, b: c_eq(a - b), 'Int.is_zero() const': lambda a: c_eq(a), 'Int.is_positive() const': lambda a: c_ge(a - 1), 'Int.is_negative() const': lambda a: c_ge(-a - 1)}

SELF = ('Int.operator+=(Int)', 'Int.operator-=(Int)', 'Int.operator*=(Int)', 'Int.operator/=(Int)', 'Int.operator%=(Int)', 'Int.operator=(Int)')
NONZERO = ('Int.abs_inc()', 'Int.abs_dec()')
HEAVY = ('Int.operator*=(Int)', 'Int.operator/=(Int)', 'Int.operator%=(Int)')
OWN = ('Int.trim()', 'Int.abs_inc()', 'Int.abs_dec()', 'Int.abs_cmp(Int) const')   # helpers that may not exist


def arity(k):
    n = k[k.index('(') + 1:k.rindex(')')]
    return (0 if k.startswith('Int.Int(') else 1) + (len(n.split(',')) if n else 0)


def loc_of(f):
    return (os.path.basename(str(f.get('file', 'int.hpp'))), f.get('line', 0))


TOINT = 24      # digits of the numbers converted to a built-in integer


class IntOp:
    """proof that one operation computes what it means, for one combination of operand signs"""
    needs_program = True

    def __init__(self, key, signs, alias=False):
        self.key, self.signs, self.alias = key, signs, alias
        self.name = '%s [%s%s]' % (key, ','.join({1: '+', 0: '0', -1: '-'}[s] for s in signs), ' the object itself' if alias else '')

    # ------------------------------------------------------------ the abstract run
    def run(self, A):
        t0 = time.time()
        res = Result()
        try:
            W = getattr(A, 'int_world', None)
            if W is None:
                W = A.int_world = World(A.P)
        except Exception as e:
            res.undecided.append('no big-integer class: %r' % (e,))
            return res
        if self.key not in W.fn or not ('body' in W.fn[self.key] or W.fn[self.key].get('defaulted')):
            if self.key not in OWN:
                res.undecided.append('function not found in the current sources')
            return res
        self.W, self.f, self.M = W, W.fn[self.key], MEAN.get(self.key)
        self.res = res
        failed = None
        try:
            with limit(int(os.environ.get('VT_INT_LIMIT', '180'))):
                failed = self.prove()
        except Slow:
            failed = [('time limit', None)]
        except Giveup as e:
            failed = [('not analysable: %s' % e, None)]
        except RecursionError:
            failed = [('recursion limit', None)]
        except Exception as e:
            if os.environ.get('VT_CRASH'):
                raise
            failed = [('internal: %r' % (e,), None)]
        if failed:
            if res.obligations == res.discharged:
                res.obligations += 1
            hits = []
            try:
                with limit(60 if A.wit <= 40 else 240):
                    self.refute(hits)
            except Slow:
                pass
            except (RecursionError, Giveup):
                pass
            except Exception as e:
                if os.environ.get('VT_CRASH'):
                    raise
                res.undecided.append('internal: %r' % (e,))
            for props, what, wit in hits:
                res.problems.append(Problem(props, what, self.key, loc_of(self.f), wit))
            for w, _ in failed[:4]:
                res.undecided.append(w)
        res.time = time.time() - t0
        return res

    def interp(self, contracts=True):
        C = getattr(self.W, 'table_', None)
        if C is None:
            C = self.W.table_ = Contracts(self.W).table()
        I = Interp(self.W.P, {k: v for k, v in C.items() if k != self.f['fid']} if contracts else {})
        I.world = self.W
        return I

    def builtin(self, i):
        """range of operand i when it is a built-in integer"""
        k = i - (0 if self.f.get('static') is True or self.f.get('ctor') or self.key.startswith('Int.Int(') else 1)
        if k < 0 or self.alias:
            return None
        t = self.W.P.T(self.f['params'][k]['t'])
        return int_range(t) if t['k'] == 'int' else None

    def setup(self, st, structs):
        """[address of the object, arguments]"""
        rest = list(structs)
        addr, args = None, []
        ctor = self.key.startswith('Int.Int(')
        if ctor:
            st.store['this'] = Interp(self.W.P).default_record(self.W.rec)
            addr = Addr('this')
        elif not self.f.get('static') is True:
            st.store['this'] = rest.pop(0)
            addr = Addr('this')
        if self.alias:
            return addr, [addr]
        for p, v in zip(self.f['params'], rest):
            if self.W.P.T(p['t'])['k'] in ('ref', 'rref'):
                args.append(st.alloc(v, 'a'))
            else:
                args.append(v)
        return addr, args

    def produced(self, o, addr):
        v = o.val
        if isinstance(v, Addr):
            v = o.st.store[v.root]
        if self.key.startswith('Int.Int(') or self.key in NONZERO or self.key == 'Int.trim()':
            v = o.st.store['this']
        return v

    def prove_toint(self):
        """one run for every number of digits; the digits are unknowns"""
        W, (sg,) = self.W, self.signs
        failed = []
        for n in range(1, TOINT + 1) if sg else (0,):
            I = self.interp()
            I.budget = 10 ** 6
            st = State()
            ds = [L(sym('d%d' % i)) for i in range(n)]
            for i, d in enumerate(ds):
                st.add_ge(d - (1 if i == n - 1 else 0))
                st.add_ge(L(9) - d)
            x = ZERO
            for i, d in enumerate(ds):
                x = x + d.scale(sg * 10 ** i)
            v = W.mk(0, ZERO) if not n else Struct(intspec.CLS, dict(W.mk(0, ZERO).f, sign_=L(sg), chunks_=Seq([('one', d) for d in ds], 'vector', W.mk(0, ZERO).f['chunks_'].et)))
            addr, args = self.setup(st, [v])
            feasible = 0
            for o in I.run(st, self.f['fid'], addr, args):
                if o.st.empty():
                    continue
                feasible += 1
                self.res.outcomes += 1
                self.res.obligations += 1
                s, w = o.st, None
                inside = [y for y in s.copy().assume(c_and(c_ge(x + 2 ** 31), c_ge(L(2 ** 31 - 1) - x))) if not y.empty()]
                if o.kind == 'throw':
                    w = 'raises %s for a value in the range of the type' % (o.val,) if inside else None
                elif o.kind != 'ret':
                    w = 'undefined behaviour: %s at line %s' % (o.val, o.line)
                elif not isinstance(o.val, Lin) or not (s.nl(o.val - x) == ZERO or s.entails_eq(s.nl(o.val - x))):
                    w = 'the value is %r, not %r' % (o.val, x)
                if w is None:
                    self.res.discharged += 1
                else:
                    failed.append((w, o))
            if not feasible:
                failed.append(('no feasible outcome', None))
        return failed

    def prove(self):
        W = self.W
        if self.M is not None and self.M.kind == 'toint':
            return self.prove_toint()
        I = self.interp()
        I.digit_domain = True
        I.budget = 10 ** 7
        st = State()
        X, N = [], []
        for i, s in enumerate(self.signs):
            u = L(sym('xyz'[i]))
            rg = self.builtin(i)
            if rg:
                if s:
                    st.add_ge(u - 1)
                    st.add_ge(L(rg[1] if s > 0 else -rg[0]) - u)
                X.append(u.scale(s))
                N.append(u.scale(s))
                continue
            if s:
                st.add_ge(u - 1)
                W.facts(st, u)
            X.append(W.mk(s, u))
            N.append(u.scale(s))
        if self.alias:
            N = [N[0], N[0]]
        if self.key in OWN and self.key not in MEAN:
            return self.prove_trim(I)
        pre = [x for x in X]
        addr, args = self.setup(st, X)
        self.pre, self.passed = pre, args
        outs = I.run(st, self.f['fid'], addr, args)
        failed = []
        inplace = self.f['ret'] if 'ret' in self.f else None
        for o in outs:
            if not D.refine(o.st) or o.st.empty():
                continue
            D.renorm(o.st)
            if o.st.empty():
                continue
            self.res.outcomes += 1
            self.res.obligations += 1
            w = self.outcome(o, addr, N)
            if w is None and o.kind == 'ret':
                w = self.others(o, addr, args, X)
            if w is None:
                self.res.discharged += 1
            else:
                failed.append((w, o))
        if not self.res.outcomes:
            failed.append(('no feasible outcome', None))
        return failed

    def others(self, o, addr, args, X):
        """the right operand and, for a value operation, the object keep their value"""
        moved = '&&' in self.key
        k = 0 if self.key.startswith('Int.Int(') else 1
        if addr is not None and self.key.endswith('const') and not self.same(o.st, o.st.store['this'], X[0]):
            return 'the object changes'
        if not self.alias:
            for a, x in zip(args, X[k:]):
                if isinstance(a, Addr) and not moved and not self.same(o.st, o.st.store[a.root], x):
                    return 'an argument changes'
                if moved:
                    try:
                        if any(n != ZERO for _, n in self.W.number(o.st.copy(), o.st.store[a.root])):
                            pass
                    except NotCanonical as e:
                        return 'the moved-from integer is not canonical (%s)' % e
        return None

    def rejected(self, o, addr):
        ok = addr is None or self.same(o.st, o.st.store['this'], self.pre[0])
        for a, x in zip(self.passed, self.pre[len(self.pre) - len(self.passed):]):
            if isinstance(a, Addr) and a.root != 'this':
                ok = ok and self.same(o.st, o.st.store[a.root], x)
        return ok

    def same(self, st, a, b):
        return a == b or st.nl(a.f['sign_']) == st.nl(b.f['sign_']) and simp(st, a.f['chunks_'].p) == simp(st, b.f['chunks_'].p)

    def outcome(self, o, addr, N):
        M, s = self.M, o.st
        if o.kind == 'ub':
            return 'undefined behaviour: %s at line %s' % (o.val, o.line)
        if o.kind == 'throw':
            if M.raises is not None and all(n.is_const() for n in N if n == ZERO) and M.raises(*[Zero(n) for n in N]):
                return None if self.rejected(o, addr) else 'the rejected call changes an operand'
            return 'raises %s' % (o.val,)
        if M.raises is not None and M.raises(*[Zero(n) for n in N]):
            return 'returns although the argument is outside the domain'
        k = M.kind
        if k in ('cond', 'parity', 'order', 'absorder', 'digits'):
            return self.scalar(o, N)
        v = self.produced(o, addr)
        if not isinstance(v, Struct):
            return 'no integer is returned'
        try:
            cases = self.W.number(s, v)
        except NotCanonical as e:
            return 'the result is not canonical: %s' % e
        sg = self.signs + (self.signs[0],) * (self.alias and len(self.signs) == 1)
        for s, n in cases:
            if k == 'value':
                w = M.value(*N)
            elif k == 'abs+':
                w = N[0] + sg[0]
            elif k == 'abs-':
                w = N[0] - sg[0]
            elif k == 'abs':
                w = N[0].scale(sg[0]) if sg[0] else ZERO
            else:
                a, b = N[0].scale(sg[0]), N[1].scale(sg[1])
                saturate(s)
                if k == 'quotient':
                    d = a - b * n.scale(sg[0] * sg[1])
                    if sg[0] == 0:
                        d = D.normal(s, n)
                        if d != ZERO:
                            return 'quotient of zero is %r' % (n,)
                        continue
                else:
                    d = n.scale(sg[0])
                    if sg[0] == 0:
                        if D.normal(s, n) != ZERO:
                            return 'remainder of zero is %r' % (n,)
                        continue
                    if not self.congruent(s, a, b, d):
                        return 'the remainder is not congruent to the dividend: %r' % (n,)
                d = D.normal(s, d)
                if not s.entails_ge(d) or not s.entails_ge(D.normal(s, b - 1 - d)):
                    return 'remainder outside 0..|b|-1: %r' % (d,)
                continue
            d = D.normal(s, n - w)
            if d != ZERO and not s.entails_eq(d):
                return 'the value differs from the definition by %r' % (d,)
        return None

    def congruent(self, s, a, b, d):
        from engine import bignum
        if bignum.divisible(D.normal(s, a - d), D.normal(s, b)) or D.normal(s, a - d) == ZERO:
            return True
        if s.entails_eq(D.normal(s, a - d - b * t_fdiv(s.nl(a), s.nl(b)))):
            return True
        for e in s.ev:
            if e[0] == 'division' and D.normal(s, e[1] - a) == ZERO and D.normal(s, e[2] - b) == ZERO:
                r = D.normal(s, e[3] - d)
                if r == ZERO or s.entails_eq(r):
                    return True
        return False

    def truth(self, s, v):
        if isinstance(v, bool):
            return [(s, v)]
        if isinstance(v, Lin):
            v = c_not(c_eq(v))
        if is_cond(v):
            return [(y, w) for w in (True, False) for y in s.copy().assume(v if w else c_not(v)) if not y.empty()]
        raise Giveup('truth value %r' % (v,))

    def scalar(self, o, N):
        k, v = self.M.kind, o.val
        if k == 'cond':
            c = CONDS[self.key](*N)
            for y, w in self.truth(o.st, v):
                for z in y.copy().assume(c_not(c) if w else c):
                    saturate(D.renorm(z))
                    if not z.empty() and D.tight(z) and not z.empty():
                        return 'the test is %s although %r' % (w, z.cons[-3:])
            return None
        if k == 'parity':
            odd = 'odd' in self.key
            for y, w in self.truth(o.st, v):
                if not N[0].t:
                    even = N[0].c % 2 == 0
                else:
                    u = N[0].scale(self.signs[0])
                    even = self.parity(y, L(Term('at', D.digs(u), ZERO)))
                if even is None or (even if not odd else not even) != w:
                    return 'parity'
            return None
        if not isinstance(v, Lin):
            return 'no number is returned: %r' % (v,)
        if k == 'digits':
            if not self.signs[0]:
                return None if o.st.nl(v) == ZERO else 'digits of zero: %r' % (v,)
            d = o.st.nl(v - D.ndig(N[0].scale(self.signs[0])))
            return None if d == ZERO or o.st.entails_eq(d) else 'number of digits is wrong by %r' % (d,)
        a, b = N
        if k == 'absorder':
            a, b = a.scale(self.signs[0]), b.scale(self.signs[-1])
        for c, ok in ((c_ge(a - b - 1), lambda z: z.entails_ge(v - 1)), (c_eq(a - b), lambda z: z.entails_eq(v)), (c_ge(b - a - 1), lambda z: z.entails_ge(-v - 1))):
            for z in o.st.copy().assume(c):
                saturate(D.renorm(z))
                if not z.empty() and D.tight(z) and not z.empty() and not ok(z):
                    return 'the order %r is reported although %r' % (v, c)
        return None

    def parity(self, st, cell):
        """parity of a decimal digit on this path: the digits allowed by the path are enumerated"""
        seen = set()
        for d in range(10):
            z = [y for y in st.copy().assume(c_eq(cell - d)) if not y.empty() and D.tight(y) and not y.empty()]
            if z:
                seen.add(d % 2 == 0)
        return next(iter(seen)) if len(seen) == 1 else None

    # ------------------------------------------------------------ the normalising helper
    def prove_trim(self, I):
        W, failed = self.W, []
        st = State()
        b = D.ranged(0, 9)
        n = L(sym('n'))
        st.add_ge(n)
        st.add_ge(L(intspec.MAXD) - n)
        st.store['this'] = Struct(intspec.CLS, {'sign_': L(self.signs[0]), 'chunks_': W.sq.with_p((('sl', b, ZERO, n),))})
        for o in I.run(st, self.f['fid'], Addr('this'), []):
            D.findpos_facts(o.st)
            if not D.refine(o.st) or o.st.empty():
                continue
            self.res.outcomes += 1
            self.res.obligations += 1
            w = None
            if o.kind != 'ret':
                w = 'trim: %s %s' % (o.kind, o.val)
            else:
                try:
                    for s, v in W.number(o.st, o.st.store['this']):
                        d = D.normal(s, v.scale(self.signs[0]) - D.prefix(b, n))
                        if d != ZERO and not s.entails_eq(d):
                            w = 'the value changes by %r' % (d,)
                except NotCanonical as e:
                    w = 'not canonical: %s' % e
            if w is None:
                self.res.discharged += 1
            else:
                failed.append((w, o))
        return failed

    # ------------------------------------------------------------ counterexamples by constant propagation
    def points(self):
        ns = magnitudes(self.W.P, self.f)
        if self.M.kind == 'toint':
            ns = ns + [2 ** 31 + d for d in range(-11, 12)] + [10 ** k + d for k in range(2, 14) for d in (-1, 0, 1)] + [2 ** 31 * 10, 2 ** 32, 2 ** 32 + 5, 2 ** 64, 3 * 10 ** 9, 987654321, 1029384756]
        for t in tuples(ns, len(self.signs)):
            if any((s == 0) != (n == 0) for s, n in zip(self.signs, t)):
                continue
            p = tuple(s * n for s, n in zip(self.signs, t))
            if all(not self.builtin(i) or self.builtin(i)[0] <= x <= self.builtin(i)[1] for i, x in enumerate(p)):
                yield p

    def refute(self, hits):
        if self.key == 'Int.trim()':
            return self.refute_trim(hits)
        tries = 0
        t0 = time.time()
        for p in self.points():
            full = p if not self.alias else (p[0], p[0])
            try:
                got = self.at(p)
            except Nothing:
                tries += 1
                if tries > 400:
                    return
                continue
            w = self.judge(full, got)
            if w and self.alias and len(self.signs) == 1:
                twin = IntOp(self.key, self.signs * 2)
                twin.W, twin.f, twin.M = self.W, self.f, self.M
                try:
                    if not twin.judge(full, twin.at(full)):
                        w = (tuple(w[0]) + ('C06',), w[1] + ' (correct for an equal independent argument)')
                except Nothing:
                    pass
            if w:
                self.hit(hits, w, full)
                if len(hits) >= 3:
                    return

    def hit(self, hits, w, p):
        props, what = w
        if any(h[0] == props for h in hits):
            return
        hits.append((props, what, 'operands %s' % ', '.join(map(str, p)) + (' (one object)' if self.alias else '')))

    def at(self, p):
        """constant propagation of the operation for the given operands"""
        for contracts in (True, False):
            I = self.interp(contracts)
            st = State()
            addr, args = self.setup(st, [self.W.lit(x) if not self.builtin(i) else L(x) for i, x in enumerate(p)])
            I.lasso = True
            try:
                outs = I.run(st, self.f['fid'], addr, args)
            except Giveup:
                continue
            except Lasso as e:
                return ('lasso', e.line, None)
            outs = [o for o in outs if not o.st.empty()]
            if len(outs) != 1:
                continue
            o = outs[0]
            if o.st.taint:
                continue
            try:
                if o.kind != 'ret':
                    now = [self.cells(o.st, o.st.store[a.root]) for a in ([addr] if addr is not None else []) + list(args) if isinstance(a, Addr)] if o.kind == 'throw' else []
                    return (o.kind, o.val, (o.line, now))
                if self.M is not None and self.M.kind in ('cond', 'parity', 'order', 'absorder', 'digits', 'toint'):
                    return ('scalar', self.const(o.st, o.val), None)
                v = self.produced(o, addr)
                r = self.cells(o.st, v)
                keep = []
                for a, x in zip(args, p[len(p) - len(args):]):
                    if isinstance(a, Addr) and not self.alias:
                        keep.append((self.cells(o.st, o.st.store[a.root]), x))
                me = self.cells(o.st, o.st.store['this']) if addr is not None and self.key.endswith('const') else None
                return ('int', r, (keep, me))
            except Nothing:
                continue
        raise Nothing()

    def const(self, st, v):
        if isinstance(v, bool):
            return v
        if is_cond(v):
            d = st.decide(v)
            if d is None:
                raise Nothing()
            return d
        if isinstance(v, Lin):
            v = st.nl(v)
            if v.is_const():
                return v.c
        raise Nothing()

    def cells(self, st, v):
        if not isinstance(v, Struct) or v.cls != intspec.CLS:
            raise Nothing()
        sg = self.const(st, v.f['sign_'])
        ds = []
        for q in simp(st, v.f['chunks_'].p):
            if q[0] == 'one' and isinstance(q[1], Lin):
                ds.append(self.const(st, q[1]))
            elif q[0] == 'fill' and isinstance(q[1], Lin):
                n = self.const(st, q[2])
                if n > 100000:
                    raise Nothing()
                ds += [self.const(st, q[1])] * n
            else:
                raise Nothing()
        return sg, ds

    def judge(self, p, got):
        """(properties, text) of a mismatch at constant operands"""
        M = self.M
        kind, v, extra = got
        bad = M.raises is not None and M.raises(*p)
        if kind == 'lasso':
            return ('C18', M.prop), 'an iteration of the loop at line %s changes nothing: the call never returns' % v
        if kind == 'ub':
            return ub_props(v) + (M.prop,), 'undefined behaviour: %s at line %s' % (v, extra[0])
        if kind == 'throw':
            if bad:
                now = [s * sum(d * 10 ** i for i, d in enumerate(ds)) for s, ds in extra[1]]
                return None if all(n == x for n, x in zip(now, p)) or self.key.startswith('Int.Int(') else (('C04',), 'the rejected call leaves the operands %s' % (now,))
            return None if bad else (('C19' if M.kind == 'toint' else 'C11',), 'raises %s for operands in its domain' % (v,))
        if bad:
            return ('C19' if M.kind == 'toint' else 'C11',), 'returns a result for operands outside its domain'
        w = M.value(*p)
        if kind == 'scalar':
            if M.kind in ('order', 'absorder'):
                v = (v > 0) - (v < 0)
            return None if v == w else ((M.prop,), 'is %s, not %s' % (v, w))
        sg, ds = v
        e = canonical_error(sg, ds)
        if e:
            return ('C07', M.prop), 'the result is not in canonical form: %s' % e
        n = sg * sum(d * 10 ** i for i, d in enumerate(ds))
        if n != w:
            return (M.prop,), 'is %s, not %s' % (n, w)
        keep, me = extra
        for (s2, d2), x in keep:
            if '&&' in self.key:
                e = canonical_error(s2, d2)
                if e:
                    return ('C07', 'C22'), 'the moved-from integer is not in canonical form: %s' % e
            elif s2 * sum(d * 10 ** i for i, d in enumerate(d2)) != x:
                return ('C05',), 'the argument changes'
        if me is not None and me[0] * sum(d * 10 ** i for i, d in enumerate(me[1])) != p[0]:
            return ('C05',), 'the object changes'
        return None

    def refute_trim(self, hits):
        for ds in ([], [0], [0, 0], [1], [0, 1], [1, 0], [1, 0, 0], [0, 0, 5, 0], [9, 9, 9], [0, 9, 0, 0, 0], [10 - 1] * 12 + [0]):
            I = self.interp()
            st = State()
            st.store['this'] = Struct(intspec.CLS, {'sign_': L(self.signs[0]), 'chunks_': self.W.sq.with_p(tuple(('one', L(d)) for d in ds))})
            try:
                outs = I.run(st, self.f['fid'], Addr('this'), [])
                outs = [o for o in outs if not o.st.empty()]
                if len(outs) != 1 or outs[0].kind != 'ret':
                    continue
                sg, d2 = self.cells(outs[0].st, outs[0].st.store['this'])
            except (Giveup, Nothing):
                continue
            e = canonical_error(sg, d2)
            val = lambda x: sum(d * 10 ** i for i, d in enumerate(x))
            if e or sg * val(d2) != (self.signs[0] * val(ds)):
                hits.append((('C07',), 'normalisation leaves sign %d, digits %s' % (sg, d2), 'sign %d, digits (little endian) %s' % (self.signs[0], ds)))
                return


class Zero:
    """a number of known sign in a domain condition"""

    def __init__(self, n):
        self.z = n == ZERO

    def __eq__(self, o):
        return self.z if o == 0 else NotImplemented


def canonical_error(sg, ds):
    if sg not in (-1, 0, 1):
        return 'sign %d' % sg
    if any(d < 0 or d > 9 for d in ds):
        return 'digits %s' % ds
    if (sg == 0) != (not ds):
        return 'sign %d with digits %s' % (sg, ds)
    if ds and ds[-1] == 0:
        return 'leading digit 0 in %s' % ds[::-1]
    return None


# ---------------------------------------------------------------- operands

SMALL = [0, 1, 2, 3, 5, 7, 9, 10, 11, 12, 19, 20, 21, 25, 50, 90, 99, 100, 101, 109, 110, 111, 190, 199, 200, 500, 899, 900, 989, 990, 998, 999, 1000, 1001, 1009, 1099,
         1999, 2000, 5000, 9989, 9999, 10000, 10001, 12345, 54321, 90909, 99999, 100000, 100001, 999999, 1000000, 123456789, 987654321, 999999999, 1000000000,
         2147483647, 2147483648, 4294967296, 10 ** 12 - 1, 10 ** 12, 10 ** 18 - 1, 10 ** 18, 9223372036854775807, 12345678901234567890]


def literals(P, f, depth=0, seen=None):
    """integer constants in a function: thresholds the operands should straddle"""
    out, todo = set(), [f.get('body')]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            for k in ('v', 'val', 'value'):
                v = x.get(k)
                if isinstance(v, int) and not isinstance(v, bool):
                    out.add(abs(v))
                elif isinstance(v, str) and re.fullmatch(r'-?\d+', v):
                    out.add(abs(int(v)))
            todo += list(x.values())
        elif isinstance(x, list):
            todo += x
    return out


def magnitudes(P, f):
    ns = list(SMALL)
    for c in sorted(literals(P, f)):
        if 3 <= c <= 10 ** 6:
            ns += [c - 1, c, c + 1]
        if 3 <= c <= 64:
            for n in (c - 1, c, c + 1):
                ns += [10 ** n - 1, 10 ** n, 10 ** n + 1, int('123456789' * 10) % 10 ** n or 1] + [(10 ** n - 1) // 9 * 5 + d for d in (0, 1, 10 ** (n // 2), 10 ** (n - 1))]
    seen, out = set(), []
    for n in ns:
        if n not in seen:
            seen.add(n)
            out.append(n)
    return out


def tuples(ns, k):
    """operand tuples, the smaller indices first; every third one so that the pairs stay near a thousand"""
    if k == 1:
        for n in ns:
            yield (n,)
        return
    m = len(ns)
    if k == 2:
        for d in range(2 * m - 1):
            for i in range(max(0, d - m + 1), min(d, m - 1) + 1):
                if d < 40 or abs(d - 2 * i) < 4 or (i * 7 + d * 3) % 5 == 0:
                    yield ns[i], ns[d - i]
        return
    for d in range(24):
        for i in range(d + 1):
            for j in range(d - i + 1):
                if i < m and j < m and d - i - j < m:
                    yield ns[i], ns[j], ns[d - i - j]


def ops(keys):
    import itertools
    out = []
    for k in keys:
        n = arity(k)
        for sg in itertools.product((1, -1, 0), repeat=n):
            if k in NONZERO and sg[0] == 0:
                continue
            if k == 'Int.trim()' and sg[0] == 0:
                continue
            out.append(IntOp(k, sg))
        if k in SELF:
            out += [IntOp(k, (s,), True) for s in (1, -1, 0)]
    out.sort(key=lambda o: (o.key not in HEAVY, 0 in o.signs))
    return out


VALUE = ['Int.operator+=(Int)', 'Int.operator-=(Int)', 'Int.operator*=(Int)', 'Int.operator++()', 'Int.operator--()', 'Int.abs_inc()', 'Int.abs_dec()', 'Int.operator+(Int) const',
         'Int.operator-(Int) const', 'Int.operator*(Int) const', 'Int.operator+() const', 'Int.operator-() const', 'Int.abs() const', 'Int.trim()']
DIVISION = ['Int.operator/=(Int)', 'Int.operator%=(Int)', 'Int.operator/(Int) const', 'Int.operator%(Int) const', 'Int.digits() const', 'Int.operator<=>(Int) const', 'Int.abs_cmp(Int) const']
FORM = ['Int.Int(int)', 'Int.Int(Int)', 'Int.Int(Int&&)', 'Int.operator=(Int)', 'Int.operator=(Int&&)', 'Int.is_zero() const', 'Int.is_positive() const', 'Int.is_negative() const', 'Int.is_even() const',
        'Int.is_odd() const', 'Int.digits() const', 'Int.operator==(Int) const']


def chosen(keys, select=lambda o: True):
    return lambda: [o for o in ops(list(dict.fromkeys(keys))) if select(o)]
