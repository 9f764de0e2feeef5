"""Concretisation of abstract states: small models of a state and evaluation of abstract values in them.

Used only to confirm that an abstract state in which a property could not be shown is inhabited by a
concrete violating valuation (so that imprecision of the analysis never becomes an alarm).
"""
import math
from fractions import Fraction as Rational
import os
import random
import sys
from .dom import *
from .lin import REBUILD
from . import stdlib

GEN = stdlib.GEN
Y = Term('sym', '$y')
BIG = 4000


class Unk(Exception):
    pass


class VSeq:
    """concrete sequence given by segments (length, getter)"""
    __slots__ = ('segs', 'n', '_l')

    def __init__(self, segs):
        self.segs = [s for s in segs if s[0] > 0]
        for s in segs:
            if s[0] < 0:
                raise Unk('negative piece')
        self.n = sum(s[0] for s in self.segs)
        self._l = None

    def get(self, i):
        if i < 0 or i >= self.n:
            raise Unk('index')
        for n, g in self.segs:
            if i < n:
                return g(i)
            i -= n

    def list(self):
        if self._l is None:
            if self.n > BIG:
                raise Unk('long')
            self._l = tuple(g(i) for n, g in self.segs for i in range(n))
        return self._l

    def points(self):
        out = set()
        off = 0
        for n, _ in self.segs:
            for k in (0, 1, 2, n // 2, n - 3, n - 2, n - 1):
                if 0 <= k < n:
                    out.add(off + k)
            off += n
        return out

    def differs(self, o):
        if self.n != o.n:
            return True
        if self.n <= BIG:
            return self.list() != o.list()
        for i in self.points() | o.points():
            if self.get(i) != o.get(i):
                return True
        return False

    def __repr__(self):
        if self.n > 40:
            return '<%d elements>' % self.n
        l = self.list()
        if l and all(isinstance(x, int) and -128 <= x < 256 for x in l):
            return repr(bytes(x & 255 for x in l))[1:]
        return '[' + ', '.join(show(x) for x in l) + ']'


def show(x):
    if isinstance(x, VSeq):
        return repr(x)
    if isinstance(x, tuple) and x and x[0] == 'e':
        return '%s%s' % ('abcdefgh'[x[1] % 8], '.%s' % (short_uid(x[2]),))
    if isinstance(x, tuple) and x and x[0] == 'seq':
        return repr(x[1])
    if isinstance(x, tuple) and x and x[0] == 'std::pair':
        return '%s:%s' % (show(x[1][1]), show(x[2][1]))
    return repr(x)


def short_uid(u):
    if isinstance(u, tuple) and len(u) == 3 and u[0] == 'at':
        return '%s' % (u[2],)
    return str(u).replace("'", '')[:24]


def eqkey(v):
    """equality class of a value (operator== of opaque elements compares their class only)"""
    if isinstance(v, tuple) and v and v[0] == 'e':
        return ('e', v[1])
    if isinstance(v, tuple):
        return tuple(eqkey(x) for x in v)
    if isinstance(v, VSeq):
        return ('seq',) + tuple(eqkey(x) for x in v.list())
    return v


def ltkey(a, b):
    if isinstance(a, tuple) and a and a[0] == 'e':
        return a[1] < b[1]
    if isinstance(a, VSeq):
        return lex(a.list(), b.list())
    if isinstance(a, tuple) and a and a[0] in ('std::pair', 'seq'):
        return lex(a[1:], b[1:])
    if isinstance(a, tuple) and a and isinstance(a[0], str) and len(a) == 2:
        return ltkey(a[1], b[1])
    return a < b


def mkpair(a, b):
    return ('std::pair', ('first', a), ('second', b))


def keyof(v):
    if isinstance(v, tuple) and v and v[0] == 'std::pair':
        return v[1][1]
    raise Unk('not a pair')


def bag(l):
    """order-insensitive key of the elements of a set"""
    return tuple(sorted(repr(eqkey(x)) for x in l))


def lex(a, b):
    for x, y in zip(a, b):
        if eqkey(x) == eqkey(y):
            continue
        return ltkey(x, y)
    return len(a) < len(b)


PALETTE = [97, 98, 32, 48, 65, 9, 10, 44, 99, 90, 122, 57, 45, 43, 46, 101, 69, 64, 91, 96, 123, 0, 127, -1, -61, 47, 58, 33, 31, 102, 70, -128]
INTS = [0, 1, 2, -1, 3, -2, 4, 5, -3, 7, 10, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30), 65536, 46341]
FLOATS = [0.0, 0.0, 1.0, -1.0, 2.0, 0.5, -2.5, 3.0, -1e-3, 7.25, -0.75, 1e3]


class Model:
    def __init__(self, st, rng, alphabet=None):
        self.st = st
        self.rng = rng
        self.vals = {}      # key -> int
        self.els = {}       # key -> element value
        self.bases = {}     # key -> (length, {index: value}) for integer/opaque sequences
        self.bind = {}
        self.alphabet = alphabet or PALETTE
        self.ncls = rng.choice([1, 2, 2, 3])
        self.fn = {}

    # ---------------------------------------------------------- identities
    def ident(self, t):
        if isinstance(t, Lin):
            return self.lin(t)
        if not isinstance(t, Term):
            return t
        if t in self.bind:
            return ('bound', eqkey(self.bind[t]))
        if t.op == 'sym':
            return t.args[0]
        return (t.op,) + tuple(self.ident(a) for a in t.args)

    # ---------------------------------------------------------- integers
    def lin(self, l):
        l = self.st.norm(L(l))
        l = L(l)
        r = l.c
        for t, c in l.t:
            r += c * self.num(t)
        return r

    def num(self, t):
        if t in self.bind:
            v = self.bind[t]
            if not isinstance(v, int):
                raise Unk('bound element as number')
            return v
        o = t.op
        if o == '*':
            r = 1
            for f in t.args:
                r *= self.num(f)
            return r
        if o == 'fmod':
            a, b = self.lin(t.args[0]), self.lin(t.args[1])
            if b == 0:
                raise Unk('mod 0')
            return a % b
        if o == 'fdiv':
            a, b = self.lin(t.args[0]), self.lin(t.args[1])
            if b == 0:
                raise Unk('div 0')
            return a // b
        if o == 'exq':
            a, b = self.lin(t.args[0]), self.lin(t.args[1])
            if b == 0 or a % b:
                raise Unk('inexact quotient')
            return a // b
        if o == 'gcd':
            return math.gcd(self.lin(t.args[0]), self.lin(t.args[1]))
        if o == 'bit':
            a, b = self.lin(t.args[1]), self.lin(t.args[2])
            return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[t.args[0]]()
        if o == 'len':
            return self.baselen(t.args[0])
        if o == 'at':
            v = self.at(t.args[0], self.lin(t.args[1]), True)
            if not isinstance(v, int):
                raise Unk('element as number')
            return v
        if o == 'findpos':
            s = self.seq(t.args[0])
            for i, x in enumerate(s.list()):
                if self.pred(t.args[1], x):
                    return i
            return s.n
        if o == 'cnt':
            return sum(1 for x in self.seq(t.args[0]).list() if self.pred(t.args[1], x))
        if o == 'deduplen':
            return len(self.dedup(self.seq(t.args[0]).list()))
        if o == 'adjlen':
            return len(self.adj(self.seq(t.args[0]).list()))
        if o == 'subpos':
            h, n = self.seq(t.args[0]).list(), self.seq(t.args[1]).list()
            for i in range(len(h) - len(n) + 1):
                if h[i:i + len(n)] == n:
                    return i
            raise Unk('no occurrence')
        if o == 'cstrlen':
            l = self.seq(t.args[0]).list()
            return l.index(0) if 0 in l else len(l)
        if o in NUMFN:
            return NUMFN[o](self, t)
        if o in ('sym', 'fld', 'default', 'first', 'second'):
            k = self.ident(t)
            if k not in self.vals:
                self.vals[k] = self.rng.choice(INTS)
            return self.vals[k]
        if o in ('hash', 'textlen', 'd2i'):
            k = (o,) + tuple(self.argval(a) for a in t.args)
            if k not in self.fn:
                self.fn[k] = self.rng.randrange(1, 4 if o == 'textlen' else 1 << 40)
            return self.fn[k]
        raise Unk('number ' + o)

    def argval(self, a):
        if isinstance(a, Lin):
            return self.lin(a)
        if isinstance(a, Term):
            if a.op == 'seqkey':
                return ('seq',) + tuple(self.seq(a).list())
            if a.op in ('val',):
                return ('val', self.argval(a.args[0]))
            if a.op in ('i2d', 'f+', 'f-', 'f*', 'f/', 'fneg', 'fl', 'fabs') or a.op.startswith('m_'):
                return self.flt(a)
            try:
                return self.num(a)
            except Unk:
                pass
            try:
                return self.el(a)
            except Unk:
                return (a.op,) + tuple(self.argval(x) for x in a.args)
        if isinstance(a, tuple):
            return tuple(self.argval(x) for x in a)
        return a

    def argval1(self, a):
        """value of a set element or key"""
        if isinstance(a, Lin):
            return self.lin(a)
        if a.op == 'seqkey':
            return self.seq(a)
        return self.el(a)

    # ---------------------------------------------------------- sequences
    def bkey(self, b):
        return self.ident(b)

    def baselen(self, b):
        k = self.bkey(b)
        if k not in self.bases:
            self.bases[k] = [self.rng.choice([0, 1, 2, 3, 3, 4, 5]), {}]
        if isinstance(b.args[0], Term) and b.args[0].op in ('sset', 'smap') and self.ncls < 5:
            self.ncls = 5
            self.hassets = True
        return self.bases[k][0]

    def setclass(self, b, i):
        """class of the i-th element of a sorted container"""
        k = ('cls', self.bkey(b))
        if k not in self.fn:
            n = self.baselen(b)
            m = max(n + self.rng.choice([0, 0, 1, 2, 3]), 5)
            self.fn[k] = sorted(self.rng.sample(range(m), n)) if n <= BIG else None
        l = self.fn[k]
        return l[i] if l is not None else i

    def at(self, b, i, isint):
        if b.op == 'base':
            n = self.baselen(b)
            if i < 0 or i >= n:
                raise Unk('outside base')
            d = self.bases[self.bkey(b)][1]
            if i not in d:
                if b.args[0].op == 'sset':
                    d[i] = ('e', self.setclass(b, i), ('at', self.bkey(b), i))
                elif b.args[0].op == 'smap' or self.bkey(b) in self.pairbases:
                    k = self.bkey(b)
                    cl = self.setclass(b, i) if b.args[0].op == 'smap' else self.rng.randrange(self.ncls)
                    d[i] = mkpair(('e', cl, ('key', k, i)), ('e', self.rng.randrange(self.ncls), ('val', k, i)))
                elif isint:
                    d[i] = self.rng.choice(self.alphabet)
                else:
                    d[i] = ('e', self.rng.randrange(self.ncls), ('at', self.bkey(b), i))
            return d[i]
        return self.seqterm(b).get(i)

    def seq(self, k):
        if isinstance(k, Term):
            if k.op == 'seqkey':
                return self.pieces(k.args[0])
            return self.seqterm(k)
        return self.pieces(k)

    def pieces(self, ps, isint=None):
        segs = []
        for p in ps:
            segs += self.piece(p)
        return VSeq(segs)

    def piece(self, p):
        k = p[0]
        if k in ('sl', 'rv'):
            lo, hi, b = self.lin(p[2]), self.lin(p[3]), p[1]
            if lo > hi:
                raise Unk('negative slice')
            if k == 'sl':
                return [(hi - lo, lambda i, lo=lo, b=b: self.elem(b, lo + i))]
            return [(hi - lo, lambda i, hi=hi, b=b: self.elem(b, hi - 1 - i))]
        if k == 'one':
            v = self.val(p[1])
            return [(1, lambda i: v)]
        if k == 'fill':
            v = self.val(p[1])
            return [(self.lin(p[2]), lambda i: v)]
        if k == 'st':
            a, d, n, b = self.lin(p[2]), self.lin(p[3]), self.lin(p[4]), p[1]
            return [(n, lambda i: self.elem(b, a + i * d))]
        if k == 'rep':
            inner = self.pieces(p[1])
            n = self.lin(p[2])
            if inner.n == 0 or n == 0:
                return []
            return [(inner.n * n, lambda i: inner.get(i % inner.n))]
        if k == 'op':
            s = self.seqterm(p[1])
            n = self.lin(p[2])
            if n != s.n:
                raise Unk('length of %s' % p[1].op)
            return list(s.segs)
        if k == 'cm':
            n = self.lin(p[2])
            if n > 300:
                raise Unk('long comprehension')
            segs = []
            old = self.bind.get(KSYM)
            for i in range(n):
                self.bind[KSYM] = i
                segs += VSeq([(1, (lambda j, x=x: x)) for x in self.pieces(p[1]).list()]).segs
            if old is None:
                self.bind.pop(KSYM, None)
            else:
                self.bind[KSYM] = old
            return segs
        raise Unk('piece ' + k)

    def elem(self, b, i):
        """element of a base; integer or opaque according to what was registered for it"""
        return self.at(b, i, self.isint(b))

    def isint(self, b):
        k = self.bkey(b) if b.op == 'base' else None
        return self.kinds.get(k, self.default_int)

    kinds = {}
    pairbases = ()
    hassets = False
    default_int = False

    def dedup(self, l):
        out = []
        for x in l:
            if all(eqkey(x) != eqkey(y) for y in out):
                out.append(x)
        return out

    def adj(self, l):
        out = []
        for x in l:
            if not out or eqkey(x) != eqkey(out[-1]):
                out.append(x)
        return out

    def const(self, l):
        l = list(l)
        return VSeq([(len(l), lambda i: l[i])])

    def seqterm(self, t):
        o = t.op
        if o == 'base':
            n = self.baselen(t)
            return VSeq([(n, lambda i: self.elem(t, i))])
        if o == 'seqkey':
            return self.pieces(t.args[0])
        if o == 'filter':
            return self.const(x for x in self.seq(t.args[0]).list() if self.pred(t.args[1], x))
        if o == 'dedup':
            return self.const(self.dedup(self.seq(t.args[0]).list()))
        if o == 'adjuniq':
            return self.const(self.adj(self.seq(t.args[0]).list()))
        if o in ('movedseq', 'uniqtail', 'removetail'):
            l = self.seq(t.args[0]).list()
            if o == 'uniqtail':
                n = len(l) - len(self.adj(l))
            elif o == 'removetail':
                n = sum(1 for x in l if self.pred(t.args[1], x))
            else:
                n = len(l)
            return self.const(('unspecified', i) for i in range(n))
        if o == 'map':
            l = self.seq(t.args[0]).list()
            return self.const(self.app(t.args[1], x) for x in l)
        if o == 'shuffled':
            return self.const(reversed(self.seq(t.args[0]).list()))     # one of the permitted orders
        if o in ('stablesort', 'unstablesort'):
            import functools
            l = list(self.seq(t.args[0]).list())
            if o == 'unstablesort':
                l.reverse()
            key = t.args[1]

            def cmp(a, b):
                if self.less(key, a, b):
                    return -1
                return 1 if self.less(key, b, a) else 0
            return self.const(sorted(l, key=functools.cmp_to_key(cmp)))
        if o == 'take':
            l = self.seqterm(t.args[0])
            n = self.lin(t.args[1])
            if n > l.n or n < 0:
                raise Unk('take')
            return self.const(l.list()[:n])
        if o == 'drop':
            l = self.seqterm(t.args[0])
            n = self.lin(t.args[1])
            if n > l.n or n < 0:
                raise Unk('drop')
            return self.const(l.list()[n:])
        if o == 'rev':
            return self.const(reversed(self.seqterm(t.args[0]).list()))
        if o == 'eachsep':
            sep = self.seq(t.args[1]).list()
            return self.const(y for x in self.seq(t.args[0]).list() for y in (x,) + sep)
        if o == 'text':
            n = self.num(Term('textlen', t))
            k = self.argval(t.args[0])
            return self.const(('txt', k, i) for i in range(n))
        if o in SEQFN:
            return SEQFN[o](self, t)
        raise Unk('sequence ' + o)

    def app(self, fn, x):
        if fn.op == 'identity':
            return x
        if fn.op == 'ctab':
            return fn.args[0][x + 128]
        old = self.bind.get(GEN)
        self.bind[GEN] = x
        try:
            return self.el(fn)
        finally:
            if old is None:
                self.bind.pop(GEN, None)
            else:
                self.bind[GEN] = old

    def less(self, key, a, b):
        if key.op == 'natural':
            return ltkey(a, b)
        if key.op in ('fn', 'sym'):
            # an arbitrary comparator: a strict weak order on equality classes
            k = ('cmp', key)
            if k not in self.fn:
                self.fn[k] = self.rng.choice([1, -1])
            x, y = (a, b) if self.fn[k] == 1 else (b, a)
            return ltkey(x, y)
        return self.pred2(key, a, b)

    def pred2(self, p, a, b):
        o1, o2 = self.bind.get(GEN), self.bind.get(Y)
        self.bind[GEN], self.bind[Y] = a, b
        try:
            return self.atomterm(p)
        finally:
            for k, o in ((GEN, o1), (Y, o2)):
                if o is None:
                    self.bind.pop(k, None)
                else:
                    self.bind[k] = o

    # ---------------------------------------------------------- elements, predicates
    def el(self, t):
        if isinstance(t, Lin):
            return self.lin(t)
        if t in self.bind:
            return self.bind[t]
        if t.op == 'at':
            return self.at(t.args[0], self.lin(t.args[1]), self.isint(t.args[0]))
        if t.op == 'act':
            x = self.el(t.args[0])
            return ('act', x)
        if t.op in ('first', 'second') and (t.args[0] in self.bind or t.args[0].op == 'at'):
            x = self.el(t.args[0])
            if isinstance(x, tuple) and x and x[0] == 'std::pair':
                return x[1 if t.op == 'first' else 2][1]
        if t.op in ('sym', 'default', 'fld', 'first', 'second'):
            k = self.ident(t)
            if k not in self.els:
                self.els[k] = ('e', self.rng.randrange(-1 if self.hassets else 0, self.ncls), k)
            return self.els[k]
        if t.op == 'moved':
            return ('unspecified', self.el(t.args[0]))
        if t.op in ELFN:
            return ELFN[t.op](self, t)
        raise Unk('element ' + t.op)

    def pred(self, p, x):
        old = self.bind.get(GEN)
        self.bind[GEN] = x
        try:
            return self.atomterm(p)
        finally:
            if old is None:
                self.bind.pop(GEN, None)
            else:
                self.bind[GEN] = old

    def atomterm(self, p):
        o = p.op
        if o == 'const':
            return bool(p.args[0])
        if o == 'not':
            return not self.atomterm(p.args[0])
        if o == 'and':
            return all(self.atomterm(a) for a in p.args)
        if o == 'or':
            return any(self.atomterm(a) for a in p.args)
        if o == 'ge':
            return self.lin(p.args[0]) >= 0
        if o == 'eq':
            return self.lin(p.args[0]) == 0
        if o == 'cset':
            return bool(p.args[1] >> (self.lin(p.args[0]) & 255) & 1)
        if o == 'eqel':
            return eqkey(self.el(p.args[0])) == eqkey(self.el(p.args[1]))
        if o == 'ltel':
            return ltkey(self.el(p.args[0]), self.el(p.args[1]))
        if o == 'eqseq':
            a, b = self.seq(p.args[0]), self.seq(p.args[1])
            return a.n == b.n and [eqkey(x) for x in a.list()] == [eqkey(x) for x in b.list()]
        if o == 'lexlt':
            return lex(self.seq(p.args[0]).list(), self.seq(p.args[1]).list())
        if o == 'hassub':
            h, n = self.seq(p.args[0]).list(), self.seq(p.args[1]).list()
            return any(h[i:i + len(n)] == n for i in range(len(h) - len(n) + 1))
        if o == 'hasnul':
            return 0 in self.seq(p.args[0]).list()
        if o == 'pred':
            k = ('pred',) + tuple(eqkey(self.argval(a)) for a in p.args)
            if k not in self.fn:
                self.fn[k] = self.rng.random() < .5
            return self.fn[k]
        if o in ('feq', 'flt', 'fle'):
            a, b = self.flt(p.args[0]), self.flt(p.args[1])
            return a == b if o == 'feq' else a < b if o == 'flt' else a <= b
        if o in ('sym', 'fld'):
            k = ('b', self.ident(p))
            if k not in self.vals:
                self.vals[k] = self.rng.random() < .5
            return self.vals[k]
        if o in BOOLFN:
            return BOOLFN[o](self, p)
        raise Unk('predicate ' + o)

    def cond(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, Unknown):
            raise Unk('unknown condition')
        k = c[0]
        if k == 'ge':
            return self.lin(c[1]) >= 0
        if k == 'eq':
            return self.lin(c[1]) == 0
        if k == 'not':
            return not self.cond(c[1])
        if k == 'and':
            return self.cond(c[1]) and self.cond(c[2])
        if k == 'or':
            return self.cond(c[1]) or self.cond(c[2])
        if k == 'atom':
            return self.atomterm(self.st.norm(c[1]))
        raise Unk('cond')

    # ---------------------------------------------------------- floats
    def flt(self, t):
        if isinstance(t, float):
            return t
        if isinstance(t, str):
            return float(t)
        if isinstance(t, Fl):
            return self.flt(t.t)
        o = t.op
        try:
            if o == 'fl':
                return float(t.args[0])
            if o == 'i2d':
                return float(self.lin(t.args[0]))
            if o == 'fneg':
                return -self.flt(t.args[0])
            if o == 'fabs':
                return abs(self.flt(t.args[0]))
            if o in ('f+', 'f-', 'f*', 'f/'):
                a, b = self.flt(t.args[0]), self.flt(t.args[1])
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[o[1]]()
            if o in FLTFN:
                return FLTFN[o](self, t)
        except (ZeroDivisionError, OverflowError):
            raise Unk('float')
        if o in ('sym', 'fld'):
            k = ('f', self.ident(t))
            if k not in self.vals:
                self.vals[k] = self.rng.choice(FLOATS)
            return self.vals[k]
        raise Unk('float ' + o)

    # ---------------------------------------------------------- values
    def val(self, v):
        if isinstance(v, Lin):
            return self.lin(v)
        if isinstance(v, El):
            return self.el(self.st.norm(v.t))
        if isinstance(v, Seq):
            if v.kind in ('set', 'map'):
                return ('set', bag(self.pieces(v.p).list()))
            return ('seq',) + tuple(self.pieces(v.p).list())
        if isinstance(v, Struct) and v.cls == 'std::pair':
            return mkpair(self.val(v.f['first']), self.val(v.f['second']))
        if isinstance(v, Struct):
            fs = sorted(k for k in v.f if k != '__id')
            return (v.cls,) + tuple((k, self.val(v.f[k])) for k in fs)
        if isinstance(v, Fl):
            f = self.flt(v.t)
            return ('fl', repr(f))
        if is_cond(v):
            return self.cond(v)
        if isinstance(v, Obj):
            return ('obj', v.tag) + tuple(self.val(x) if isinstance(x, (Lin, El, Seq, Struct, Fl, Obj)) else (self.argval(x) if isinstance(x, (Term, tuple)) else x) for x in v.a)
        if isinstance(v, Addr):
            return ('addr', v.root, tuple((c[0], self.lin(c[1]) if isinstance(c[1], Lin) else c[1]) for c in v.path))
        if isinstance(v, Iter):
            return ('iter', v.addr.root, self.lin(v.pos), v.rev)
        raise Unk('value %r' % (v,))

    # ---------------------------------------------------------- consistency with the state
    def satisfies(self):
        st = self.st
        free = free_acc(st)
        for l in st.cons:
            if any(k in free for k, _ in l.t):
                continue
            if self.lin(l) < 0:
                return False
        for k, v in st.sub.items():
            if k.op == 'acclen':
                continue
            if self.rawnum(k) != self.lin(v):
                return False
        for a, b in st.atoms.items():
            if self.atomterm(a) != b:
                return False
        return True

    def rawnum(self, k):
        return self.num(k)

    def setleaf(self, t, v):
        """fix the value of a leaf; False on conflict"""
        if t.op == 'len':
            k = self.bkey(t.args[0])
            if k in self.bases:
                return self.bases[k][0] == v
            self.bases[k] = [v, {}]
            return True
        if t.op == 'at' and t.args[0].op == 'base':
            if isinstance(t.args[0].args[0], Term) and t.args[0].args[0].op in ('sset', 'smap'):
                return True     # an element, not a number
            k = self.bkey(t.args[0])
            i = self.lin(t.args[1])
            if k not in self.bases:
                self.bases[k] = [max(i + 1, 0) + self.rng.randrange(3), {}]
            d = self.bases[k][1]
            if i in d:
                return d[i] == v
            d[i] = v
            return True
        if t.op in ('sym', 'fld', 'first', 'second'):
            k = self.ident(t)
            if k in self.vals:
                return self.vals[k] == v
            self.vals[k] = v
            return True
        return True     # derived leaf: checked by satisfies()


NUMFN = {}
SEQFN = {}
ELFN = {}
BOOLFN = {}
FLTFN = {}


def bigset(m, p):
    """(length, class of the searched element) when the container is too large to enumerate"""
    ps = p.args[0].args[0]
    if len(ps) == 1 and ps[0][0] == 'sl' and ps[0][1].op == 'base' and isinstance(ps[0][1].args[0], Term) and m.baselen(ps[0][1]) > BIG:
        v = m.argval1(p.args[1])
        if isinstance(v, tuple) and v[0] == 'e':
            lo, hi = m.lin(ps[0][2]), m.lin(ps[0][3])
            return lo, hi, v[1]
    return None


def _mem(m, p):
    b = bigset(m, p)
    if b:
        return b[0] <= b[2] < b[1]
    e = eqkey(m.argval1(p.args[1]))
    return any(eqkey(x) == e for x in m.seq(p.args[0]).list())


def _kmem(m, p):
    b = bigset(m, p)
    if b:
        return b[0] <= b[2] < b[1]
    e = eqkey(m.argval1(p.args[1]))
    return any(eqkey(keyof(x)) == e for x in m.seq(p.args[0]).list())


def _pos(key):
    def f(m, t):
        b = bigset(m, t)
        if b and b[0] <= b[2] < b[1]:
            return b[2] - b[0]
        e = eqkey(m.argval1(t.args[1]))
        for i, x in enumerate(m.seq(t.args[0]).list()):
            if eqkey(key(x)) == e:
                return i
        raise Unk('absent')
    return f


def kdedup(l):
    out, seen = [], set()
    for x in l:
        k = eqkey(keyof(x))
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def _sorted(m, t):
    import functools
    l = list(m.seq(t.args[0]).list())
    return m.const(sorted(l, key=functools.cmp_to_key(lambda a, b: -1 if ltkey(a, b) else (1 if ltkey(b, a) else 0))))


BOOLFN['mem'] = _mem
BOOLFN['kmem'] = _kmem
BOOLFN['eqmap'] = lambda m, p: bag(m.seq(p.args[0]).list()) == bag(m.seq(p.args[1]).list())
NUMFN['mempos'] = _pos(lambda x: x)
NUMFN['kmempos'] = _pos(keyof)


def _lb(m, t):
    b = bigset(m, t)
    if b:
        return max(b[0], min(b[2], b[1])) - b[0]
    x = m.argval1(t.args[1])
    l = m.seq(t.args[0]).list()
    return sum(1 for y in l if ltkey(keyof(y) if isinstance(y, tuple) and y and y[0] == 'std::pair' and not (isinstance(x, tuple) and x[0] == 'std::pair') else y, x))


NUMFN['lbpos'] = _lb
NUMFN['kdeduplen'] = lambda m, t: len(kdedup(m.seq(t.args[0]).list()))
SEQFN['sorted'] = _sorted
SEQFN['kdedup'] = lambda m, t: m.const(kdedup(m.seq(t.args[0]).list()))
ELFN['mkpair'] = lambda m, t: mkpair(m.argval1(t.args[0]), m.argval1(t.args[1]))


def free_acc(st):
    """lengths of buffers under construction that are only known to be non-negative: any value will do"""
    acc = {}
    for l in st.cons:
        for k, _ in l.t:
            ts = [k] if k.op != '*' else list(k.args)
            for t in ts:
                if isinstance(t, Term) and t.op == 'acclen':
                    ok = len(l.t) == 1 and k is t and l.t[0][1] > 0 and l.c <= 0
                    acc[t] = acc.get(t, True) and ok
    return {t for t, ok in acc.items() if ok}


def nleaves(x, out):
    """numeric unknowns of an expression"""
    if isinstance(x, Lin):
        for t, _ in x.t:
            nleaves(t, out)
    elif isinstance(x, tuple):
        for y in x:
            nleaves(y, out)
    elif isinstance(x, El):
        nleaves(x.t, out)
    elif isinstance(x, Term):
        o = x.op
        if o == 'base' or (o == 'sym' and str(x.args[0]).startswith('$')):
            return
        if o == 'len' and x.args[0].op == 'base' or o in ('sym', 'fld', 'first', 'second', 'default'):
            out.add(x)
            return
        if o not in REBUILD and o != '*':
            out.add(x)
        for a in x.args:
            nleaves(a, out)


def rnd_point(st, rng, extra=(), budget=120, wild=0.15, spread=False):
    """randomised integer point of the linear part of a state"""
    cons = list(st.cons) + [norm_ge(st.nl(l)) for l in extra]
    cnt = [budget]

    def solve(cons, env):
        cs = []
        for c in cons:
            c = norm_ge(c)
            if not c.t:
                if c.c < 0:
                    return None
                continue
            cs.append(c)
        if not cs:
            return env
        cnt[0] -= 1
        if cnt[0] < 0 or infeasible(cs):
            return None
        lv = set()
        for c in cs:
            nleaves(c, lv)
        ready = []
        for t in sorted(lv, key=lambda t: t.id):
            deps = set()
            for a in (t.args if t.op != 'sym' else ()):
                nleaves(a, deps)
            if not (deps - {t}):
                ready.append(t)
        pick = rng.choice(ready) if ready else sorted(lv, key=lambda t: t.id)[0]
        small = [0, 1, 2, -1, 3, 4, 5, -2, 6, -3]
        rng.shuffle(small)
        if pick.op == 'at':
            small = rng.sample(PALETTE, 12) + small
        m = simplex_feasible(sorted(cs, key=lambda l: (tuple(k.id for k, _ in l.t), l.c)))
        cand = []
        if m and pick in m:
            f = m[pick].numerator // m[pick].denominator
            cand = [f, f + 1]
            cand.append(f - 1)
            if spread:
                cand = [f + k for k in rng.sample(range(-12, 13), 8)] + cand
        big = [INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30)]
        order = (big + cand + small) if rng.random() < wild else (small + cand + big)
        seen = set()
        for v in order:
            if v in seen or any(_v(c, pick, v) for c in cs):
                continue
            seen.add(v)
            mm = {pick: Lin(v)}
            r = solve([L(subst_lin(c, mm)) for c in cs], env + [(pick, v)])
            if r is not None or cnt[0] < 0:
                return r
        return None

    return solve(cons, [])


def _v(c, pick, v):
    return len(c.t) == 1 and c.t[0][0] is pick and c.c + c.t[0][1] * v < 0


def models(st, kinds=None, default_int=False, trials=150, seed=1, extra=(), alphabet=None, pairbases=()):
    """yield concrete models of a state"""
    rng = random.Random(seed)
    pts = 0
    import time
    t0 = time.time()
    for k in range(trials + 40):
        # the last trials take points further away from the vertices
        if time.time() - t0 > 20:
            return
        env = rnd_point(st, rng, extra, wild=0.1 if k % 3 else 0.6, spread=k >= trials)
        if env is None:
            pts += 1
            if pts > 25:
                return
            continue
        for rep in range(6):
            ab = alphabet
            if ab is None and default_int is not None:
                ab = rng.sample(PALETTE, rng.choice([2, 3, 6, 12])) if k % 2 else PALETTE
            m = Model(st, rng, ab)
            m.kinds = kinds or {}
            m.default_int = default_int
            m.pairbases = {('base', x) for x in pairbases}
            m.env = env
            try:
                ok = True
                for t, v in env:
                    if not m.setleaf(t, v):
                        ok = False
                        break
                # eliminated leaves take the value of their definition
                if ok:
                    for t, v in st.sub.items():
                        if t.op in ('sym', 'fld', 'len', 'first', 'second') or (t.op == 'at' and t.args[0].op == 'base'):
                            if not m.setleaf(t, m.lin(v)):
                                ok = False
                                break
                if ok:
                    for l in extra:
                        if m.lin(l) < 0:
                            ok = False
                if ok and m.satisfies():
                    yield m
            except Unk as e:
                if os.environ.get('VT_MODEL'):
                    print('UNK', e, file=sys.stderr)
                continue
            except (RecursionError, KeyError, IndexError, TypeError) as e:
                if os.environ.get('VT_MODEL'):
                    print('MODELERR', repr(e), file=sys.stderr)
                continue
