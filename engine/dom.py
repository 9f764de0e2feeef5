"""Abstract values and abstract states."""
from .lin import *

INT_MAX = 2**31 - 1
INT_MIN = -2**31


class Giveup(Exception):
    """construct outside the modelled subset; the enclosing analysis becomes undecided"""


# ---------------------------------------------------------------- numeric terms with folding

def t_fmod(a, b):
    """floor modulus of a by b (b > 0), reduced modulo b syntactically"""
    a, b = L(a), L(b)
    if b.is_const() and b.c == 0:
        return Lin(0)
    if a == b or a == -b:
        return Lin(0)
    if a.is_const() and b.is_const():
        return Lin(a.c % b.c)
    if b.is_const() and b.c == 1:
        return Lin(0)
    if b.is_const():
        m = b.c
        a = Lin.mk(a.c % m, {k: v % m for k, v in a.t})
        if a.is_const():
            return Lin(a.c)
    elif b.c == 0 and len(b.t) == 1:
        s, cf = b.t[0]
        d = {k: v for k, v in a.t if not (k is s and v % cf == 0) and not (k.op == '*' and s in k.args and v % cf == 0)}
        a = Lin.mk(a.c, d)
        if a.is_const() and a.c == 0:
            return Lin(0)
    return L(Term('fmod', a, b))


def t_fdiv(a, b):
    """floor quotient"""
    a, b = L(a), L(b)
    if b.is_const() and b.c == 1:
        return a
    if b.is_const() and b.c == 0:
        return L(Term('fdiv', a, b))
    if a == b:
        return Lin(1)
    if a == -b:
        return Lin(-1)
    if a.is_const() and b.is_const():
        return Lin(a.c // b.c)
    if b.is_const() and all(v % b.c == 0 for _, v in a.t):
        return Lin.mk(a.c // b.c, {k: v // b.c for k, v in a.t})
    return L(Term('fdiv', a, b))


def t_gcd(a, b):
    import math
    a, b = L(a), L(b)
    if a.is_const() and b.is_const():
        return Lin(math.gcd(a.c, b.c))
    for x, y in ((a, b), (b, a)):
        if x.is_const() and abs(x.c) == 1:
            return Lin(1)
    # gcd ignores signs and order: canonical representatives
    def canon(x):
        y = -x
        return x if (x.t and x.t[0][1] > 0) or (not x.t and x.c >= 0) else y
    a, b = canon(a), canon(b)
    if repr(a) > repr(b):
        a, b = b, a
    return L(Term('gcd', a, b))


def t_exq(a, g):
    """exact quotient of a by its divisor g"""
    a, g = L(a), L(g)
    if g.is_const() and g.c == 1 or a == ZERO:
        return a
    if a.is_const() and g.is_const() and g.c and a.c % g.c == 0:
        return Lin(a.c // g.c)
    if a == g:
        return Lin(1)
    if a.t and a.t[0][1] < 0 or not a.t and a.c < 0:
        return -L(Term('exq', -a, g))
    return L(Term('exq', a, g))


def gcd_divides(a, b):
    """b is a gcd term with argument a or -a"""
    if b.c == 0 and len(b.t) == 1 and b.t[0][1] == 1 and b.t[0][0].op == 'gcd':
        g = b.t[0][0]
        return any(x == a or x == -a for x in g.args)
    return False


def t_bit(op, a, b):
    a, b = L(a), L(b)
    if a.is_const() and b.is_const():
        return Lin({'&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y, '<<': lambda x, y: x << y, '>>': lambda x, y: x >> y}[op](a.c, b.c))
    return L(Term('bit', op, a, b))


REBUILD['bit'] = t_bit
REBUILD['fmod'] = t_fmod
REBUILD['fdiv'] = t_fdiv
REBUILD['gcd'] = t_gcd
REBUILD['exq'] = t_exq


def t_len(base):
    return L(Term('len', base))


# ---------------------------------------------------------------- values

class El:
    """opaque element, identified by a term"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, El) and self.t == o.t

    def __hash__(self):
        return hash(('El', self.t))

    def __repr__(self):
        return repr(self.t)


class Fl:
    """floating value: python float or Term"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Fl) and self.t == o.t and type(self.t) is type(o.t)

    def __hash__(self):
        return hash(('Fl', self.t))

    def __repr__(self):
        return 'fl(%r)' % (self.t,)


class Struct:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Struct(self.cls, d)

    def __eq__(self, o):
        return isinstance(o, Struct) and self.cls == o.cls and self.f == o.f

    def __hash__(self):
        return hash((self.cls, tuple(sorted(self.f.items(), key=lambda kv: str(kv[0])))))

    def __repr__(self):
        return '%s%r' % (self.cls.split('::')[-1], self.f)


class Seq:
    __slots__ = ('p', 'kind', 'et')

    def __init__(self, p, kind, et=None):
        self.p = tuple(p)
        self.kind = kind
        self.et = et

    def __eq__(self, o):
        return isinstance(o, Seq) and self.p == o.p

    def __hash__(self):
        return hash(('Seq', self.p))

    def with_p(self, p):
        return Seq(p, self.kind, self.et)

    def __repr__(self):
        return '%s<%s>' % (self.kind, ' '.join(prepr(x) for x in self.p))


def prepr(p):
    if p[0] == 'sl':
        return '%r[%r:%r]' % (p[1], p[2], p[3])
    if p[0] == 'rv':
        return 'rev(%r[%r:%r])' % (p[1], p[2], p[3])
    if p[0] == 'one':
        return '[%r]' % (p[1],)
    return repr(p)


class Addr:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def fld(self, name):
        return Addr(self.root, self.path + (('f', name),))

    def el(self, idx, gen=None):
        return Addr(self.root, self.path + ((('e', idx) if gen is None else ('e', idx, gen)),))

    def sub(self, comp):
        return Addr(self.root, self.path + (comp,))

    def __eq__(self, o):
        return isinstance(o, Addr) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return '&%s%s' % (self.root, ''.join('.%s' % (c[1],) if c[0] == 'f' else '[%r]' % (c[1],) for c in self.path))


class Iter:
    """iterator/pointer into the sequence stored at addr; reverse iterators hold base()"""
    __slots__ = ('addr', 'pos', 'rev', 'const', 'ptr', 'gen')

    def __init__(self, addr, pos, rev=False, const=False, ptr=False, gen=None):
        self.gen = gen
        self.addr = addr
        self.pos = L(pos)
        self.rev = rev
        self.const = const
        self.ptr = ptr

    def moved(self, k):
        return Iter(self.addr, self.pos - k if self.rev else self.pos + k, self.rev, self.const, self.ptr, self.gen)

    def index(self):
        return self.pos - 1 if self.rev else self.pos

    def __eq__(self, o):
        return isinstance(o, Iter) and self.addr == o.addr and self.pos == o.pos and self.rev == o.rev

    def __hash__(self):
        return hash((self.addr, self.pos, self.rev))

    def __repr__(self):
        return 'it(%r,%r%s)' % (self.addr, self.pos, ',rev' if self.rev else '')


class Closure:
    __slots__ = ('rid', 'ops', 'caps', 'this')

    def __init__(self, rid, ops, caps, this):
        self.rid, self.ops, self.caps, self.this = rid, ops, caps, this

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class FnPtr:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, FnPtr) and self.f['fid'] == o.f['fid']

    def __hash__(self):
        return hash(self.f['fid'])


class Unknown:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return '?(%s)' % self.why


class Exc:
    __slots__ = ('type', 'msg')

    def __init__(self, type, msg):
        self.type, self.msg = type, msg

    def __eq__(self, o):
        return isinstance(o, Exc) and (self.type, self.msg) == (o.type, o.msg)

    def __hash__(self):
        return hash((self.type, self.msg))

    def __repr__(self):
        return '%s(%s)' % (self.type, self.msg)


class OStream:
    """output stream: token list (pieces) plus pending width/fill"""
    __slots__ = ('toks', 'flags')

    def __init__(self, toks=(), flags=()):
        self.toks = tuple(toks)
        self.flags = flags

    def __eq__(self, o):
        return isinstance(o, OStream) and self.toks == o.toks and self.flags == o.flags

    def __hash__(self):
        return hash((self.toks, self.flags))

    def __repr__(self):
        return 'os%r' % (self.toks,)


class Obj:
    """misc immutable abstract object with a tag and fields (sets, maps, engines, ...)"""
    __slots__ = ('tag', 'a')

    def __init__(self, tag, *a):
        self.tag = tag
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Obj) and self.tag == o.tag and self.a == o.a

    def __hash__(self):
        return hash((self.tag, self.a))

    def __repr__(self):
        return '%s%r' % (self.tag, self.a)


VOID = Obj('void')

# ---------------------------------------------------------------- conditions
# True | False | ('ge', Lin) | ('eq', Lin) | ('atom', Term) | ('not', c) | ('and', c, d) | ('or', c, d) | Unknown


def c_ge(l):
    l = norm_ge(L(l))
    if not l.t:
        return l.c >= 0
    return ('ge', l)


def c_gt(l):
    return c_ge(L(l) - 1)


def c_eq(l):
    l = L(l)
    if not l.t:
        return l.c == 0
    return ('eq', l)


def c_not(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, Unknown):
        return c
    if c[0] == 'ge':
        return c_ge(-c[1] - 1)
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def c_and(*cs):
    r = True
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        r = c if r is True else ('and', r, c)
    return r


def c_or(*cs):
    r = False
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        r = c if r is False else ('or', r, c)
    return r


def is_cond(v):
    return isinstance(v, bool) or (isinstance(v, tuple) and v and v[0] in ('ge', 'eq', 'atom', 'not', 'and', 'or'))


SYMMETRIC = ('eqseq', 'eqel', 'feq')


class State:
    __slots__ = ('store', 'env', 'cons', 'sub', 'atoms', 'taint', 'trace', 'ev', 'this', 'nroot', 'ver', 'cap', 'inp')

    def __init__(self):
        self.store = {}
        self.env = {}
        self.cons = []
        self.sub = {}
        self.atoms = {}
        self.taint = ()
        self.trace = ()
        self.ev = ()
        self.this = None
        self.nroot = 0
        self.ver = {}
        self.cap = {}
        self.inp = None

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.env = dict(self.env)
        s.cons = list(self.cons)
        s.sub = dict(self.sub)
        s.atoms = dict(self.atoms)
        s.taint = self.taint
        s.trace = self.trace
        s.ev = self.ev
        s.this = self.this
        s.nroot = self.nroot
        s.ver = dict(self.ver)
        s.cap = dict(self.cap)
        s.inp = self.inp
        return s

    def alloc(self, val, name='t'):
        self.nroot += 1
        r = '%s~%d' % (name, self.nroot)
        self.store[r] = val
        return Addr(r)

    def norm(self, x):
        if not self.sub:
            return x
        for _ in range(4):
            y = subst_any(x, self.sub)
            if isinstance(y, Term) or isinstance(y, Lin) or isinstance(y, tuple):
                if y == x:
                    return y
            x = y
        return x

    def nl(self, l):
        return L(self.norm(L(l)))

    def add_ge(self, l):
        """returns False when the state becomes trivially empty"""
        l = norm_ge(self.nl(l))
        if not l.t:
            return l.c >= 0
        for i, c in enumerate(self.cons):
            if c.t == l.t:
                if l.c < c.c:
                    self.cons[i] = l
                return True
        self.cons.append(l)
        return True

    def plain_gcd(self, l):
        """gcd(0, x) and gcd(x, x) are |x| where the sign of x is known"""
        m = {}
        for k, _ in l.t:
            if k.op != 'gcd':
                continue
            x, y = L(k.args[0]), L(k.args[1])
            z = y if x == ZERO else x if y == ZERO or x == y or x == -y else None
            if z is not None:
                if self.decide(c_ge(z)) is True:
                    m[k] = z
                elif self.decide(c_ge(-z)) is True:
                    m[k] = -z
        return self.nl(subst_lin(l, m)) if m else l

    def add_eq(self, l):
        l = self.nl(l)
        if any(k.op == 'gcd' for k, _ in l.t):
            l = self.plain_gcd(l)
        if not l.t:
            return l.c == 0
        cand = None
        for k, v in l.t:
            if abs(v) != 1 or k.op == '*':
                continue
            if any(k2 is not k and occurs(k, k2) for k2, _ in l.t):
                continue
            pr = (k.op == 'acclen', k.op == 'sym' and '#' in str(k.args[0]), k.op not in ('sym', 'len', 'at'), k.op != 'len', k.id)
            if cand is None or pr > cand[0]:
                cand = (pr, k, v)
        if cand is None:
            g = 0
            for _, v in l.t:
                g = gcd(g, abs(v))
            if l.c % g:
                return False
            return self.add_ge(l) and self.add_ge(-l)
        _, k, v = cand
        rest = Lin(l.c, tuple((a, b) for a, b in l.t if a is not k))
        val = rest.scale(-1) if v == 1 else rest
        m = {k: val}
        extra = []
        for s in list(self.sub):
            self.sub[s] = L(subst_lin(self.sub[s], m))
            if s.op != 'sym' and occurs(k, s):
                ns = subst_term(s, m)
                if ns is not s:
                    extra.append(L(ns) - self.sub[s])
        self.sub[k] = val
        old = self.cons
        self.cons = []
        for c in old:
            if not self.add_ge(subst_lin(c, m)):
                return False
        oa = self.atoms
        self.atoms = {}
        for a, b in oa.items():
            na = subst_term(a, m)
            if isinstance(na, Lin):
                na = na.t[0][0] if na.t else na
            if na in self.atoms and self.atoms[na] != b:
                return False
            self.atoms[na] = b
        for e in extra:
            if not self.add_eq(e):
                return False
        return True

    def entails_ge(self, l):
        return entails(self.cons, self.nl(l))

    def entails_eq(self, l):
        l = self.nl(l)
        if not l.t:
            return l.c == 0
        return entails(self.cons, l) and entails(self.cons, -l)

    def decide(self, c):
        """True / False / None"""
        if isinstance(c, bool):
            return c
        if isinstance(c, Unknown):
            return None
        k = c[0]
        if k == 'ge':
            l = self.nl(c[1])
            if entails(self.cons, l):
                return True
            if entails(self.cons, -l - 1):
                return False
            return None
        if k == 'eq':
            l = self.nl(c[1])
            if not l.t:
                return l.c == 0
            a, b = entails(self.cons, l), entails(self.cons, -l)
            if a and b:
                return True
            if a and entails(self.cons, l - 1):
                return False
            if b and entails(self.cons, -l - 1):
                return False
            return None
        if k == 'atom':
            return self.atom(c[1])
        if k == 'not':
            r = self.decide(c[1])
            return None if r is None else not r
        if k == 'and':
            a = self.decide(c[1])
            if a is False:
                return False
            b = self.decide(c[2])
            if b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a = self.decide(c[1])
            if a is True:
                return True
            b = self.decide(c[2])
            if b is True:
                return True
            return False if a is False and b is False else None
        raise Giveup('cond %r' % (c,))

    def atom(self, t):
        t = self.norm(t)
        if isinstance(t, Lin):
            return None
        r = atom_const(t)
        if r is not None:
            return r
        if t in self.atoms:
            return self.atoms[t]
        # same predicate with semantically equal arguments
        for a, b in self.atoms.items():
            if a.op == t.op and len(a.args) == len(t.args):
                if all(self.same(x, y) for x, y in zip(a.args, t.args)):
                    return b
                if t.op in SYMMETRIC and len(t.args) == 2 and self.same(a.args[0], t.args[1]) and self.same(a.args[1], t.args[0]):
                    return b
        return None

    def same(self, x, y):
        """entailed structural equality of term arguments"""
        if x == y:
            return True
        if isinstance(x, Lin) and isinstance(y, Lin):
            return self.entails_eq(x - y)
        if isinstance(x, Term) and isinstance(y, Term):
            return x.op == y.op and x.op != 'sym' and len(x.args) == len(y.args) and all(self.same(a, b) for a, b in zip(x.args, y.args))
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.same(a, b) for a, b in zip(x, y))
        if isinstance(x, El) and isinstance(y, El):
            return self.same(x.t, y.t)
        if isinstance(x, Fl) and isinstance(y, Fl):
            return isinstance(x.t, Term) and self.same(x.t, y.t)
        return False

    def assume(self, c, want=True):
        """list of successor states where c is `want`"""
        if isinstance(c, bool):
            return [self] if c == want else []
        if isinstance(c, Unknown):
            s = self.copy()
            s.taint = s.taint + (c.why,)
            return [s]
        k = c[0]
        if k == 'not':
            return self.assume(c[1], not want)
        if k == 'and' or k == 'or':
            if (k == 'and') == want:
                out = []
                for s in self.assume(c[1], want):
                    out += s.assume(c[2], want)
                return out
            out = list(self.assume(c[1], want))
            for s in self.assume(c[1], not want):
                out += s.assume(c[2], want)
            return out
        d = self.decide(c)
        if d is not None:
            return [self] if d == want else []
        if k == 'atom':
            s = self.copy()
            t = s.norm(c[1])
            s.atoms[t] = want
            if not atom_effects(s, t, want):
                return []
            return [s] if not s.empty() else []
        if k == 'ge':
            s = self.copy()
            ok = s.add_ge(c[1] if want else -c[1] - 1)
            return [s] if ok and not s.empty() else []
        if k == 'eq':
            if want:
                s = self.copy()
                return [s] if s.add_eq(c[1]) and not s.empty() else []
            out = []
            for l in (c[1] - 1, -c[1] - 1):
                s = self.copy()
                if s.add_ge(l) and not s.empty():
                    out.append(s)
            return out
        raise Giveup('assume %r' % (c,))

    def fork(self, c):
        return self.assume(c, True), self.assume(c, False)

    def empty(self):
        return infeasible(self.cons)

    def tainted(self, why):
        s = self.copy()
        s.taint = s.taint + (why,)
        return s


def atom_const(t):
    if t.op == 'eqel' and t.args[0] is t.args[1]:
        return True
    if t.op == 'ltel' and t.args[0] is t.args[1]:
        return False
    return None


ATOM_EFFECTS = []


def atom_effects(s, t, want):
    for f in ATOM_EFFECTS:
        if not f(s, t, want):
            return False
    return True


# ---------------------------------------------------------------- sequences

def plen(p):
    k = p[0]
    if k in ('sl', 'rv'):
        return p[3] - p[2]
    if k == 'one':
        return ONE
    if k == 'rep':          # ('rep', pieces, times)
        return pslen(p[1]) * p[2]
    if k == 'st':           # ('st', base, start, step, count)
        return p[4]
    if k == 'op':           # ('op', term, len)
        return p[2]
    if k == 'fill':         # ('fill', value, count)
        return p[2]
    if k == 'cm':           # ('cm', pieces in $k, count): concatenation over $k = 0..count-1
        n = pslen(p[1])
        if occurs(KSYM, n):
            raise Giveup('length of a comprehension')
        return n * p[2]
    raise Giveup('piece ' + k)


KSYM = Term('sym', '$k')


def pslen(ps):
    n = ZERO
    for p in ps:
        n = n + plen(p)
    return n


def slen(s):
    return pslen(s.p)


def cut(st, p, k):
    """split piece p after k elements (0 < k < len)"""
    if p[0] == 'sl':
        return ('sl', p[1], p[2], p[2] + k), ('sl', p[1], p[2] + k, p[3])
    if p[0] == 'rv':
        return ('rv', p[1], p[3] - k, p[3]), ('rv', p[1], p[2], p[3] - k)
    if p[0] == 'st':
        return ('st', p[1], p[2], p[3], k), ('st', p[1], p[2] + p[3] * k, p[3], p[4] - k)
    if p[0] == 'fill':
        return ('fill', p[1], k), ('fill', p[1], p[2] - k)
    if p[0] == 'op':
        return ('op', Term('take', p[1], L(k)), L(k)), ('op', Term('drop', p[1], L(k)), p[2] - k)
    if p[0] == 'rep':
        ln = pslen(p[1])
        # exact multiple: k = ln*j
        j = exact_div(k, ln)
        if j is not None:
            return ('rep', p[1], j), ('rep', p[1], p[2] - j)
    raise Giveup('cut ' + p[0])


def exact_div(a, b):
    """polynomial a / b when b is const or a single symbol dividing every monomial"""
    a, b = L(a), L(b)
    if b.is_const():
        if b.c and a.c % b.c == 0 and all(v % b.c == 0 for _, v in a.t):
            return Lin(a.c // b.c, tuple((k, v // b.c) for k, v in a.t))
        return None
    if b.c == 0 and len(b.t) == 1 and b.t[0][1] == 1 and a.c == 0:
        s = b.t[0][0]
        acc = ZERO
        for k, v in a.t:
            fs = list(factors(k))
            if s not in fs:
                return None
            fs.remove(s)
            if not fs:
                acc = acc + v
            elif len(fs) == 1:
                acc = acc + Lin(0, ((fs[0], v),))
            else:
                acc = acc + Lin(0, ((Term('*', *fs), v),))
        return acc
    return None


def split(st, ps, pos):
    """list of (state, left, right) for a position 0 <= pos <= len"""
    pos = st.nl(pos)
    out = []
    work = [(st, 0, ZERO, ())]
    ps = tuple(ps)
    while work:
        s, i, off, left = work.pop()
        if i == len(ps):
            out.append((s, left, ()))
            continue
        rem = s.nl(pos - off)
        if s.decide(c_ge(-rem)) is True:     # pos <= off
            out.append((s, left, ps[i:]))
            continue
        ln = plen(ps[i])
        d = rem - ln
        # pos - off >= len
        t, f = s.fork(c_ge(d))
        for a in t:
            work.append((a, i + 1, off + ln, left + (ps[i],)))
        for a in f:
            t2, f2 = a.fork(c_ge(-rem))
            for b in t2:
                out.append((b, left, ps[i:]))
            for b in f2:
                x, y = cut(b, ps[i], b.nl(rem))
                out.append((b, left + (x,), (y,) + ps[i + 1:]))
    return out


def mk_at(base, idx, et):
    if base.op == 'base' and isinstance(base.args[0], Term) and base.args[0].op == 'chars':
        # characters of a run of decimal digits, most significant first; ('chars', digits base, length)
        b, m = base.args[0].args
        return L(Term('at', b, L(m) - 1 - L(idx))) + 48
    t = Term('at', base, L(idx))
    if et is not None and et.get('int'):
        return L(t)
    mk = et.get('mk') if et else None
    if mk:
        return mk(t)
    return El(t)


def elem_of(st, p, k, et):
    """value of the k-th element of piece p"""
    if p[0] == 'one':
        return p[1]
    if p[0] == 'sl':
        return mk_at(p[1], st.nl(p[2] + k), et)
    if p[0] == 'rv':
        return mk_at(p[1], st.nl(p[3] - 1 - k), et)
    if p[0] == 'st':
        return mk_at(p[1], st.nl(p[2] + p[3] * k), et)
    if p[0] == 'fill':
        return p[1]
    if p[0] == 'op':
        return mk_at(p[1], st.nl(k), et)
    if p[0] == 'rep':
        ln = pslen(p[1])
        if len(p[1]) == 1:
            return elem_of(st, p[1][0], t_fmod(st.nl(k), st.nl(ln)), et)
    raise Giveup('element of ' + p[0])


def seq_get(st, seq, idx):
    """list of (state, value); idx must be in range"""
    idx = st.nl(idx)
    out = []
    work = [(st, 0, ZERO)]
    while work:
        s, i, off = work.pop()
        if i >= len(seq.p):
            continue
        p = seq.p[i]
        rem = s.nl(idx - off)
        ln = s.nl(plen(p))
        if i == len(seq.p) - 1:
            ins = s.assume(c_ge(ln - rem - 1))
            outs = []
        else:
            ins, outs = s.fork(c_ge(ln - rem - 1))
        for x in ins:
            v = elem_of(x, p, x.nl(rem), seq.et)
            out.append((elem_range(x, v, seq), v))
        for x in outs:
            work.append((x, i + 1, off + ln))
    return out


def elem_range(st, v, seq):
    et = seq.et
    if et and et.get('int') and isinstance(v, Lin) and v.t and 'lo' in et:
        st = st.copy()
        lo, hi = et['lo'], et['hi']
        if len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].op == 'at':
            r = cell_range(v.t[0][0].args[0])
            if r:
                lo, hi = r[0] + v.c, r[1] + v.c
        st.add_ge(v - lo)
        st.add_ge(L(hi) - v)
    return st


def cell_range(base):
    if isinstance(base, Term) and base.op == 'base' and isinstance(base.args[0], Term):
        a = base.args[0]
        if a.op == 'rng':
            return a.args[1], a.args[2]
        if a.op == 'digs':
            return 0, 9
    return None


def first_nonempty(st, ps):
    """list of (state, first piece (known nonempty), rest)"""
    out = []
    work = [(st, tuple(ps))]
    while work:
        s, r = work.pop()
        if not r:
            continue
        t, f = s.fork(c_ge(plen(r[0]) - 1))
        for a in t:
            out.append((a, r[0], r[1:]))
        for a in f:
            work.append((a, r[1:]))
    return out


def seq_sub(st, ps, lo, hi):
    """list of (state, pieces) for ps[lo:hi], 0 <= lo <= hi <= len"""
    out = []
    for s, a, b in split(st, ps, lo):
        for s2, c, d in split(s, b, s.nl(L(hi) - L(lo))):
            out.append((s2, c))
    return out


def seq_set(st, seq, idx, val):
    out = []
    for s, a, b in split(st, seq.p, idx):
        for s2, c, d in split(s, b, ONE):
            out.append((s2, seq.with_p(simp(s2, a + (('one', val),) + d))))
    return out


def rev_pieces(ps):
    out = []
    for p in reversed(ps):
        if p[0] == 'sl':
            out.append(('rv',) + p[1:])
        elif p[0] == 'rv':
            out.append(('sl',) + p[1:])
        elif p[0] in ('one', 'fill'):
            out.append(p)
        elif p[0] == 'st':
            out.append(('st', p[1], p[2] + p[3] * (p[4] - 1), -p[3], p[4]))
        elif p[0] == 'op':
            out.append(('op', Term('rev', p[1]), p[2]))
        else:
            raise Giveup('reverse ' + p[0])
    return tuple(out)


def simp(st, ps):
    """normalise: drop empty pieces, merge adjacent slices"""
    out = []
    for p in ps:
        p = tuple(st.norm(x) if isinstance(x, (Lin, Term, tuple)) else x for x in p)
        if p[0] == 'one' and isinstance(p[1], El):
            t = st.norm(p[1].t)
            if isinstance(t, Term) and t.op == 'at' and isinstance(t.args[0], Term) and t.args[0].op in ('base',):
                p = ('sl', t.args[0], t.args[1], t.args[1] + 1)
            else:
                p = ('one', El(t))
        elif p[0] == 'one' and isinstance(p[1], Lin):
            v = st.nl(p[1])
            p = ('one', v)
            if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0].op == 'at' and isinstance(v.t[0][0].args[0], Term) and v.t[0][0].args[0].op == 'base':
                t = v.t[0][0]
                p = ('sl', t.args[0], t.args[1], t.args[1] + 1)
        elif p[0] == 'one' and isinstance(p[1], Struct):
            t = whole_elem(st, p[1])
            if t is not None:
                p = ('sl', t.args[0], t.args[1], t.args[1] + 1)
        ln = st.nl(plen(p))
        if ln.is_const() and ln.c == 0:
            continue
        if p[0] == 'op' and p[1].op in ('dedup', 'stablesort', 'sort', 'rev') and isinstance(p[1].args[0], Term) and p[1].args[0].op == 'seqkey' \
                and st.nl(pslen(p[1].args[0].args[0])) == ONE:
            out += simp(st, p[1].args[0].args[0])
            continue
        if not ln.is_const() and entails(st.cons, -ln):
            continue
        if p[0] == 'cm' and out:
            tail = ()
            while out:
                q = cm_rotate(st, out, p)
                if q is None:
                    break
                out.pop()
                p, tail = q[0], tuple(q[1]) + tail
            if tail:
                out.append(p)
                out += tail
                continue
        if p[0] == 'cm':
            t = st.nl(p[2])
            if t.is_const() and t.c == 1:
                for q in simp(st, subst_any(p[1], {KSYM: ZERO}) if False else tuple(subst_piece(q, {KSYM: ZERO}) for q in p[1])):
                    out.append(q)
                continue
        if p[0] == 'rep':
            t = st.nl(p[2])
            if t.is_const() and t.c == 1:
                for q in p[1]:
                    out.append(q)
                continue
        if p[0] == 'st':
            if p[3] == ONE:
                p = ('sl', p[1], p[2], p[2] + p[4])
            elif p[3] == Lin(-1):
                p = ('rv', p[1], p[2] - p[4] + 1, p[2] + 1)
        if p[0] == 'rv' and ln.is_const() and ln.c == 1:
            p = ('sl',) + p[1:]
        if out:
            q = out[-1]
            if q[0] == 'sl' and p[0] == 'sl' and q[1] is p[1] and st.nl(q[3]) == st.nl(p[2]):
                out[-1] = ('sl', q[1], q[2], p[3])
                continue
            if p[0] in ('rv', 'sl') and q[0] in ('rv', 'sl') and 'rv' in (p[0], q[0]) and q[1] is p[1] and st.nl(q[2]) == st.nl(p[3]) and \
                    (p[0] == 'rv' or (ln.is_const() and ln.c == 1)) and (q[0] == 'rv' or st.nl(plen(q)) == ONE):
                out[-1] = ('rv', q[1], p[2], q[3])
                continue
            if q[0] == 'rep' and p[0] == 'rep' and q[1] == p[1]:
                out[-1] = ('rep', q[1], q[2] + p[2])
                continue
            if q[0] == 'rep' and q[1] == (p,):
                out[-1] = ('rep', q[1], q[2] + 1)
                continue
            if q[0] == 'fill' and p[0] == 'fill' and q[1] == p[1]:
                out[-1] = ('fill', q[1], q[2] + p[2])
                continue
            if q[0] == 'st' and p[0] == 'st' and q[1] is p[1] and q[3] == p[3] and st.nl(q[2] + q[3] * q[4]) == st.nl(p[2]):
                out[-1] = ('st', q[1], q[2], q[3], q[4] + p[4])
                continue
        out.append(p)
    return tuple(out)


def subst_piece(p, m):
    return tuple(subst_pv(x, m) for x in p)


def subst_pv(x, m):
    if isinstance(x, (Lin, Term)):
        return subst_any(x, m)
    if isinstance(x, tuple):
        return tuple(subst_pv(a, m) for a in x)
    if isinstance(x, El):
        return El(subst_any(x.t, m))
    if isinstance(x, Obj):
        return Obj(x.tag, *[subst_pv(v, m) for v in x.a])
    if isinstance(x, Fl):
        return Fl(subst_any(x.t, m)) if isinstance(x.t, Term) else x
    if isinstance(x, Struct):
        return Struct(x.cls, {k: subst_pv(v, m) for k, v in x.f.items()})
    return x


def cm_rotate(st, out, p):
    """x ++ cm(body ++ b) with x = b[$k-1] at $k=0 is cm(b[$k-1] ++ body) ++ b[count-1]"""
    body = p[1]
    b = body[-1]
    if len(body) < 2:
        return None
    prev = simp(st, (subst_piece(b, {KSYM: Lin(-1)}),))
    if prev != (out[-1],):
        return None
    nb = simp(st, (subst_piece(b, {KSYM: L(KSYM) - 1}),) + tuple(body[:-1]))
    last = simp(st, (subst_piece(b, {KSYM: p[2] - 1}),))
    return ('cm', nb, p[2]), last


def whole_elem(st, v):
    """if struct v is exactly the record element `at(base, i)` return that term"""
    t = v.f.get('__id')
    return t if isinstance(t, Term) and t.op == 'at' and isinstance(t.args[0], Term) and t.args[0].op == 'base' else None


def seq_cmp(st, p1, p2, depth=0):
    """compare two piece lists.  list of (state, True|False): False = could not be shown equal in that state"""
    out = []
    work = [(st, simp(st, p1), simp(st, p2), 0)]
    n = 0
    while work:
        n += 1
        if n > 400:
            raise Giveup('sequence comparison too large')
        s, a, b, d = work.pop()
        a, b = simp(s, a), simp(s, b)
        if a == b:
            out.append((s, True))
            continue
        if not a or not b:
            # one side exhausted: equal only where the other has length 0
            rest = a or b
            t, f = s.fork(c_ge(-pslen(rest)))
            out += [(x, True) for x in t] + [(x, False) for x in f]
            continue
        x, y = a[0], b[0]
        # drop possibly-empty heads first
        forked = False
        for z in (x, y):
            ln = s.nl(plen(z))
            if s.decide(c_ge(ln - 1)) is None:
                t, f = s.fork(c_ge(ln - 1))
                for q in t + f:
                    work.append((q, a, b, d + 1))
                forked = True
                break
        if forked:
            continue
        lx, ly = s.nl(plen(x)), s.nl(plen(y))
        m = head_match(s, x, y)
        if m is None:
            # exact position unknown (e.g. same base, undetermined offset): try deciding offsets
            o = head_offset(s, x, y)
            if o is not None:
                t, f = s.fork(c_eq(o))
                for q in t:
                    work.append((q, a, b, d + 1))
                out += [(q, False) for q in f]
            else:
                out.append((s, False))
            continue
        if m is False:
            out.append((s, False))
            continue
        t, f = s.fork(c_ge(lx - ly))
        for q in t:
            xr = (cut(q, x, ly)[1],) if q.decide(c_eq(lx - ly)) is not True else ()
            work.append((q, xr + a[1:], b[1:], d + 1))
        for q in f:
            yr = (cut(q, y, lx)[1],)
            work.append((q, a[1:], yr + b[1:], d + 1))
    return out


def head_offset(s, x, y):
    def start(p):
        if p[0] == 'sl' or p[0] == 'st':
            return p[1], p[2]
        if p[0] == 'rv':
            return p[1], p[3] - 1
        return None, None
    bx, ox = start(x)
    by, oy = start(y)
    if bx is None or bx is not by:
        return None
    d = s.nl(ox - oy)
    return d if s.decide(c_eq(d)) is None else None


def head_match(s, x, y):
    """do the pieces denote the same elements position by position (up to the shorter)?  True/False/None"""
    if x[0] == 'sl' and y[0] == 'sl':
        if x[1] is not y[1]:
            return False
        return s.decide(c_eq(x[2] - y[2]))
    if x[0] == 'rv' and y[0] == 'rv':
        if x[1] is not y[1]:
            return False
        return s.decide(c_eq(x[3] - y[3]))
    if {x[0], y[0]} == {'sl', 'rv'}:
        sl, rv = (x, y) if x[0] == 'sl' else (y, x)
        if sl[1] is not rv[1]:
            return False
        if s.decide(c_eq(plen(sl) - 1)) is True or s.decide(c_eq(plen(rv) - 1)) is True:
            return s.decide(c_eq(sl[2] - rv[3] + 1))
        return False
    if x[0] == 'st' and y[0] == 'st':
        if x[1] is not y[1]:
            return False
        a = s.decide(c_eq(x[2] - y[2]))
        if a is not True:
            return a
        if s.decide(c_eq(x[4] - 1)) is True or s.decide(c_eq(y[4] - 1)) is True:
            return True
        return s.decide(c_eq(x[3] - y[3]))
    if 'st' in (x[0], y[0]) and {x[0], y[0]} <= {'sl', 'rv', 'st'}:
        stp, o = (x, y) if x[0] == 'st' else (y, x)
        if stp[1] is not o[1]:
            return False
        start = o[2] if o[0] == 'sl' else o[3] - 1
        a = s.decide(c_eq(stp[2] - start))
        if a is not True:
            return a
        if s.decide(c_eq(plen(x) - 1)) is True or s.decide(c_eq(plen(y) - 1)) is True:
            return True
        return s.decide(c_eq(stp[3] - (1 if o[0] == 'sl' else -1)))
    if x[0] == 'one' and y[0] == 'one':
        return val_same(s, x[1], y[1])
    if x[0] == 'op' and y[0] == 'op':
        return True if s.same(s.norm(x[1]), s.norm(y[1])) else False
    if x[0] == 'fill' and y[0] == 'fill':
        return val_same(s, x[1], y[1])
    if {x[0], y[0]} == {'fill', 'one'}:
        return val_same(s, x[1], y[1])
    if x[0] == 'rep' and y[0] == 'rep' and x[1] == y[1]:
        return True
    if x[0] == 'rep' or y[0] == 'rep':
        return False
    return False


def val_same(s, a, b):
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return s.decide(c_eq(a - b))
    if isinstance(a, El) and isinstance(b, El):
        return True if s.same(s.norm(a.t), s.norm(b.t)) else False
    if isinstance(a, Seq) and isinstance(b, Seq):
        return True if all(r for _, r in seq_cmp(s, a.p, b.p)) else False
    if isinstance(a, Struct) and isinstance(b, Struct):
        ks = [k for k in set(a.f) | set(b.f) if k != '__id']
        return True if all(k in a.f and k in b.f and val_same(s, a.f[k], b.f[k]) is True for k in ks) else False
    if isinstance(a, Fl) and isinstance(b, Fl):
        return s.same(a, b)
    if is_cond(a) and is_cond(b):
        da, db = s.decide(a), s.decide(b)
        if da is None or db is None:
            return None
        return da == db
    return False


# ---------------------------------------------------------------- integer points (non-emptiness witnesses of an abstract state)

LEAF_DEFAULT = [0, 1, 2, -1, 3, -2, 4, 5, 7, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1]


def leaves(x, out):
    ts = set()
    subterms(x, ts)
    for t in ts:
        if t.op in REBUILD or t.op == '*' or t.op == 'base':
            continue
        out.add(t)


def find_point(st, extra=(), budget=250):
    """an integer point of the state (plus extra constraints), as an assignment of leaf terms; None if none was found"""
    cons = []
    for l in extra:
        l = norm_ge(st.nl(l))
        if not l.t:
            if l.c < 0:
                return None
            continue
        cons.append(l)
    cons = list(st.cons) + cons
    cnt = [budget]

    def solve(cons, env):
        cs = []
        for c in cons:
            c = norm_ge(c)
            if not c.t:
                if c.c < 0:
                    return None
                continue
            cs.append(c)
        if not cs:
            return env
        cnt[0] -= 1
        if cnt[0] < 0:
            return None
        if infeasible(cs):
            return None
        # choose a leaf without unassigned argument symbols, fewest-args first
        lv = set()
        for c in cs:
            leaves(c, lv)
        pick = None
        for t in sorted(lv, key=lambda t: t.id):
            deps = set()
            for a in (t.args if t.op != 'sym' else ()):
                leaves(a, deps)
            if not (deps - {t}):
                pick = t
                break
        if pick is None:
            pick = sorted(lv, key=lambda t: t.id)[0]
        m = simplex_feasible(sorted(cs, key=lambda l: (tuple(k.id for k, _ in l.t), l.c)))
        cand = []
        if m and pick in m:
            v = m[pick]
            f = v.numerator // v.denominator
            cand = [f, f + 1]
        base = LEAF_DEFAULT
        if pick.op == 'at':
            k = sum(ord(c) for c in repr(pick)) % 20
            base = [97 + k, 98 + k, 48 + k % 10, 48, 49, 57, 65 + k, 32] + LEAF_DEFAULT
        small = [v for v in base if abs(v) < 200]
        big = [v for v in base if abs(v) >= 200]
        order = []
        for v in small + cand + big:
            if v not in order:
                order.append(v)
        for v in order:
            mm = {pick: Lin(v)}
            if any(_viol(c, pick, v) for c in cs):
                continue
            r = solve([subst_lin(c, mm) for c in cs], env + [(pick, v)])
            if r is not None:
                return r
            if cnt[0] < 0:
                return None
        return None

    return solve(cons, [])


def _viol(c, pick, v):
    if len(c.t) == 1 and c.t[0][0] is pick:
        return c.c + c.t[0][1] * v < 0
    return False


class Point:
    """evaluation of abstract values at an integer point of a state"""

    def __init__(self, st, env):
        self.st = st
        self.m = {k: Lin(v) for k, v in env}
        self.auto = {}

    def lin(self, l):
        l = self.st.nl(l)
        for _ in range(30):
            if not l.t:
                return l.c
            n = subst_lin(l, self.m)
            if n == l:
                lv = set()
                leaves(l, lv)
                lv = [t for t in sorted(lv, key=lambda t: t.id) if t not in self.m]
                # assign defaults to unconstrained leaves (innermost first)
                done = False
                for t in lv:
                    deps = set()
                    for a in (t.args if t.op != 'sym' else ()):
                        leaves(a, deps)
                    if not (deps - {t} - set(self.m)):
                        if t.op == 'at':
                            self.m[t] = Lin(33 + (sum(ord(c) for c in repr(t)) * 7 + len(self.m)) % 90)
                        else:
                            self.m[t] = Lin(0)
                        done = True
                        break
                if not done:
                    raise Giveup('cannot evaluate %r' % l)
                continue
            l = n
        raise Giveup('evaluation')

    def term(self, t):
        t = self.st.norm(t)
        if isinstance(t, Lin):
            return self.lin(t)
        if t.op == 'sym' or t.op == 'base':
            return t.args[0] if not isinstance(t.args[0], Term) else self.term(t.args[0])
        return (t.op,) + tuple(self.any(a) for a in t.args)

    def any(self, a):
        if isinstance(a, Lin):
            return self.lin(a)
        if isinstance(a, Term):
            return self.term(a)
        if isinstance(a, El):
            return self.term(a.t)
        if isinstance(a, Fl):
            return self.term(a.t) if isinstance(a.t, Term) else ('f', a.t)
        if isinstance(a, Seq):
            return ('seq',) + tuple(self.pieces(a.p, a.et))
        if isinstance(a, Struct):
            return (a.cls,) + tuple((k, self.any(v)) for k, v in sorted(a.f.items()) if k != '__id')
        if isinstance(a, tuple):
            return tuple(self.any(x) for x in a)
        return a

    def pieces(self, ps, et=None):
        out = []
        for p in ps:
            k = p[0]
            if k in ('sl', 'rv'):
                lo, hi = self.lin(p[2]), self.lin(p[3])
                if hi - lo > 2000:
                    raise Giveup('too long')
                r = range(lo, hi)
                for i in (r if k == 'sl' else reversed(r)):
                    out.append(self.at(p[1], i, et))
            elif k == 'one':
                out.append(self.any(p[1]))
            elif k == 'fill':
                n = self.lin(p[2])
                if n > 2000:
                    raise Giveup('too long')
                out += [self.any(p[1])] * n
            elif k == 'st':
                a, d, n = self.lin(p[2]), self.lin(p[3]), self.lin(p[4])
                if n > 2000:
                    raise Giveup('too long')
                for i in range(n):
                    out.append(self.at(p[1], a + i * d, et))
            elif k == 'rep':
                n = self.lin(p[2])
                if n > 500:
                    raise Giveup('too long')
                out += self.pieces(p[1], et) * n
            elif k == 'op':
                n = self.lin(p[2])
                if n > 500:
                    raise Giveup('too long')
                key = self.term(p[1])
                out += [('at', key, i) for i in range(n)]
            else:
                raise Giveup('eval piece')
        return out

    def at(self, base, i, et=None):
        if et and et.get('int'):
            return self.lin(L(Term('at', base, Lin(i))))
        return ('at', self.term(base), i)

    def consistent(self):
        seen = {}
        for a, v in self.st.atoms.items():
            k = self.term(a)
            if seen.setdefault(k, v) != v:
                return False
            if isinstance(k, tuple) and k[0] == 'eqel' and k[1] == k[2] and v is False:
                return False
            if isinstance(k, tuple) and k[0] == 'ltel' and k[1] == k[2] and v is True:
                return False
        return True

    def show(self):
        return ', '.join('%r=%s' % (k, v.c) for k, v in self.m.items())
