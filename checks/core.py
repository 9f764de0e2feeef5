"""Specifications as first-match decision lists, and their comparison with the abstract outcomes of a function."""
import itertools
import os
import random
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from engine.interp import *          # noqa
from engine import interp as _interp, stdlib, loops, model, sets, flt   # noqa
from engine.dom import *             # noqa
from engine.stdlib import findpos, cnt, filtered, GEN, cset, seqkey   # noqa

KIND_PROP = {'empty': 'C20', 'full': 'C21', 'zero': 'C11', 'step': 'C11', 'times': 'C11', 'sep': 'C11', 'base': 'C11', 'domain': 'C11', 'key': 'C14'}


def exc_kind(e):
    if not isinstance(e, Exc) or not isinstance(e.msg, str):
        return None
    m = e.msg
    for pat, k in (('out of range', 'range'), ('container is empty', 'empty'), ('maximum size', 'full'), ('Divide by zero', 'zero'), ('step can not', 'step'),
                   ('Times to repeat', 'times'), ('Empty separator', 'sep'), ('Invalid base', 'base'), ('Invalid literal', 'literal'), ('literal', 'literal'),
                   ('not found', 'key'), ('Math domain', 'domain'), ('factorial', 'domain'), ('square root', 'domain'), ('digits', 'domain')):
        if pat in m:
            return k
    return None


class Throw:
    def __init__(self, *kinds):
        self.kinds = kinds


class Ret:
    """val: None = unspecified; post: pieces/value of this (default unchanged); args: {index: value}"""

    def __init__(self, val=None, post=None, args=None, tags=(), limit=None):
        self.val, self.post, self.args, self.tags, self.limit = val, post, args or {}, tags, limit


class Any:
    """no obligation beyond memory safety and leaving arguments alone"""
    pass


class Either:
    """both a documented rejection and the documented result are acceptable here"""

    def __init__(self, throw, ret):
        self.throw, self.ret = throw, ret


class Skip:
    """outside the precondition"""
    pass


class Self:
    """reference to *this"""
    pass


class Ref:
    def __init__(self, idx, root='this', fld=None):
        self.idx, self.root, self.fld = L(idx), root, fld

    def fits(self, a):
        comps = [x for x in a.path if x[0] == 'e']
        return a.root == self.root and len(comps) == 1 and (a.path[-1][0] == 'e' if self.fld is None else a.path[-1] == ('f', self.fld))


class RefArg:
    """reference to argument i"""

    def __init__(self, i):
        self.i = i


class Pos:
    """iterator into this at a position"""

    def __init__(self, pos, rev=False):
        self.pos, self.rev = L(pos), rev


class PS:
    """a sequence value given by pieces"""

    def __init__(self, p):
        self.p = tuple(p)


class Q:
    """the fraction num/den in lowest terms with positive denominator; num, den integer polynomials of the arguments"""

    def __init__(self, n, d):
        self.n, self.d = L(n), L(d)

    def fits(self, m):
        """is the value representable in the concrete model"""
        n, d = m.lin(self.n), m.lin(self.d)
        if d == 0:
            return False
        f = model.Rational(n, d)
        return INT_MIN <= f.numerator <= INT_MAX and f.denominator <= INT_MAX


class Lazy:
    """value computed in the final state: f(ctx, st) -> spec value"""

    def __init__(self, f):
        self.f = f


def key_of(P, f):
    """stable identity of a public function: class short name, method, parameter categories"""
    cls = short_cls(P.T(f['cls'])['s']) if 'cls' in f else ''
    return '%s.%s(%s)%s' % (cls, f['name'], ','.join(cat(P, p['t'], f) for p in f['params']), ' const' if f.get('const') else '')


def short_cls(s):
    s = s.replace('pyincpp::', '')
    m = re.match(r'(List|Deque|Set|Dict)<', s)
    return m.group(1) if m else s


def cat(P, ti, f=None):
    t = P.T(ti)
    s = P.strip(ti)
    suf = '&&' if t['k'] == 'rref' else ''
    if s['k'] == 'bool':
        return 'bool'
    if s['k'] in ('int', 'enum'):
        return {'int': 'int', 'char': 'char', 'signed char': 'schar'}.get(s['s'].replace('const ', ''), s['s'])
    if s['k'] == 'double':
        return 'double'
    n = s['s'].replace('const ', '')
    if n in ('vt::E', 'vt::K'):
        return 'elem' if n == 'vt::E' else 'key'
    if 'iterator' in n:
        return 'iter'
    n = n.replace('pyincpp::', '')
    m = re.match(r'(List|Deque|Set|Dict)<', n)
    if m:
        return m.group(1) + suf
    m = re.match(r'std::(\w+)', n)
    if m:
        return {'basic_string': 'string', 'initializer_list': 'init'}.get(m.group(1), m.group(1)) + suf
    if s['k'] == 'ptr':
        return 'ptr' if 'char' in n else 'fnptr'
    return n + suf


def seq_of(v):
    """the single sequence inside a library value, or the value itself"""
    if isinstance(v, Seq):
        return v
    if isinstance(v, Struct):
        ss = [x for x in v.f.values() if isinstance(x, Seq)]
        if len(ss) == 1:
            return ss[0]
    return None


class Ctx:
    """pre-state of an analysed call"""

    def __init__(self, I, f, st):
        self.I, self.f, self.st = I, f, st
        self.args = []          # pre-values
        self.actual = []        # what is passed
        self.this = None
        self.mode = ''
        self.kinds = {}
        self.pairbases = set()
        self.outcome = None

    def term(self, name):
        return Term('sym', name)

    # convenience for single-sequence classes
    @property
    def S(self):
        return seq_of(self.this).p

    @property
    def n(self):
        return pslen(self.S)

    @property
    def B(self):
        return self.S[0][1]

    def a(self, i):
        return self.args[i]

    def ap(self, i):
        return seq_of(self.args[i]).p

    def sl(self, lo, hi):
        return ('sl', self.B, L(lo), L(hi))


def len_bounds(st, v, hi=INT_MAX, lo=0):
    if isinstance(v, Seq):
        st.add_ge(slen(v) - lo)
        st.add_ge(L(hi) - slen(v))
    elif isinstance(v, Struct):
        for k, w in v.f.items():
            if k != '__id':
                len_bounds(st, w, hi)


def build(P, f, mode='', maxn=INT_MAX - 1, defaults=()):
    """symbolic pre-state of a call of f.  mode: '' independent arguments, 'self' an argument is *this,
    'elem' an argument is an element of *this, 'range' iterator arguments point into *this"""
    I = Interp(P)
    st = State()
    c = Ctx(I, f, st)
    c.mode = '' if mode == 'default' else mode
    c.defaulted = mode == 'default'
    cls = 'cls' in f and P.rec(f['cls'])
    addr = None
    if cls:
        if f.get('ctor'):
            st.store['this'] = I.default_record(cls)
            c.this = st.store['this']
            addr = Addr('this')
        elif f.get('static') is not True:
            st.store['this'] = I.mk_record(cls, Term('sym', 'S'))
            c.this = st.store['this']
            len_bounds(st, c.this, maxn)
            INV(c, st, c.this)
            addr = Addr('this')
    src = None
    last = ZERO
    used = False
    its = 0
    for i, p in enumerate(f['params']):
        t = P.T(p['t'])
        s = P.strip(p['t'])
        nm = 'a%d' % i
        ct = cat(P, p['t'])
        if i in defaults and mode == 'default':
            # the caller leaves the argument out: the documented value for the specification, the expression of the program for the call
            if 'def' not in p:
                raise Giveup('no default argument %d' % i)
            rs = I.ev(st, p['def'])
            if len(rs) != 1:
                raise Giveup('default argument %d' % i)
            st2, v = rs[0]
            if st2 is not st:
                c.st = st = st2
            if t['k'] not in ('ref', 'rref') and s['k'] != 'ptr':
                v = I.rv(st, v, p['def'])[0][1]
            elif not isinstance(v, Addr) and s['k'] != 'ptr':
                v = st.alloc(v, nm)
            c.args.append(defaults[i])
            c.actual.append(v)
            continue
        if ct == 'iter':
            if mode == 'range':
                fld = [k for k, v in c.this.f.items() if isinstance(v, Seq)][0]
                loc = Addr('this').fld(fld)
                n = c.n
            else:
                if src is None:
                    et = {'s': 'E', 'ti': None}
                    ts = seq_of(c.this)
                    if ts is not None and ts.kind == 'map':
                        et = ts.et
                        c.pairbases.add('X')
                    X = Seq((('sl', Term('base', Term('sym', 'X')), ZERO, t_len(Term('base', Term('sym', 'X')))),), 'vector', et)
                    src = st.alloc(X, 'src')
                    len_bounds(st, X, maxn)
                    c.X = X
                loc = src
                n = slen(c.X)
            q = L(sym('it%d' % its))
            its += 1
            st.add_ge(q - last)
            st.add_ge(n - q)
            last = q
            v = Iter(loc, q)
            c.args.append(q)
            c.actual.append(v)
            continue
        if t['k'] in ('ref', 'rref') and mode == 'self' and cls and same_cls(P, s, f) and not used:
            used = True
            c.args.append(c.this)
            c.actual.append(addr)
            continue
        if t['k'] in ('ref', 'rref') and mode == 'elem' and ct in ('elem', 'char', 'key') and not used:
            used = True
            fld = [k for k, v in c.this.f.items() if isinstance(v, Seq)][0]
            j = L(sym('j'))
            st.add_ge(j)
            st.add_ge(c.n - 1 - j)
            c.alias_idx = j
            et = c.this.f[fld].et
            v, a = mk_at(c.B, j, et), Addr('this').fld(fld).el(j, 0)
            if c.this.f[fld].kind == 'map':
                v, a = v.f['first'], a.fld('first')
            c.args.append(v)
            c.actual.append(a)
            continue
        if s['k'] == 'ptr' and ct == 'fnptr':
            v = Obj('opaquefn', Term('sym', nm))
        elif s['k'] == 'ptr' and ct == 'ptr':
            sq = I.mk_generic_string(Term('sym', nm)) if hasattr(I, 'mk_generic_string') else Seq((('sl', Term('base', Term('sym', nm)), ZERO, t_len(Term('base', Term('sym', nm)))),), 'cstrz', _interp.CHAR)
            len_bounds(st, sq, maxn)
            a = st.alloc(sq, nm)
            c.args.append(sq)
            c.actual.append(Iter(a, ZERO, ptr=True))
            continue
        elif ct == 'basic_ostream':
            v = OStream()
        else:
            v = I.mk_generic(p['t'], Term('sym', nm))
        if s['k'] in ('int', 'enum', 'bool') and isinstance(v, Lin):
            lo, hi = int_range(s)
            st.add_ge(v - lo)
            st.add_ge(L(hi) - v)
        len_bounds(st, v, maxn)
        INV(c, st, v)
        c.args.append(v)
        if t['k'] in ('ref', 'rref'):
            v = st.alloc(v, nm)
        c.actual.append(v)
    c.addr = addr
    c.reg_kinds()
    return c


def same_cls(P, s, f):
    return 'cls' in f and s['s'].replace('const ', '') == P.T(f['cls'])['s'].replace('const ', '')


INVS = []


def INV(c, st, v):
    for h in INVS:
        h(c, st, v)


def _reg_kinds(self):
    """which base sequences hold integers (for concretisation)"""
    def go(v):
        if isinstance(v, Seq):
            if v.et and v.et.get('int'):
                self.default_int = True
        elif isinstance(v, Struct):
            for k, w in v.f.items():
                if k != '__id':
                    go(w)
    self.default_int = False
    if self.this is not None:
        go(self.this)
    for a in self.args:
        go(a)


Ctx.reg_kinds = _reg_kinds


def leaves(c):
    """the numbers that fix the shape of a pre-state: lengths, positions and integers, as linear expressions"""
    out = []

    def go(v, deep):
        if isinstance(v, Lin):
            out.append(('int', v))
        elif isinstance(v, Seq):
            out.append(('len', slen(v)))
        elif isinstance(v, Struct) and deep < 3:
            for k in sorted(v.f):
                if k != '__id':
                    go(v.f[k], deep + 1)
    if c.this is not None and not c.f.get('ctor'):
        go(c.this, 0)
    if hasattr(c, 'X'):
        go(c.X, 0)
    for a in c.args:
        go(a, 0)
    return [(k, l) for k, l in out if not l.is_const()]


def shapes(c, most=70):
    """small values for the shape of a pre-state"""
    ls = leaves(c)
    dom = {'len': [2, 1, 0, 3], 'int': [1, 0, 2, -1, 3, -2, -3, 4]}
    seen = 0
    for total in range(0, 3 * max(1, len(ls)) + 8):
        for idx in itertools.product(*[range(len(dom[k])) for k, _ in ls]):
            if sum(idx) != total:
                continue
            yield [dom[k][i] for (k, _), i in zip(ls, idx)]
            seen += 1
            if seen >= most:
                return
        if not ls:
            return


def literals(n, out):
    """integer literals of a body"""
    if isinstance(n, dict):
        if n.get('k') == 'int' and isinstance(n.get('v'), int) and not n.get('ch'):
            out.add(n['v'])
        for v in n.values():
            if isinstance(v, (dict, list)):
                literals(v, out)
    elif isinstance(n, list):
        for v in n:
            literals(v, out)
    return out


def beyond(c, f, most=800):
    """shapes just above the sizes the body mentions"""
    ls = leaves(c)
    if not any(k == 'len' for k, _ in ls):
        return
    r = random.Random(11)
    for k in sorted(literals(f.get('body'), set())):
        if not 3 < k <= 200:
            continue
        n = k + 2
        dom = [0, 1, -1, n, n - 1, -n, -n - 1, k, 2]
        ints = [v for v, _ in ls if v != 'len']
        pts = list(itertools.product(dom, repeat=len(ints))) if len(ints) < 4 else [tuple(r.choice(dom) for _ in ints) for _ in range(most)]
        r.shuffle(pts)
        for p in pts[:most]:
            it = iter(p)
            yield [n if v == 'len' else next(it) for v, _ in ls]


class Problem:
    pin = None

    def __init__(self, props, what, fn, loc, witness):
        self.props, self.what, self.fn, self.loc, self.witness = props, what, fn, loc, witness


class Result:
    def __init__(self):
        self.outcomes = 0
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.problems = []
        self.kinds = set()
        self.time = 0


class Spec:
    """decision list of one public function"""

    def __init__(self, key, cases, value=(), acc=(), ub=(), modes=(), maxn=INT_MAX - 1, query=False, throws=('empty', 'full', 'zero', 'step', 'times', 'sep', 'base', 'domain', 'key'), optional=False, defaults=None):
        self.defaults = defaults or {}
        self.throws = throws
        self._kinds = None
        self.optional = optional
        self.key, self.cases = key, cases
        self.value, self.acc, self.ub = tuple(value), tuple(acc), tuple(ub)
        self.modes = ('',) + tuple(modes) + (('default',) if defaults else ())
        self.maxn = maxn
        self.query = query

    def kinds(self):
        """properties decided by the documented rejections of this function"""
        if self._kinds is None:
            self._kinds = {KIND_PROP[k] for k in self.throws if k in KIND_PROP}
        return self._kinds

    def props(self):
        return set(self.value) | set(self.acc) | set(self.ub)


def close_eqs(st):
    """turn entailed equalities into substitutions"""
    again = True
    while again:
        again = False
        for c in st.cons:
            if not any(abs(v) == 1 and k.op != '*' for k, v in c.t):
                continue
            if entails(st.cons, -c):
                s = st.copy()
                if not s.add_eq(c):
                    return None
                if any(d == c for d in s.cons):
                    continue
                st, again = s, True
                break
    return st


def fork_cases(st, cases):
    """(state, case) pairs covering st, first match wins"""
    rest = [st]
    for cond, out in cases:
        nxt = []
        for s in rest:
            if cond is True:
                yield s, out
                continue
            t, f = s.fork(cond)
            for x in t:
                yield x, out
            nxt += f
        if cond is True:
            return
        rest = nxt


def cmp_val(c, st, impl, spec):
    """list of (state, equal?)"""
    return [(s, eq) for s, eq in _cmp_val(c, st, impl, spec) if eq or not flt.infeasible(s.atoms)]


def _cmp_val(c, st, impl, spec):
    if isinstance(spec, Lazy):
        out = []
        r = spec.f(c, st)
        for s, v in r if isinstance(r, list) else [(st, r)]:
            out += _cmp_val(c, s, impl, v)
        return out
    if spec is None:
        return [(st, True)]
    I = c.I
    if isinstance(spec, Self):
        return [(st, isinstance(impl, Addr) and impl == Addr('this'))]
    if isinstance(spec, RefArg):
        a = c.actual[spec.i]
        return [(st, isinstance(impl, Addr) and isinstance(a, Addr) and impl == a)]
    if isinstance(spec, Ref):
        if not isinstance(impl, Addr):
            return [(st, False)]
        comps = [x for x in impl.path if x[0] == 'e']
        if not spec.fits(impl):
            return [(st, False)]
        t, f = st.fork(c_eq(comps[0][1] - spec.idx))
        return [(x, True) for x in t] + [(x, False) for x in f]
    if isinstance(spec, Pos):
        if not isinstance(impl, Iter) or impl.addr.root != 'this' or bool(impl.rev) != spec.rev:
            return [(st, False)]
        t, f = st.fork(c_eq(impl.pos - spec.pos))
        return [(x, True) for x in t] + [(x, False) for x in f]
    out = []
    if isinstance(impl, Addr):
        rs = I.read(st, impl)
    else:
        rs = [(st, impl)]
    for s, v in rs:
        out += cmp_rv(c, s, v, spec)
    return out


def cmp_rv(c, s, v, spec):
    if isinstance(spec, PS):
        if isinstance(v, OStream):
            return seq_cmp(s, v.toks, spec.p)
        sq = seq_of(v)
        if sq is None:
            return [(s, False)]
        if sq.kind in ('set', 'map'):
            return sets.set_cmp(c.I, s, sq.p, spec.p, sq.kind)
        return seq_cmp(s, sq.p, spec.p)
    if spec is VOID:
        return [(s, True)]
    if isinstance(v, Unknown):
        return [(s.tainted('unknown value'), False)]
    if isinstance(spec, Q):
        return [(s, q_same(c, s, v, spec))]
    if isinstance(spec, Lin) and isinstance(v, Lin):
        t, f = s.fork(c_eq(v - spec))
        return [(x, True) for x in t] + [(x, False) for x in f]
    if isinstance(spec, Fl) and isinstance(v, Fl):
        return [(s, flt.same(v, spec))]
    if is_cond(spec):
        if isinstance(v, Lin):
            v = c_not(c_eq(v))
        if not is_cond(v):
            return [(s, False)]
        out = []
        t, f = s.fork(v)
        for x in t:
            a, b = x.fork(spec)
            out += [(y, True) for y in a] + [(y, False) for y in b]
        for x in f:
            a, b = x.fork(spec)
            out += [(y, False) for y in a] + [(y, True) for y in b]
        return out
    if isinstance(spec, Struct) and isinstance(v, Struct):
        cur = [(s, True)]
        for k in spec.f:
            if k == '__id':
                continue
            nxt = []
            for x, ok in cur:
                if not ok:
                    nxt.append((x, ok))
                    continue
                if k not in v.f:
                    nxt.append((x, False))
                    continue
                sp = spec.f[k]
                nxt += cmp_rv(c, x, v.f[k], PS(sp.p) if isinstance(sp, Seq) else sp)
            cur = nxt
        return cur
    if isinstance(spec, Obj) and hasattr(c, 'cmp_obj') and isinstance(v, Obj):
        r = c.cmp_obj(s, v, spec)
        if r is not None:
            return r
    r = val_same(s, v, spec)
    return [(s, r is True)]


def exq_terms(*ls):
    out = set()
    for l in ls:
        for t in l.syms():
            for f in (t.args if t.op == '*' else (t,)):
                if isinstance(f, Term) and f.op == 'exq':
                    out.add(f)
    return out


def clear(l, g):
    """l * g with the exact quotients by g cancelled; None if a term is not such a quotient"""
    out = ZERO
    for t, v in l.t:
        if t.op != 'exq' or L(t.args[1]) != L(g):
            return None
        out = out + L(t.args[0]).scale(v)
    return out if l.c == 0 else None


def q_same(c, s, v, spec):
    """the stored pair is provably spec.n/spec.d in lowest terms with a positive denominator"""
    if not isinstance(v, Struct):
        return False
    try:
        n, d = s.nl(v.f['numerator_']), s.nl(v.f['denominator_'])
    except (KeyError, AttributeError):
        return False
    if s.decide(c_ge(d - 1)) is not True:
        return False
    gs = {L(t.args[1]) for t in exq_terms(n, d)}
    if len(gs) > 1:
        return False
    N, D = n, d
    coprime = s.nl(t_gcd(n, d)) == ONE
    if gs:
        g = gs.pop()
        a, b = clear(n, g), clear(d, g)
        if a is None or b is None:
            return False
        N, D = a, b
        gt = g.t[0][0]
        coprime = gcd_divides(N, g) and gcd_divides(D, g) and (N != D and N != -D) and gt.op == 'gcd'
    if not coprime and n.t and d.t:
        # gcd(n + k*d, d) = gcd(n, d)
        for k in range(-3, 4):
            if s.nl(t_gcd(n + d.scale(k), d)) == ONE:
                coprime = True
    if not coprime:
        return False
    return s.nl(s.nl(N * spec.d) - s.nl(D * spec.n)) == ZERO or s.entails_eq(s.nl(N * spec.d - D * spec.n))


def q_out(s, q):
    """the path condition shows that the reduced fraction q does not fit"""
    cand = {}
    for l in s.cons:
        for t in exq_terms(l):
            cand.setdefault(L(t.args[1]), set()).add(t)
    out = lambda n, d: s.decide(c_ge(d - 1)) is True and s.decide(c_or(c_ge(n - INT_MAX - 1), c_or(c_ge(INT_MIN - 1 - n), c_ge(d - INT_MAX - 1)))) is True
    if s.nl(t_gcd(s.nl(q.n), s.nl(q.d))) == ONE and (out(q.n, q.d) or out(-q.n, -q.d)):
        return True
    for g, ts in cand.items():
        gt = g.t[0][0] if g.t else None
        if gt is None or gt.op != 'gcd':
            continue
        x, y = L(gt.args[0]), L(gt.args[1])
        for N, D in ((x, y), (y, x)):
            z = s.nl(N * q.d - D * q.n)
            z2 = s.nl(N * q.d + D * q.n)
            if z == ZERO or z2 == ZERO or s.entails_eq(z) or s.entails_eq(z2):
                qn, qd = t_exq(N, g), t_exq(D, g)
                if z != ZERO and not s.entails_eq(z):
                    qn = -qn
                for sg in (1, -1):
                    n, d = qn.scale(sg), qd.scale(sg)
                    if out(n, d):
                        return True
    return False


def differs(m, c, impl, spec, st):
    """concrete disagreement of two values in a model"""
    if isinstance(spec, Lazy):
        spec = spec.f(c, st)
        if isinstance(spec, list):
            if len(spec) != 1:
                raise model.Unk('ambiguous specification')
            spec = spec[0][1]
    if spec is None:
        return False
    if isinstance(spec, Self):
        return not (isinstance(impl, Addr) and impl == Addr('this'))
    if isinstance(spec, RefArg):
        a = c.actual[spec.i]
        return not (isinstance(impl, Addr) and isinstance(a, Addr) and impl == a)
    if isinstance(spec, Ref):
        if not isinstance(impl, Addr):
            return True
        comps = [x for x in impl.path if x[0] == 'e']
        if not spec.fits(impl):
            return True
        return m.lin(comps[0][1]) != m.lin(spec.idx)
    if isinstance(spec, Pos):
        if not isinstance(impl, Iter) or impl.addr.root != 'this' or bool(impl.rev) != spec.rev:
            return True
        return m.lin(impl.pos) != m.lin(spec.pos)
    if isinstance(impl, Addr):
        rs = c.I.read(st, impl)
        if len(rs) != 1:
            raise model.Unk('ambiguous read')
        impl = rs[0][1]
    return differs_rv(m, c, impl, spec)


def differs_rv(m, c, v, spec):
    if isinstance(spec, PS):
        p = v.toks if isinstance(v, OStream) else (seq_of(v).p if seq_of(v) is not None else None)
        if p is None:
            raise model.Unk('no sequence')
        if not isinstance(v, OStream) and seq_of(v).kind in ('set', 'map'):
            a, b = m.pieces(p), m.pieces(spec.p)
            if a.n != b.n:
                return True
            return a.n <= model.BIG and model.bag(a.list()) != model.bag(b.list())
        return m.pieces(p).differs(m.pieces(spec.p))
    if spec is VOID:
        return False
    if isinstance(v, Unknown):
        raise model.Unk('unknown')
    if isinstance(spec, Q):
        n, d = m.lin(v.f['numerator_']), m.lin(v.f['denominator_'])
        sd = m.lin(spec.d)
        if sd == 0:
            raise model.Unk('undefined fraction')
        r = model.Rational(m.lin(spec.n), sd)
        return (n, d) != (r.numerator, r.denominator)
    if isinstance(spec, Fl) and isinstance(v, Fl):
        return flt.apart(m.flt(v.t), m.flt(spec.t))
    if is_cond(spec):
        a = m.cond(v) if is_cond(v) else bool(m.lin(v))
        return a != m.cond(spec)
    if isinstance(spec, Struct) and isinstance(v, Struct):
        for k in spec.f:
            if k == '__id':
                continue
            sp = spec.f[k]
            if differs_rv(m, c, v.f[k], PS(sp.p) if isinstance(sp, Seq) else sp):
                return True
        return False
    return m.val(v) != m.val(spec)


def describe(m, c):
    out = []

    def show(v):
        try:
            if isinstance(v, Struct):
                sq = seq_of(v)
                if sq is not None and len(v.f) <= 2:
                    return repr(m.pieces(sq.p))
                return '{' + ', '.join('%s=%s' % (k, show(w)) for k, w in v.f.items() if k != '__id') + '}'
            if isinstance(v, Seq):
                return repr(m.pieces(v.p))
            if isinstance(v, Lin):
                return str(m.lin(v))
            return model.show(m.val(v))
        except Exception:
            return '?'
    if c.this is not None and not c.f.get('ctor'):
        out.append('this=' + show(c.this))
    for i, a in enumerate(c.args):
        nm = c.f['params'][i].get('name') or 'arg%d' % i
        out.append('%s=%s' % (nm, show(a)))
    if hasattr(c, 'X'):
        out.append('range over ' + show(c.X))
    if c.__dict__.get('defaulted'):
        out.append('(the other arguments left out)')
    if c.mode:
        out.append('(argument aliases the object: %s)' % c.mode)
    return '; '.join(out)


def witness(c, st, goal, extra=(), trials=40):
    if st.taint:
        return None
    for m in model.models(st, c.kinds, c.default_int, trials=trials, extra=extra, pairbases=c.pairbases):
        try:
            if goal(m):
                try:
                    c.pin = [m.lin(l) for _, l in leaves(c)]
                except Exception:
                    c.pin = None
                return describe(m, c)
        except model.Unk:
            continue
        except Giveup:
            continue
    return None


ENDLESS = 'loop without reachable exit'


def ub_props(what):
    return ('C18',) if ENDLESS in str(what) else ('C19',)


class Analyser:
    def __init__(self, P, specs, budget=60):
        self.P = P
        self.specs = {s.key: s for s in specs}
        self.cache = {}
        self.wit = 40

    def functions(self):
        out = {}
        for f in self.P.fns.values():
            if 'body' not in f and not f.get('defaulted'):
                continue
            cls = self.P.T(f['cls'])['s'] if 'cls' in f else ''
            if 'lambda' in cls:
                continue
            out.setdefault(key_of(self.P, f), f)
        return out

    def analyse(self, key, mode=''):
        if (key, mode) in self.cache:
            return self.cache[key, mode]
        spec = self.specs[key]
        f = self.fn[key]
        res = Result()
        t0 = time.time()
        self.cache[key, mode] = res
        try:
            self._analyse(spec, f, mode, res)
        except Giveup as e:
            res.undecided.append('not analysable: %s' % e)
        except RecursionError:
            res.undecided.append('recursion limit')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res.undecided.append('internal: %r at %s:%d' % (e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('VT_CRASH'):
                traceback.print_exc()
        try:
            if res.problems:
                self.confirm(spec, f, mode, res)
            elif res.undecided:
                self.seek(spec, f, mode, res)
        except Exception as e:
            if os.environ.get('VT_CRASH'):
                traceback.print_exc()
            res.undecided.append('internal: %r' % (e,))
        res.time = time.time() - t0
        return res

    def confirm(self, spec, f, mode, res):
        """the function is analysed again with the shape of each counterexample and without loop summaries"""
        keep = []
        done = {}
        for p in res.problems:
            if p.pin is None or any(abs(x) > 16 for x in p.pin):
                keep.append(p)
                continue
            k = tuple(p.pin)
            if k not in done:
                r = Result()
                try:
                    done[k] = (r, self._analyse(spec, f, mode, r, p.pin))
                except Exception:
                    done[k] = (r, False)
            r, whole = done[k]
            if whole and not r.problems and not r.undecided and r.obligations:
                res.undecided.append('%s:%s %s (refuted by the analysis without loop summaries; %s)' % (p.loc + (p.what, p.witness)))
            else:
                keep.append(p)
        res.problems = keep

    def seek(self, spec, f, mode, res):
        """no proof: counterexamples of a small shape, without loop summaries"""
        t0 = time.time()
        c = build(self.P, f, mode, spec.maxn, spec.defaults)
        for pin in itertools.chain(shapes(c), beyond(c, f)):
            if time.time() - t0 > 45:
                return
            r = Result()
            try:
                self._analyse(spec, f, mode, r, pin)
            except Exception:
                continue
            if r.problems:
                res.problems += r.problems[:3]
                return

    def _analyse(self, spec, f, mode, res, pin=None):
        self.wit = getattr(spec, 'wit', 40)
        c = build(self.P, f, mode, spec.maxn, spec.defaults)
        if pin is not None:
            c.I.unroll = max([24] + [v + 8 for (k, _), v in zip(leaves(c), pin) if k == 'len'])
            c.I.budget = 20000
            c.I.lasso = True
            for (_, l), v in zip(leaves(c), pin):
                if not c.st.add_eq(l - v) or c.st.empty():
                    return False
        if spec.__dict__.get('setup'):
            spec.setup(c)
        cases = spec.cases(c)
        for _, k in cases:
            k = k.throw if isinstance(k, Either) else k
            if isinstance(k, Throw):
                res.kinds |= {KIND_PROP[x] for x in k.kinds if x in KIND_PROP}
        pre = {k: v for k, v in c.st.store.items()}
        try:
            outs = c.I.run(c.st, f['fid'], c.addr, c.actual)
        except loops.Lasso as e:
            w = witness(c, e.st, lambda m: True, (), self.wit)
            if w is not None:
                self.add(res, c, spec, ('C18',) + tuple(spec.value), 'an iteration of the loop at line %s changes nothing: the call never returns' % e.line, (c.f['file'].split('/')[-1], e.line), w)
            return False
        res.outcomes = len(outs)
        if not outs:
            res.undecided.append('no outcome')
        for o in outs:
            for s, case in fork_cases(o.st, cases):
                if isinstance(case, Skip):
                    continue
                s = close_eqs(s)
                if s is None or s.empty() or flt.infeasible(s.atoms):
                    continue
                res.obligations += 1
                self.judge(spec, c, o, s, case, pre, res)
        return not c.I.partial

    def add(self, res, c, spec, props, what, loc, w):
        if c.mode:
            props = ('C06',)
        res.problems.append(Problem(tuple(sorted(set(props))), what, spec.key, loc, w))
        res.problems[-1].pin = c.__dict__.get('pin')

    def judge(self, spec, c, o, s, case, pre, res):
        c.outcome = o
        loc = (o.file, o.line) if o.line else (c.f['file'].split('/')[-1], c.f['line'])
        if o.kind == 'ub':
            # sizes of exactly INT_MAX are outside the analysed bound
            ex = []
            for v in [c.this] + c.args:
                if v is not None and seq_of(v) is not None:
                    ex.append(L(INT_MAX - 1) - slen(seq_of(v)))
            w = witness(c, s, lambda m: True, ex, self.wit)
            ov = any(x in str(o.val) for x in ('overflow', 'narrow', 'division', 'conversion'))
            if w is None:
                res.undecided.append('%s:%s %s (no concrete witness)' % (loc + (o.val,)))
            else:
                cs = case.throw if isinstance(case, Either) else case
                kp = tuple(KIND_PROP[k] for k in cs.kinds if k in KIND_PROP) if isinstance(cs, Throw) else ()
                self.add(res, c, spec, (('C19',) if ov else ()) + (('C18',) if ENDLESS in str(o.val) else ()) + kp + (spec.ub or spec.acc or spec.value), 'undefined behaviour: %s' % (o.val,), loc, w)
            return
        if isinstance(case, Either):
            case = case.throw if o.kind == 'throw' else case.ret
        if isinstance(case, Any):
            res.discharged += 1
            return
        if isinstance(case, Throw):
            if o.kind == 'ret':
                w = witness(c, s, lambda m: True, (), self.wit)
                props = [KIND_PROP[k] for k in case.kinds if k in KIND_PROP]
                if w is None:
                    res.undecided.append('%s:%s accepted, expected %s error (no concrete witness)' % (loc + ('/'.join(case.kinds),)))
                else:
                    self.add(res, c, spec, tuple(props) + spec.acc, 'accepted although the %s error is documented' % '/'.join(case.kinds), loc, w)
                return
            ek = exc_kind(o.val)
            bad = None
            if not isinstance(o.val, Exc) or o.val.type != 'std::runtime_error':
                bad = 'throws %r instead of std::runtime_error' % (o.val,)
                props = spec.acc
            elif ek is not None and ek not in case.kinds:
                bad = 'raises the %s error, documented is %s' % (ek, '/'.join(case.kinds))
                props = tuple(KIND_PROP[k] for k in case.kinds if k in KIND_PROP) + spec.acc
            if bad:
                w = witness(c, s, lambda m: True, (), self.wit)
                if w is None:
                    res.undecided.append('%s:%s %s (no concrete witness)' % (loc + (bad,)))
                else:
                    self.add(res, c, spec, props, bad, loc, w)
                return
            ok = True
            if not c.f.get('ctor'):
                ok = self.unchanged(spec, c, s, pre, res, loc, 'C04', 'a rejected call') and ok
            else:
                ok = self.unchanged(spec, c, s, pre, res, loc, 'C04', 'a rejected call', this=False) and ok
            if ok:
                res.discharged += 1
            return
        # Ret
        if o.kind == 'throw':
            q = getattr(case, 'limit', None)
            ek = exc_kind(o.val)
            if q is not None and ek == 'range' and q_out(s, q):
                res.discharged += 1
                return
            w = witness(c, s, (lambda m: True) if q is None or ek != 'range' else q.fits, (), self.wit)
            what = 'rejected (%s) although documented to succeed' % (o.val.msg if isinstance(o.val, Exc) else o.val,)
            if w is None:
                res.undecided.append('%s:%s %s (no concrete witness)' % (loc + (what,)))
            else:
                self.add(res, c, spec, ((KIND_PROP[ek],) if ek in KIND_PROP else ()) + spec.acc + (spec.value if not spec.acc else ()), what, loc, w)
            return
        ok = True
        # returned value
        for s2, eq in cmp_val(c, s, o.val, case.val):
            if not eq:
                ok = False
                w = witness(c, s2, lambda m: differs(m, c, o.val, case.val, s2), (), self.wit)
                self.mismatch(spec, c, res, loc, w, spec.value, 'returns a wrong value: %s' % self.shown(c, s2, o.val, case.val), case)
        # the object
        if c.this is not None or c.f.get('ctor'):
            if case.post is None:
                if not c.f.get('ctor'):
                    ok = self.unchanged(spec, c, s, pre, res, loc, None, 'the call', args=False, post=True) and ok
            else:
                post = case.post
                now = s.store['this']
                for s2, eq in cmp_val(c, s, now, post):
                    if not eq:
                        ok = False
                        w = witness(c, s2, lambda m: differs(m, c, now, post, s2), (), self.wit)
                        self.mismatch(spec, c, res, loc, w, spec.value, 'leaves a wrong value in the object: %s' % self.shown(c, s2, now, post), case)
        ok = self.unchanged(spec, c, s, pre, res, loc, 'C05', 'the call', this=False, skip=case.args) and ok
        for i, v in case.args.items():
            a = c.actual[i]
            now = s.store[a.root]
            for s2, eq in cmp_val(c, s, now, v):
                if not eq:
                    ok = False
                    w = witness(c, s2, lambda m: differs(m, c, now, v, s2), (), self.wit)
                    self.mismatch(spec, c, res, loc, w, spec.value, 'leaves a wrong value in argument %d: %s' % (i, self.shown(c, s2, now, v)), case)
        if ok:
            res.discharged += 1

    def shown(self, c, s, impl, spec):
        def sh(v):
            if isinstance(v, Lazy):
                v = v.f(c, s)
                if isinstance(v, list):
                    v = v[0][1]
            if isinstance(v, Ref):
                return 'element %r' % (s.nl(v.idx),)
            if isinstance(v, Pos):
                return 'position %r' % (s.nl(v.pos),)
            if isinstance(v, PS):
                return ' '.join(prepr(x) for x in simp(s, v.p))
            if isinstance(v, OStream):
                return ' '.join(prepr(x) for x in v.toks)
            sq = seq_of(v) if not isinstance(v, Addr) else None
            if sq is not None:
                return ' '.join(prepr(x) for x in simp(s, sq.p))
            if isinstance(v, Lin):
                return repr(s.nl(v))
            return repr(v)
        x = '%s, documented %s' % (sh(impl), sh(spec))
        x = re.sub(r"base\((?:sset\(|smap\()?fld\(S,'\w+'\)\)?\)", 'S', x).replace('len(S)', 'n')
        return x[:400]

    def mismatch(self, spec, c, res, loc, w, props, what, case=None):
        if w is None:
            res.undecided.append('%s:%s %s (no concrete witness)' % (loc + (what,)))
        else:
            tags = case.tags if case is not None and getattr(case, 'tags', None) else ()
            self.add(res, c, spec, tuple(props) + tuple(tags), what, loc, w)

    def unchanged(self, spec, c, s, pre, res, loc, prop, when, this=True, args=True, post=False, skip=()):
        ok = True
        roots = []
        if this and c.this is not None:
            roots.append('this')
        if args:
            for i, a in enumerate(c.actual):
                if i in skip:
                    continue
                r = a.root if isinstance(a, Addr) else (a.addr.root if isinstance(a, Iter) else None)
                if r and r != 'this':
                    roots.append(r)
        for r in roots:
            old, new = pre[r], s.store.get(r)
            if old == new or old is new:
                continue
            if isinstance(old, OStream) or isinstance(old, Obj) and old.tag in ('istream', 'opaquefn'):
                continue
            for s2, eq in cmp_rv(c, s, new, PS(old.p) if isinstance(old, Seq) else old):
                if eq:
                    continue
                ok = False
                w = witness(c, s2, lambda m: differs_rv(m, c, new, PS(old.p) if isinstance(old, Seq) else old), (), self.wit)
                what = '%s changes %s: %s' % (when, 'the object' if r == 'this' else 'an argument', self.shown(c, s2, new, PS(seq_of(old).p) if seq_of(old) is not None else old))
                if prop:
                    ps = (prop,)
                else:
                    ps = tuple(spec.value) + (('C05',) if c.f.get('const') or spec.query else ())
                self.mismatch(spec, c, res, loc, w, ps, what)
        return ok
