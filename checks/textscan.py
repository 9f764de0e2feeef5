"""Operations that consume a sequence event by event: the loop is compared with the defining recursion of the result.

The documented result is a recursion over a position: in each state either the result is complete, or an event (the next occurrence of the
pattern, the next item) extends the output and moves the position.  A loop over the text is related to it by an invariant: every modified
variable is a function of the position, of the next event or of the output so far; the relation is guessed on the first iterations and then
verified for an arbitrary position and an arbitrary output, so the comparison holds for texts of every length.
"""
import itertools
import os
import time

from .core import *          # noqa
from .intcomp import limit, Slow, Nothing, loc_of
from .scan import Convert
from engine.interp import Interp
from engine import loops, stdlib, interp as _interp
from engine.loops import Capture, get_path

STR = 'pyincpp::Str'


class Bad(Exception):
    def __init__(self, loc, rel):
        self.loc, self.rel = loc, rel


class Again(Exception):
    pass


class Apart(Exception):
    """the loop does not produce the output"""


class Ghost:
    __slots__ = ('pos', 'out', 'end')

    def __init__(self, pos, out, end=None):
        self.pos, self.out, self.end = pos, out, end


def ghost(st):
    for t in reversed(st.ev):
        if t[0] == 'ghost':
            return t[1]


def haunt(st, g):
    st.ev = tuple(t for t in st.ev if t[0] != 'ghost') + (('ghost', g),)


def piece(base, lo, hi):
    return ('sl', base, L(lo), L(hi))


def cut(st, ps, lo, hi):
    """elements [lo, hi) of a single piece"""
    p = simp(st, ps)
    if not p:
        return ()
    if len(p) != 1 or p[0][0] != 'sl':
        raise Giveup('operand')
    return (('sl', p[0][1], st.nl(p[0][2] + lo), st.nl(p[0][2] + hi)),)


def text_struct(v, fld, ps):
    return Struct(v.cls, {fld: v.f[fld].with_p(tuple(ps))})


def fld_of(v):
    return [k for k, x in v.f.items() if isinstance(x, Seq)][0]


def same(I, st, a, b):
    """are two values certainly equal"""
    if isinstance(a, Addr):
        a = st.store[a.root]
    if isinstance(b, Addr):
        b = st.store[b.root]
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.entails_eq(a - b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return same_pieces(I, st, a.p, b.p)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        ks = [k for k in a.f if k != '__id']
        return all(k in b.f and same(I, st, a.f[k], b.f[k]) for k in ks)
    return a == b


def subterms(x, out):
    if isinstance(x, Lin):
        for k, v in x.t:
            subterms(k, out)
    elif isinstance(x, Term):
        if x not in out:
            out[x] = True
            for a in x.args:
                subterms(a, out)
    elif isinstance(x, tuple):
        for a in x:
            subterms(a, out)
    elif isinstance(x, Struct):
        for a in x.f.values():
            subterms(a, out)
    elif isinstance(x, Seq):
        subterms(x.p, out)
    elif isinstance(x, El):
        subterms(x.t, out)
    return out


def congruent(st, a, b):
    """b with its terms replaced by terms of a that are the same function of equal numbers"""
    ta, tb = subterms(a, {}), subterms(b, {})
    m = {}
    for y in tb:
        if y in ta:
            continue
        for x in ta:
            if x.op == y.op and len(x.args) == len(y.args) and any(isinstance(v, Lin) for v in x.args) and all(
                    v == w or isinstance(v, Lin) and isinstance(w, Lin) and st.entails_eq(v - w) for v, w in zip(x.args, y.args)):
                m[y] = x
                break
    return loops.subst_val(b, m) if m else b


def same_pieces(I, st, a, b):
    a, b = simp(st, a), simp(st, b)
    if a == b:
        return True
    b = simp(st, congruent(st, a, b))
    if a == b:
        return True
    if any(p[0] == 'one' and isinstance(p[1], Struct) for p in a + b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x[0] == 'one' and y[0] == 'one':
                if not same(I, st, x[1], y[1]):
                    return False
            elif not (x[0] == y[0] and loops.pieces_eq(st, (x,), (y,))):
                return False
        return True
    return loops.pieces_eq(st, a, b)


# ---------------------------------------------------------------- defining recursions

class Event:
    variants = ()


class Count(Event):
    """number of left-to-right non-overlapping occurrences"""
    key = 'Str.count(Str) const'
    kind = 'num'
    modes = ('', 'self')

    def begin(self, c, st):
        m = st.nl(pslen(c.ap(0)))
        out = []
        for s in st.copy().assume(c_eq(m)):
            out.append((s, Ghost(ZERO, ZERO, c.n + 1)))
        for s in st.copy().assume(c_ge(m - 1)):
            out.append((s, Ghost(ZERO, ZERO)))
        return out

    def events(self, c, st, g):
        out = []
        for s, p in stdlib.strfind(c.I, st, cut(st, c.S, g.pos, c.n), c.ap(0)):
            if s.empty():
                continue
            if p is None:
                out.append((s, Ghost(g.pos, g.out, g.out), None))
            else:
                out.append((s, Ghost(s.nl(g.pos + p + pslen(c.ap(0))), s.nl(g.out + 1)), s.nl(g.pos + p)))
        return out

    def texts(self):
        ps = ['', 'a', 'aa', 'ab', 'aba', 'b', 'abab', '\0']
        ts = ['', 'a', 'b', 'a\0b', 'aa', 'aaa', 'aaaa', 'ab', 'aba', 'abab', 'ababa', 'ababab', 'baab', 'abba', 'aabaabaa', 'bbb', 'abaXaba', 'caac', 'aab' * 4]
        return [(t, (p,)) for p in ps for t in ts]

    def value(self, t, p):
        return t.count(p)


class Replace(Event):
    lead = True     # the replacement precedes the character

    def __init__(self):
        self.variants = (ReplaceB(),) if type(self) is Replace else ()

    key = 'Str.replace(Str,Str) const'
    kind = 'text'
    modes = ('', 'self')

    def begin(self, c, st):
        m = st.nl(pslen(c.ap(0)))
        out = []
        for s in st.copy().assume(c_eq(m)):
            out.append((s, Ghost(ZERO, simp(s, c.ap(1)) if self.lead else ())))
        for s in st.copy().assume(c_ge(m - 1)):
            out.append((s, Ghost(ZERO, ())))
        return out

    def events(self, c, st, g):
        out = []
        m = st.nl(pslen(c.ap(0)))
        for s in st.copy().assume(c_eq(m)):
            more, no = s.fork(c_ge(c.n - g.pos - 1))
            new = tuple(c.ap(1))
            for x in no:
                out.append((x, Ghost(g.pos, g.out, simp(x, tuple(g.out) + (() if self.lead else new))), None))
            for x in more:
                ch = cut(x, c.S, g.pos, g.pos + 1)
                out.append((x, Ghost(x.nl(g.pos + 1), simp(x, tuple(g.out) + (ch + new if self.lead else new + ch))), None))
        for s0 in st.copy().assume(c_ge(m - 1)):
            for s, p in stdlib.strfind(c.I, s0, cut(s0, c.S, g.pos, c.n), c.ap(0)):
                if s.empty():
                    continue
                if p is None:
                    out.append((s, Ghost(g.pos, g.out, simp(s, tuple(g.out) + cut(s, c.S, g.pos, c.n))), None))
                else:
                    out.append((s, Ghost(s.nl(g.pos + p + pslen(c.ap(0))), simp(s, tuple(g.out) + cut(s, c.S, g.pos, g.pos + p) + c.ap(1))), s.nl(g.pos + p)))
        return out

    def texts(self):
        ps = [('', '-'), ('', ''), ('a', 'x'), ('a', 'aa'), ('a', ''), ('aa', 'b'), ('aa', 'a'), ('ab', 'ba'), ('aba', 'X'), ('aba', 'aba'), ('b', 'bb'), ('ab', 'ab'), ('b', 'xyz'), ('', 'x\0y'), ('a', '\0'), ('\0', 'z')]
        ts = [t for t, _ in Count().texts()][:19] + ['abb', 'aab', 'a\0a']
        return [(t, p) for p in ps for t in ts]

    def value(self, t, p, r):
        return t.replace(p, r)


class Split(Event):
    key = 'Str.split(Str,bool) const'
    kind = 'list'
    modes = ('', 'self', 'default')

    def defaults(self, c):
        return {0: text_struct(c.this, fld_of(c.this), (('one', L(32)),)), 1: False}

    def begin(self, c, st):
        return [(s, Ghost(ZERO, ())) for s in st.copy().assume(c_ge(pslen(c.ap(0)) - 1))]

    def error(self, c, st):
        return [s for s in st.copy().assume(c_eq(pslen(c.ap(0))))]

    def keep(self, c, st, part):
        """[(state, pushed pieces)]"""
        k = c.I.to_cond(c.args[1], None)
        v = self.item(c, part)
        yes, no = st.fork(c_or(k, c_ge(pslen(part) - 1)))
        return [(s, (('one', v),)) for s in yes] + [(s, ()) for s in no]

    def item(self, c, part):
        return text_struct(c.this, fld_of(c.this), part)

    def events(self, c, st, g):
        out = []
        for s, p in stdlib.strfind(c.I, st, cut(st, c.S, g.pos, c.n), c.ap(0)):
            if s.empty():
                continue
            hi = c.n if p is None else s.nl(g.pos + p)
            for x, add in self.keep(c, s, cut(s, c.S, g.pos, hi)):
                o = simp(x, tuple(g.out) + add)
                if p is None:
                    out.append((x, Ghost(g.pos, g.out, o), None))
                else:
                    out.append((x, Ghost(x.nl(g.pos + p + pslen(c.ap(0))), o), hi))
        return out

    def texts(self):
        ps = [' ', 'a', 'aa', 'ab', 'aba', '\0']
        ts = [t for t, _ in Count().texts()][:19] + [' ', ' a', 'a ', ' a  b ', 'a b', '  ']
        return [(t, (p, k)) for p in ps for t in ts for k in (False, True)] + [(t, ('', k)) for t in ('', 'a', 'ab') for k in (False, True)]

    def value(self, t, p, keep):
        if not p:
            raise ValueError('sep')
        r = t.split(p)
        return r if keep else [x for x in r if x]


class Join(Event):
    def __init__(self):
        self.variants = (JoinB(),) if type(self) is Join else ()

    key = 'Str.join(List) const'
    kind = 'text'
    modes = ('',)

    def items(self, c):
        return c.args[0].f[fld_of(c.args[0])]

    def begin(self, c, st):
        return [(st.copy(), Ghost(ZERO, ()))]

    def events(self, c, st, g):
        out = []
        sq = self.items(c)
        n = st.nl(slen(sq))
        more, no = st.fork(c_ge(n - g.pos - 1))
        for x in no:
            out.append((x, Ghost(g.pos, g.out, g.out), None))
        for x in more:
            b = sq.p[0]
            v = elem_of(x, b, x.nl(g.pos), sq.et)
            for y, first in zip((True, False), x.fork(c_eq(g.pos))):
                for z in first:
                    ps = v.f[fld_of(v)].p
                    out.append((z, Ghost(z.nl(g.pos + 1), simp(z, tuple(g.out) + (() if y else tuple(c.S)) + tuple(ps))), None))
        return out

    def texts(self):
        seps = ['', ',', '--']
        ls = [[], [''], ['a'], ['', ''], ['a', 'b'], ['', 'a'], ['a', ''], ['a', 'b', 'c'], ['ab', '', 'c'], ['', '', ''], ['x'] * 5, ['a\0b', 'c'], ['', 'b', '', 'd']]
        return [(s, (l,)) for s in seps for l in ls]

    def value(self, t, l):
        return t.join(l)


class ReplaceB(Replace):
    lead = False


class JoinB(Join):
    """every item but the last is followed by the separator"""
    def events(self, c, st, g):
        out = []
        sq = self.items(c)
        n = st.nl(slen(sq))
        b = sq.p[0]
        some, none = st.fork(c_ge(n - g.pos - 1))
        for x in none:
            out.append((x, Ghost(g.pos, g.out, g.out), None))
        for x in some:
            v = elem_of(x, b, x.nl(g.pos), sq.et)
            ps = tuple(v.f[fld_of(v)].p)
            more, last = x.fork(c_ge(n - g.pos - 2))
            for z in last:
                out.append((z, Ghost(g.pos, g.out, simp(z, tuple(g.out) + ps)), None))
            for z in more:
                out.append((z, Ghost(z.nl(g.pos + 1), simp(z, tuple(g.out) + ps + tuple(c.S))), None))
        return out


class Scan(Convert):
    def __init__(self, spec, mode, prop):
        self.spec, self.mode, self.prop, self.key = spec, mode, prop, spec.key
        self.name = spec.key + {'': '', 'self': ' (same object)', 'default': ' (arguments left out)'}[mode]
        self.where = 'str'

    def mk(self):
        if self.mode != 'default':
            return build(self.P, self.f, self.mode)
        c = build(self.P, self.f, self.mode, defaults={0: None, 1: None})
        for i, v in self.spec.defaults(c).items():
            c.args[i] = v
        return c

    def prove(self):
        first = None
        for sp in (self.spec,) + self.spec.variants:
            self.active = sp
            self.res.outcomes = self.res.obligations = self.res.discharged = 0
            try:
                r = self.attempt()
            except (Giveup, TypeError, AttributeError) as e:
                first = first or e
                continue
            if not r:
                return r
            if os.environ.get('VT_TS'): print('   failed', r)
            first = first or r
        if isinstance(first, Exception):
            raise first
        return first

    def attempt(self):
        spec = self.active
        c = self.mk()
        I = c.I
        self.I, self.c = I, c
        I.budget = 10 ** 7
        self.failed = []
        self.edges = 0
        self.dropped = set()
        n = 0
        if hasattr(spec, 'error'):
            for s in spec.error(c, c.st):
                if s.empty():
                    continue
                for o in I.run(s, self.f['fid'], c.addr, c.actual):
                    if o.st.empty():
                        continue
                    n += 1
                    if o.kind != 'throw':
                        self.failed.append(('an undefined argument is not rejected', None))
        I.loop_hook = self.hook
        for s, g in spec.begin(c, c.st):
            if s.empty():
                continue
            haunt(s, g)
            for o in I.run(s, self.f['fid'], c.addr, c.actual):
                if o.st.empty():
                    continue
                n += 1
                self.final(o)
        self.res.outcomes += n
        n += self.edges
        self.res.obligations += n
        self.res.discharged += max(0, n - len(self.failed))
        return self.failed

    def final(self, o):
        if o.kind == 'ub':
            self.failed.append(('undefined behaviour: %s at line %s' % (o.val, o.line), None))
            return
        if o.kind == 'throw':
            g = ghost(o.st)
            out = g.out if g.end is None else g.end
            if self.active.kind == 'list' and 'maximum size' in str(o.val):
                # only a result with more pieces than a list can hold
                s = o.st.copy()
                if not s.add_ge(L(2 ** 31 - 1) - pslen(out)) or s.empty():
                    return
            self.failed.append(('raises %s' % (o.val,), None))
            return
        todo = [(o.st, ghost(o.st), 0)]
        while todo:
            s, g, n = todo.pop()
            if s.empty():
                continue
            if g.end is not None:
                if not self.equal(s, o.val, g.end):
                    self.failed.append(('the result is %s, documented %s' % (self.show(s, o.val), self.show(s, g.end)), None))
                    return
                continue
            if n > 2:
                self.failed.append(('returns before the text is processed', None))
                return
            for s2, g2, nx in self.active.events(self.c, s.copy(), g):
                todo.append((s2, g2, n + 1))

    def show(self, s, v):
        if isinstance(v, Addr):
            v = s.store[v.root]
        if isinstance(v, Struct):
            v = v.f[fld_of(v)].p
        return repr(simp(s, v) if isinstance(v, tuple) else v)[:300]

    def equal(self, s, v, want):
        if isinstance(v, Addr):
            v = s.store[v.root]
        if self.active.kind == 'num':
            return isinstance(v, Lin) and s.entails_eq(v - want)
        if not isinstance(v, Struct):
            return False
        return same_pieces(self.I, s, v.f[fld_of(v)].p, want)

    # ---- the loop
    def hook(self, I, st, node, step, cond, inc, body, do):
        g = ghost(st)
        if g is None or g.end is not None or do:
            return None
        I.loop_hook = None
        try:
            err = None
            todo = [(st, 0)]
            outs = []
            with Capture(I) as cap:
                while todo:
                    s, n = todo.pop()
                    try:
                        outs += self.fix(I, s, node, step)
                    except (Apart, Giveup) as e:
                        err = err or e
                        if os.environ.get("VT_TS"): print("   [%d] %s" % (n, str(e)[:300]))
                        if n >= 2:
                            raise err
                        # the loop starts after the first events
                        nxt = [(s2, g2) for s2, g2, _ in self.active.events(self.c, s.copy(), ghost(s))]
                        for s2, g2 in nxt:
                            haunt(s2, g2)
                            if g2.end is not None:
                                try:
                                    outs += self.plain(I, s2, step, node)
                                except (Apart, Giveup):
                                    raise err
                            else:
                                todo.append((s2, n + 1))
                cap.commit()
            return outs
        except Apart:
            # the loop prepares something else
            return None
        finally:
            I.loop_hook = self.hook

    def plain(self, I, st, step, node, st0=None):
        """the text is already processed: the loop must not run"""
        outs = []
        for s2, kind, v in step(st):
            if s2.empty():
                continue
            if kind == 'n':
                raise Giveup('the loop continues after the end')
            s2.env = dict((st0 or st).env) if kind != 'r' else s2.env
            outs.append((s2, 'n' if kind in ('b', 'x') else kind, v))
        return outs

    def candidates(self, lc, v, g, nx):
        out = []
        if isinstance(v, Lin):
            out = ['pos', 'next', 'next-npos', 'out', 'const', 'pos-1', 'pos+1', 'start', 'begun', 'dead']
        elif isinstance(v, Iter):
            out = ['pos']
        elif isinstance(v, Seq):
            out = ['out', 'const', 'dead']
        elif isinstance(v, Struct):
            out = ['out', 'const', 'dead']
        elif isinstance(v, (bool, tuple)):
            out = ['const', 'more', 'done', 'start', 'begun', 'dead']
        else:
            out = ['const', 'dead']
        return [r for r in out if (lc, r) not in self.dropped]

    def make(self, rel, v, v0, g, nx, end):
        """value of a variable under a relation (None: not applicable)"""
        if rel == 'dead':
            return Unknown('dead')
        if rel == 'const':
            return v0
        if rel in ('more', 'done'):
            return (nx is not None) == (rel == 'more')
        if rel in ('start', 'begun'):
            r = (g.pos == ZERO) == (rel == 'start')
            return L(int(r)) if isinstance(v, Lin) else r
        if rel in ('pos', 'pos-1', 'pos+1'):
            x = g.pos + {'pos': 0, 'pos-1': -1, 'pos+1': 1}[rel]
            return Iter(v.addr, x, v.rev, v.const, v.ptr, v.gen) if isinstance(v, Iter) else x
        if rel in ('next', 'next-npos'):
            return L(-1 if rel == 'next' else 2 ** 64 - 1) if nx is None else nx
        if rel == 'out':
            if self.active.kind == 'num':
                return g.out if isinstance(v, Lin) else None
            if isinstance(v, Seq):
                return v.with_p(tuple(g.out))
            if isinstance(v, Struct):
                k = fld_of(v)
                return Struct(v.cls, dict({x: y for x, y in v.f.items() if x != '__id'}, **{k: v.f[k].with_p(tuple(g.out))}))
        return None

    def holds(self, I, s, rel, v, v0, g, nx, end):
        if rel == 'dead':
            return True
        w = self.make(rel, v, v0, g, nx, end)
        if w is None:
            return False
        if isinstance(v, Iter) and isinstance(w, Iter):
            return v.addr == w.addr and v.rev == w.rev and s.entails_eq(v.pos - w.pos)
        if is_cond(v) and isinstance(w, bool):
            return s.decide(v) is w
        if type(v) is not type(w) and not (isinstance(v, Struct) and isinstance(w, Struct)):
            return False
        return same(I, s, v, w)

    def fix(self, I, st0, node, step):
        spec, c = self.active, self.c
        g0 = ghost(st0)
        tag = '@%s' % node.get('l')
        mods = {}

        def heads(s, g):
            """the loop head split by the next event"""
            out = []
            yes, no = s.copy().fork(c_eq(g.pos))
            for x, g1 in [(x, Ghost(ZERO, g.out)) for x in yes] + [(x, g) for x in no]:
                out += [(s2, g1, g2, nx) for s2, g2, nx in spec.events(c, x, g1) if not s2.empty()]
            return out

        def one(s, g, g2):
            """an iteration: (continuing states, exits)"""
            haunt(s, g2)
            cont, ex = [], []
            for s2, kind, v in step(s):
                if s2.empty():
                    continue
                if kind == 'n':
                    cont.append(s2)
                else:
                    ex.append((s2, 'n' if kind in ('b', 'x') else kind, v))
            return cont, ex

        def settle(s2):
            for r, p in loops.entry_diff(st0, s2):
                if any(r == r2 and p[:len(p2)] == p2 for r2, p2 in mods):
                    continue
                a, b = get_path(st0.store[r], p), get_path(s2.store[r], p)
                if isinstance(a, Lin) and isinstance(b, Lin) and s2.nl(a - b) == ZERO:
                    continue
                p = whole(st0.store[r], p)
                mods[(r, p)] = get_path(st0.store[r], p)
                raise Again()

        def whole(v, p):
            # a text or list object as one value
            return p[:-1] if p and p[-1][0] == 'f' and isinstance(get_path(v, p[:-1]), Struct) and isinstance(get_path(v, p), Seq) else p
        for attempt in range(60):
            try:
                # values at the entry and after one iteration
                samples = []
                with Capture(I):
                    for s, g1, g2, nx in heads(st0, g0):
                        samples.append((s, g1, nx, g2.end is not None))
                        cont, ex = one(s.copy(), g0, g2)
                        for s2 in cont:
                            if g2.end is not None:
                                self.plain(I, s2, step, node)
                                continue
                            settle(s2)
                            for s3, g4, g3, nx3 in heads(s2, g2):
                                samples.append((s3, g4, nx3, g3.end is not None))
                rels = {}
                for lc, v0 in mods.items():
                    for r in self.candidates((node.get('l'), lc[0].split('~')[0], lc[1]), v0, g0, None):
                        if all(self.holds(I, s, r, get_path(s.store[lc[0]], lc[1]), v0, g, nx, end) for s, g, nx, end in samples):
                            rels[lc] = r
                            break
                    else:
                        raise Giveup('no relation between %s and the text read at line %s' % (lc[0].split('@')[0], node.get('l')))
                if os.environ.get('VT_TS'): print('   rels', {k[0]: v for k, v in rels.items()})
                if not any(r in ('pos', 'pos-1', 'pos+1', 'next', 'next-npos') for r in rels.values()):
                    raise Giveup('no variable follows the text at line %s' % node.get('l'))
                if 'out' not in rels.values():
                    raise Apart()
                # an arbitrary iteration
                with Capture(I) as cap:
                    exits = []
                    k = L(sym('k' + tag))
                    s = st0.copy()
                    s.add_ge(k - g0.pos)
                    s.add_ge(self.limit_of(c, st0) - k)
                    if spec.kind == 'num':
                        o = L(sym('out' + tag))
                        s.add_ge(o)
                        s.add_ge(k - o)
                    else:
                        b = Term('base', Term('sym', 'out' + tag))
                        n = L(Term('len', b))
                        s.add_ge(n)
                        s.add_ge(L(2 ** 31) - n)
                        if spec.kind == 'list':
                            # every piece but the last is followed by a separator
                            if not st0.entails_ge(g0.pos - pslen(g0.out)):
                                raise Giveup('more pieces than separators')
                            s.add_ge(k - n)
                        o = (('sl', b, ZERO, n),)
                    g = Ghost(k, o)
                    for s2, g1, g2, nx in heads(s, g):
                        for lc, r in rels.items():
                            v0 = mods[lc]
                            w = self.make(r, v0, v0, g1, nx, g2.end is not None)
                            s2.store[lc[0]] = loops.set_path(s2.store[lc[0]], lc[1], w)
                        self.edges += 1
                        cont, ex = one(s2, g1, g2)
                        for s3 in cont:
                            settle(s3)
                            if g2.end is not None:
                                # the iteration of the end: the loop stops after it
                                exits += self.plain(I, s3, step, node, st0)
                                continue
                            for s4, g5, g4, nx4 in heads(s3, g2):
                                for lc, r in rels.items():
                                    if not self.holds(I, s4, r, get_path(s4.store[lc[0]], lc[1]), mods[lc], g5, nx4, g4.end is not None):
                                        if os.environ.get('VT_TS'): print('   bad', get_path(s4.store[lc[0]], lc[1]), 'ghost', g2.pos, nx4, 'out', g2.out)
                                        raise Bad((node.get('l'), lc[0].split('~')[0], lc[1]), r)
                        for s3, kind, v in ex:
                            if kind == 'n':
                                s3.env = dict(st0.env)
                            exits.append((s3, kind, v))
                    cap.commit()
                loops.note(I, node, 'recursion over the text: ' + ', '.join(sorted('%s=%s' % (lc[0].split('@')[0], r) for lc, r in rels.items())))
                return exits
            except Again:
                continue
            except Bad as e:
                if os.environ.get('VT_TS'): print('   drop', e.loc, e.rel)
                self.dropped.add((e.loc, e.rel))
            except (TypeError, AttributeError) as e:
                if 'dead' not in str(e):
                    raise
                gone = {((node.get('l'), lc[0].split('~')[0], lc[1]), 'dead') for lc, r in rels.items() if r == 'dead'}
                if gone <= self.dropped:
                    raise
                self.dropped |= gone
        raise Giveup('no inductive relation at line %s' % node.get('l'))

    def limit_of(self, c, st):
        # every event leaves the position within this limit
        if isinstance(self.active, JoinB):
            n = slen(self.active.items(c))
            return n - 1 if st.entails_ge(n - 1) else n
        if isinstance(self.active, Join):
            return slen(self.active.items(c))
        return c.n

    # ---- refutation
    def refute(self, first):
        for t, args in self.spec.texts():
            if self.mode == 'default' and args[:2] != (' ', False):
                continue
            if self.mode == 'self' and (not args or args[0] != t):
                if not isinstance(self.spec, (Count, Replace, Split)):
                    continue
                args = (t,) + tuple(args[1:])
            try:
                w = self.wrong(t, args)
            except (Nothing, Giveup):
                # conditions that the engine cannot see to be constant: follow the paths anyway
                try:
                    w = self.wrong(t, args, 40)
                except (Nothing, Giveup):
                    continue
            if w:
                return w[0], w[1], 'this=%r, arguments %s' % (t, ', '.join(repr(a) for a in args))
        return None

    def lit(self, s):
        v = self.c.this
        return text_struct(v, fld_of(v), tuple(('one', L(ord(x))) for x in s))

    def wrong(self, t, args, unroll=0):
        c = self.mk()
        self.c = c
        I, st = c.I, c.st.copy()
        I.budget = 100000
        st.cons, st.atoms, st.sub = [], {}, {}
        st.store['this'] = self.lit(t)
        actual = []
        for a, x in zip(args, c.actual):
            if self.mode == 'default':
                actual.append(x)
            elif isinstance(a, bool):
                actual.append(a)
            elif isinstance(x, Addr) and x.root == 'this':
                actual.append(x)
            elif isinstance(a, list):
                v = st.store[x.root]
                k = fld_of(v)
                st.store[x.root] = Struct(v.cls, {k: v.f[k].with_p(tuple(('one', self.lit(y)) for y in a))})
                actual.append(x)
            else:
                st.store[x.root] = self.lit(a)
                actual.append(x)
        I.lasso = True
        I.unroll = unroll
        try:
            outs = [o for o in I.run(st, self.f['fid'], c.addr, actual) if not o.st.empty()]
        except loops.Lasso as e:
            return ('C18', self.prop), 'an iteration of the loop at line %s changes nothing: the call never returns' % e.line
        if not outs and I.partial:
            raise Nothing('endless')
        if len(outs) != 1 or outs[0].st.taint or I.partial:
            raise Nothing()
        o = outs[0]
        try:
            want = self.spec.value(t, *args)
        except ValueError:
            want = None
        if o.kind == 'ub':
            if 'overflow' in str(o.val) and not unroll:
                # a loop that counts without coming closer to its exit
                try:
                    self.wrong(t, args, 60)
                except Nothing as e:
                    if e.args:
                        return ('C18', self.prop), 'no result after 60 iterations of a loop: the call does not return'
                except Giveup:
                    pass
            return ub_props(o.val) + (self.prop,), 'undefined behaviour: %s at line %s' % (o.val, o.line)
        if o.kind == 'throw':
            return None if want is None else ((self.prop,), 'raises %s' % (o.val,))
        v = o.val
        if isinstance(v, Addr):
            v = o.st.store[v.root]
        if want is None:
            return ('C11', self.prop), 'an undefined argument is not rejected'
        if isinstance(v, Lin):
            got = o.st.nl(v)
            if not got.is_const():
                raise Nothing()
            got = got.c
        elif isinstance(want, list):
            got = []
            for p in simp(o.st, v.f[fld_of(v)].p):
                if p[0] != 'one' or not isinstance(p[1], Struct):
                    raise Nothing()
                got.append(self.string(o.st, p[1]))
        else:
            got = self.string(o.st, v)
        if got != want:
            return (self.prop,), 'gives %r, not %r' % (got, want)
        return None

    def string(self, st, v):
        out = ''
        for p in simp(st, v.f[fld_of(v)].p):
            if p[0] == 'fill' and isinstance(p[1], Lin) and st.nl(p[2]).is_const() and st.nl(p[1]).is_const():
                out += chr(st.nl(p[1]).c % 256) * st.nl(p[2]).c
                continue
            if p[0] != 'one' or not isinstance(p[1], Lin) or not st.nl(p[1]).is_const():
                raise Nothing()
            out += chr(st.nl(p[1]).c % 256)
        return out


def components(prop='C27'):
    return [Scan(sp(), m, prop) for sp in (Count, Replace, Split, Join) for m in sp.modes]
