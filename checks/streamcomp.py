"""Reading a number from a stream, for every content of the stream.

The reading function is analysed on a lazy stream: every operation that looks at the content has one outcome per kind of content, and the kinds
met on a path describe all contents that take it.  The documented result of these contents is compared with what the path stores, raises and
consumes.  Where that comparison fails, constant propagation on known contents looks for a content that is read wrongly.
"""
import itertools
import math
import os
import re
import time

from .core import *          # noqa
from . import intcomp
from .intcomp import limit, Slow, Nothing, loc_of
from engine.interp import Interp, Exc
from engine import istreams as S
from engine.istreams import IStream

BLANK = frozenset(range(33))
SP = frozenset(S.SPACE)
CTRL = BLANK - SP
SIGN = frozenset((43, 45))
DIG = frozenset(S.DIG)


class Mixed(Exception):
    pass


class Cursor:
    """the content known on a path, item by item"""

    def __init__(self, st, s, script):
        self.items = []
        self.script, self.used, self.odd = script, 0, False
        self.firsts = {}
        for k, x in s.hist:
            if k in ('int', 'real'):
                x, first = x
                self.firsts[len(self.items)] = frozenset(S.members(st, first))
            if k in ('ch', 'blank', 'noint'):
                self.items.append((k, frozenset(x) if isinstance(x, frozenset) else frozenset(S.members(st, L(x))), x))
            elif k == 'lead':
                self.items.append(('ch', x, None))
            else:
                self.items.append((k, None, x))
        if s.look == 'EOF':
            self.items.append(('EOF', None, None))
        elif s.look is not None:
            self.items.append(('ch', frozenset(S.members(st, s.look)), s.look))
        else:
            self.items.append(('?', frozenset(range(256)) - frozenset(s.never), None))
        self.i = 0

    def peek(self):
        i = min(self.i, len(self.items) - 1)
        if i < self.i and self.items[i][0] != 'EOF':
            raise Mixed('what follows')
        if self.items[i][0] == '?':
            self.items[i] = ('EOF', None, None) if self.choice() else ('ch', self.items[i][1], None)
        return self.items[i]

    def among(self, vs):
        """the next character is one of `vs`; a content that may or may not have it is split"""
        k, cs, x = self.peek()
        if k in ('int', 'real'):
            cs = self.firsts[self.i]
        if k == 'EOF':
            return False
        if cs is None:
            raise Mixed('the next character (%s)' % k)
        if not cs & vs:
            return False
        if cs <= vs:
            return True
        i = min(self.i, len(self.items) - 1)
        b = self.choice()
        cs = cs & vs if b else cs - vs
        if k in ('int', 'real'):
            self.firsts[i] = cs
        else:
            self.items[i] = (k, cs, x)
        return b

    def choice(self):
        if self.used == len(self.script):
            self.script.append(True)
        b = self.script[self.used]
        self.used += 1
        return b

    def advance(self):
        """the next combination of choices"""
        del self.script[self.used:]
        while self.script and not self.script[-1]:
            self.script.pop()
        if not self.script:
            return False
        self.script[-1] = False
        return True

    def lead(self):
        """leading blanks; True when one of them is a control character other than white space"""
        odd = False
        while self.peek()[0] in ('ch', 'blank'):
            if not self.among(BLANK):
                break
            if self.peek()[1] <= CTRL:
                odd = self.odd = True
            self.i += 1
        return odd

    def number(self, kind, start):
        """the value of the number that starts here; None when there is none"""
        k, cs, x = self.peek()
        if k == kind:
            self.i += 1
            return x
        if k == 'noint' or k == 'EOF':
            return None
        if k == 'ch' and not self.among(start):
            return None
        raise Mixed('whether a number follows (%s)' % k)

    def ends(self):
        """the literal ends here"""
        if self.peek()[0] == 'EOF':
            return True
        return self.among(BLANK)

    def char(self, c):
        k, cs, x = self.peek()
        if k == 'EOF':
            return False
        if k in ('word', '?'):
            raise Mixed('whether %r follows' % chr(c))
        if self.among(frozenset((c,))):
            if k not in ('ch', 'blank'):
                raise Mixed('whether %r follows' % chr(c))
            self.i += 1
            return True
        return False

    def tail(self, s):
        """what the program consumed beyond the literal"""
        n = len(s.hist)
        return all(k in ('ch', 'blank') and cs <= BLANK for k, cs, x in self.items[self.i:n]) and self.i <= len(self.items)

    def over(self, s):
        return self.i > len(s.hist)


ANY, ERROR = ('any',), ('error',)


class Reading:
    needs_program = True
    key = cls = None

    def __init__(self, prop='C17'):
        self.prop = prop
        self.name = 'reading ' + self.cls

    # ---- running
    def interp(self, lazy):
        I = Interp(self.P, self.contracts(lazy))
        I.loop_hook = self.hook
        I.budget = 60000
        return I

    def start(self, I, stream):
        st = State()
        st.store['is'] = stream
        p = self.f['params'][1]
        st.store['t'] = I.mk_generic(p['t'], Term('sym', 'old'))
        st.nroot = max(getattr(st, 'nroot', 0), 2)
        return st

    def hook(self, I, st, node, step, cond, inc, body, do):
        if not any(v == Addr('is') for v in st.env.values()) or not isinstance(st.store.get('is'), IStream):
            return None
        lazy = st.store['is'].data is None
        out, work, seen, n = [], [(st, True)], set(), 0
        while work:
            s, first = work.pop()
            if lazy:
                k = self.norm(s)
                if k in seen:
                    continue
            else:
                k = self.fingerprint(s)
                if k in seen:
                    self.hung = (I.loc(node) if hasattr(I, 'loc') else None, node.get('l'))
                    raise Hangs(node.get('l'))
            seen.add(k)
            n += 1
            if n > (14 if lazy else 3000):
                raise Giveup('loop over the stream at line %s' % node.get('l'))
            for s2, kind, v in step(s.copy(), do and first):
                if s2.empty():
                    continue
                if kind == 'n':
                    if lazy and self.norm(s2.copy()) == k and s2.store['is'].hist == s.store['is'].hist:
                        self.failed.append(('the loop at line %s may make no progress' % node.get('l'), None))
                        continue
                    work.append((s2, False))
                else:
                    out.append((s2, 'n' if kind in ('b', 'x') else kind, v))
        return out

    def norm(self, s):
        """merge a leading run of blanks; the key of a state up to the name of the next character"""
        v = s.store['is']
        h = list(v.hist)
        acc = frozenset()
        while h:
            k, x = h[0]
            cs = x if k == 'lead' else frozenset(S.members(s, L(x))) if k in ('ch', 'blank') else None
            if cs is None or not cs <= BLANK:
                break
            acc |= cs
            h.pop(0)
        if acc:
            h = [('lead', acc)] + h
        v = v.but(hist=tuple(h))
        s.store['is'] = v
        lk = v.look if v.look in (None, 'EOF') else frozenset(S.members(s, v.look))
        return (v.hist, lk, v.never, v.flags) + self.rest(s)

    def rest(self, s):
        return (repr(sorted((str(k), repr(x)) for k, x in s.store.items() if k != 'is' and not str(k).startswith(('obj', 'tmp')))), repr(sorted((str(k), repr(x)) for k, x in s.env.items())))

    def fingerprint(self, s):
        v = s.store['is']
        return (v.pos, v.flags) + self.rest(s)

    # ---- the check
    def run(self, A):
        t0 = time.time()
        self.P, self.A = A.P, A
        res = self.res = Result()
        f = self.f = A.fn.get(self.key)
        if f is None:
            res.undecided.append('not found')
            return res
        self.failed = []
        self.hung = None
        try:
            self.prove()
        except (Giveup, Slow) as e:
            res.undecided.append('not analysable: %s' % e)
        except RecursionError:
            res.undecided.append('recursion limit')
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res.undecided.append('internal: %r at %s:%d' % (e, os.path.basename(tb.filename), tb.lineno))
        if self.failed or res.undecided:
            try:
                with limit(90):
                    w = self.refute()
            except Slow:
                w = None
            if w:
                res.undecided = []
                res.problems.append(Problem(tuple(w[0]), w[1], self.key, loc_of(f), w[2]))
            else:
                for x in self.failed[:3]:
                    res.undecided.append(x[0])
                res.obligations += 1
        res.kinds = set()
        res.time = time.time() - t0
        return res

    def prove(self):
        I = self.interp(True)
        st = self.start(I, IStream())
        n = 0
        for o in I.run(st, self.f['fid'], None, [Addr('is'), Addr('t')]):
            if o.st.empty():
                continue
            n += 1
            k = len(self.failed)
            try:
                self.path(o, st)
            except Mixed as e:
                self.failed.append(('the result does not depend on %s' % e, None))
            if o.st.taint:
                self.failed.append(('a value is indeterminate (%s)' % (o.st.taint,), None))
            self.res.discharged += k == len(self.failed)
        self.res.outcomes += n
        self.res.obligations += n
        if not n:
            raise Giveup('no outcome')

    def path(self, o, st0):
        if o.kind == 'ub':
            self.failed.append(('undefined behaviour: %s at line %s' % (o.val, o.line), None))
            return
        s = o.st.store['is']
        if os.environ.get('VT_TS'):
            print('  ', o.kind, o.val if o.kind == 'throw' else '', s, o.st.store['t'] if o.kind == 'ret' else '')
        script = []
        while True:
            cur = Cursor(o.st, s, script)
            try:
                want = self.expect(cur)
            except Mixed:
                if not cur.odd:
                    raise
                want = ANY      # control characters before a number: not documented
            self.judge(o, st0, s, cur, want)
            if not cur.advance():
                break

    def judge(self, o, st0, s, cur, want):
        if want == ANY:
            return
        t, t0 = o.st.store['t'], I_old(self, st0)
        if o.kind == 'throw':
            if not self.fields(o.st, t) == self.fields(o.st, t0):
                self.failed.append(('the target is changed before the error', None))
            elif want != ERROR and not (isinstance(o.val, Exc) and o.val.type == 'vt::value' and self.same_error(o.st, o.val, want)):
                self.failed.append(('raises %s on a well-formed number' % (o.val,), None))
            return
        if s.failed():
            if want != ERROR:
                self.failed.append(('fails on a well-formed number', None))
            elif self.fields(o.st, t) != self.fields(o.st, t0):
                self.failed.append(('the target is changed though reading failed', None))
            return
        if want == ERROR:
            self.failed.append(('a missing or malformed number is accepted', None))
            return
        if cur.over(s):
            self.failed.append(('part of the number is left in the stream', None))
            return
        if not cur.tail(s):
            self.failed.append(('more than the number is consumed', None))
            return
        if not self.matches(o.st, t, want):
            self.failed.append(('the stored value is %r' % (t,), None))

    def fields(self, st, t):
        return {k: x for k, x in t.f.items() if k != '__id'} if isinstance(t, Struct) else t

    # ---- refutation
    def refute(self):
        seen = set()
        for t in itertools.chain(self.texts(), self.long()):
            b = t.encode('latin-1')
            if b in seen:
                continue
            seen.add(b)
            try:
                w = self.wrong(b)
            except (Nothing, Giveup):
                continue
            if w:
                return w[0], w[1], 'stream content %r' % t
        return None

    def long(self):
        """numbers around the lengths that occur as constants in the function"""
        for n in [40, 300] + sorted({m for c in intcomp.literals(self.P, self.f) if 9 <= c <= 3000 for m in (c - 1, c, c + 1)}):
            for t in self.ofsize(n):
                yield t

    def ofsize(self, n):
        return []

    def wrong(self, b):
        want, lo, hi = self.reference(b)
        if want == ANY:
            return None
        I = self.interp(False)
        st = self.start(I, IStream(tuple(b)))
        t0 = st.store['t']
        try:
            outs = [o for o in I.run(st, self.f['fid'], None, [Addr('is'), Addr('t')]) if not o.st.empty()]
        except Hangs as e:
            return ((self.prop, 'C18'), 'the loop at line %s repeats without consuming a character' % e)
        if len(outs) != 1 or outs[0].st.taint:
            raise Nothing()
        o = outs[0]
        t, s = o.st.store['t'], o.st.store['is']
        if o.kind == 'ub':
            return ub_props(o.val) + (self.prop,), 'undefined behaviour: %s at line %s' % (o.val, o.line)
        same = self.fields(o.st, t) == self.fields(o.st, t0)
        if o.kind == 'throw' or s.failed():
            how = 'raises %s' % (o.val,) if o.kind == 'throw' else 'leaves the stream failed'
            if not same:
                return (self.prop,), '%s after storing %s' % (how, self.shown(o.st, t))
            if want != ERROR:
                return (self.prop,), '%s on a well-formed number' % how
            return None
        if same:
            return (self.prop,), 'stores nothing and reports no error'
        if want == ERROR:
            return (self.prop,), 'stores %s for a missing or malformed number' % self.shown(o.st, t)
        got = self.concrete(o.st, t)
        if got != want[1]:
            return (self.prop,), 'stores %r, not %r' % (got, want[1])
        if not lo <= s.pos <= hi:
            return (self.prop,), '%s' % ('part of the number is left in the stream' if s.pos < lo else 'characters after the number are consumed')
        return None

    def shown(self, st, t):
        try:
            return repr(self.concrete(st, t))
        except Nothing:
            return repr(t)[:120]

    def const(self, st, x):
        x = st.nl(x) if isinstance(x, Lin) else None
        if x is None or not x.is_const():
            raise Nothing()
        return x.c


class Hangs(Giveup):
    pass


def I_old(self, st0):
    I = self.interp(True)
    return self.start(I, IStream()).store['t']


def blanks_after(b, i):
    while i < len(b) and b[i] <= 32:
        i += 1
    return i


def lead_of(b):
    i = blanks_after(b, 0)
    return i, any(c in CTRL for c in b[:i])


def after(b, i):
    """(the literal ends here, undocumented)"""
    return i == len(b) or b[i] <= 32, i < len(b) and b[i] in CTRL


class FractionIn(Reading):
    key, cls = '.operator>>(basic_istream,Fraction)', 'Fraction'

    def contracts(self, lazy):
        f = self.A.fn.get('Fraction.Fraction(int,int)')
        if f is None:
            return {}
        return {f['fid']: self.ctor}

    def ctor(self, I, st, f, this, args, node):
        out = []
        for s, (n, d) in I.rvs(st, args, node):
            if not (isinstance(n, Lin) and isinstance(d, Lin)):
                I.giveup('fraction of indeterminate numbers', node)
            n, d = s.nl(n), s.nl(d)
            cn = cd = None
            if n.is_const() and d.is_const():
                g = math.gcd(n.c, d.c)
                if d.c and g:
                    k = (1 if d.c > 0 else -1) * g
                    cn, cd = n.c // k, d.c // k
                if cn is None or not (INT_MIN <= cn <= INT_MAX and cd <= INT_MAX):
                    I.do_throw(s, Exc('vt::value', (n, d)), node)
                    continue
                cn, cd = L(cn), L(cd)
            elif d.is_const() and d.c == 1:
                cn, cd = n, d
            else:
                bad = s.copy()
                I.do_throw(bad, Exc('vt::value', (n, d)), node)
                good = s.assume(c_not(c_eq(d)))
                for y in good:
                    out += [(z, VOID) for z in self.put(I, y, this, L(Term('fracnum', n, d)), L(Term('fracden', n, d)), node)]
                continue
            out += [(z, VOID) for z in self.put(I, s, this, cn, cd, node)]
        return out

    def put(self, I, s, this, n, d, node):
        v = dict(s.store[this.root].f) if not this.path else None
        if v is None:
            I.giveup('construction in place', node)
        v['numerator_'], v['denominator_'] = n, d
        return I.write(s, this, Struct(s.store[this.root].cls, v), node)

    def expect(self, c):
        odd = c.lead()
        n = c.number('int', SIGN | DIG)
        if n is None:
            return ERROR
        if odd:
            return ANY
        if c.ends():
            return ('value', L(n), ONE)
        if not c.char(47):
            return ERROR
        if c.peek()[0] in ('ch', 'blank') and c.peek()[1] <= BLANK:
            return ANY
        d = c.number('int', SIGN | DIG)
        if d is None:
            return ERROR
        if not c.ends():
            return ERROR
        return ('value', L(n), L(d))

    def same_error(self, st, e, want):
        n, d = e.msg if hasattr(e, 'msg') else e.args[1]
        return st.nl(n - want[1]) == ZERO and st.nl(d - want[2]) == ZERO

    def matches(self, st, t, want):
        n, d = st.nl(want[1]), st.nl(want[2])
        if d == ONE:
            e = (n, ONE)
        else:
            e = (L(Term('fracnum', n, d)), L(Term('fracden', n, d)))
        return all(isinstance(x, Lin) and st.entails_eq(x - y) for x, y in zip((t.f['numerator_'], t.f['denominator_']), e))

    def concrete(self, st, t):
        return (self.const(st, t.f['numerator_']), self.const(st, t.f['denominator_']))

    def reference(self, b):
        i, odd = lead_of(b)
        m = re.compile(rb'[+-]?[0-9]+').match(b, i)
        if not m:
            return (ANY if odd and False else ERROR), 0, 0
        if odd:
            return ANY, 0, 0
        n = int(m.group())
        j = m.end()
        fits = lambda x: INT_MIN <= x <= INT_MAX
        ok, und = after(b, j)
        if not fits(n):
            return ERROR, 0, 0
        if ok:
            return (ANY if und else ('value', (n, 1))), j, blanks_after(b, j)
        if b[j] != 47:
            return ERROR, 0, 0
        if j + 1 < len(b) and b[j + 1] <= 32:
            return ANY, 0, 0
        m = re.compile(rb'[+-]?[0-9]+').match(b, j + 1)
        if not m:
            return ERROR, 0, 0
        d = int(m.group())
        j = m.end()
        ok, und = after(b, j)
        if not ok or not fits(d) or d == 0:
            return ERROR, 0, 0
        g = math.gcd(n, d) * (1 if d > 0 else -1)
        n, d = n // g, d // g
        if not (fits(n) and fits(d)):
            return ERROR, 0, 0
        return (ANY if und else ('value', (n, d))), j, blanks_after(b, j)

    def ofsize(self, n):
        return ['0' * n + '1', '1/' + '0' * n + '2', ' ' * n + '1/2', '0' * n + '1 5']

    def texts(self):
        ints = ['0', '7', '12', '+1', '-3', '-0', '007', '2147483647', '-2147483648']
        bad = ['', '+', '-', '+-1', '--1', 'z', '.5', '/', '99999999999', '-99999999999', '2147483648', '+ 1', '- 1', 'z1', '\xff', '\x80', '$1', ',']
        for a in ints:
            yield a
            for b in ('', ' ', '\n', '\t', ' 233', '\r\n5', '  '):
                yield a + b
            for x in ('z', '|2', '/', '/z2', '//2', '.5', 'e2', '-', '+2', '/+', '/-', '/2z', '/2/3', '/2.5', '/0', '/99999999999', '\xff', 'z/2', '|', ',2', '/.2', '/2\xff', '/2|', '/2-', '/2+1', '/\xff'):
                yield a + x
                yield a + x + ' 1'
            for d in ints[1:] + ['4']:
                yield a + '/' + d
                yield a + '/' + d + ' 5'
                yield ' \n' + a + '/' + d + '\n'
            for p in (' ', '\n\t', '   ', '\r', '\v\f'):
                yield p + a
                yield p + a + '/2'
        for x in bad:
            for p in ('', ' ', '\n \t'):
                yield p + x
                yield p + x + ' 1'
                yield p + x + '/2'
        for c in range(256):
            ch = chr(c)
            for t in (ch, ch + '1', '1' + ch, '1' + ch + '2', '1/' + ch, '1/2' + ch, '1/2' + ch + '3', ' ' + ch, '-' + ch, '1/-' + ch):
                yield t


class ComplexIn(Reading):
    key, cls = '.operator>>(basic_istream,Complex)', 'Complex'

    def contracts(self, lazy):
        return {}

    def expect(self, c):
        odd = c.lead()
        r = c.number('real', SIGN | DIG | {46})
        if r is None:
            return ERROR
        if odd:
            return ANY
        if c.ends():
            return ('value', Fl(r), Fl(0.0))
        if c.char(106):
            return ('value', Fl(0.0), Fl(r)) if c.ends() else ERROR
        if not c.among(SIGN):
            return ERROR
        i = c.number('real', SIGN | DIG | {46})
        if i is None:
            return ERROR
        if c.peek()[0] in ('ch', 'blank') and c.peek()[1] <= BLANK:
            return ANY
        if not c.char(106):
            return ERROR
        return ('value', Fl(r), Fl(i)) if c.ends() else ERROR

    def same_error(self, st, e, want):
        return False

    def matches(self, st, t, want):
        return all(isinstance(x, Fl) and x == y for x, y in zip((t.f['real_'], t.f['imag_']), want[1:]))

    def concrete(self, st, t):
        out = []
        for k in ('real_', 'imag_'):
            x = t.f[k]
            if isinstance(x, Lin):
                x = Fl(float(self.const(st, x)))
            if not isinstance(x, Fl) or isinstance(x.t, Term):
                raise Nothing()
            out.append(float(x.t))
        return tuple(out)

    def reference(self, b):
        i, odd = lead_of(b)
        num = re.compile(rb'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?(?![0-9.eE])')
        bad = re.compile(rb'[+-]?[0-9.]')

        def real(i, sign=False):
            m = num.match(b, i)
            if not m:
                # '1.2.3j' and the like
                return None
            x = float(m.group())
            return None if math.isinf(x) else (x, m.end())
        r = real(i)
        if r is None:
            return ERROR, 0, 0
        if odd:
            return ANY, 0, 0
        x, j = r
        ok, und = after(b, j)
        if ok:
            return (ANY if und else ('value', (x, 0.0))), j, blanks_after(b, j)
        if b[j] == 106:
            ok, und = after(b, j + 1)
            return (ERROR if not ok else ANY if und else ('value', (0.0, x))), j + 1, blanks_after(b, j + 1)
        if b[j] not in SIGN:
            return ERROR, 0, 0
        r = real(j)
        if r is None:
            return ERROR, 0, 0
        y, j = r
        if j < len(b) and b[j] <= 32:
            return (ANY if b[blanks_after(b, j):][:1] == b'j' else ERROR), 0, 0
        if j == len(b) or b[j] != 106:
            return ERROR, 0, 0
        ok, und = after(b, j + 1)
        return (ERROR if not ok else ANY if und else ('value', (x, y))), j + 1, blanks_after(b, j + 1)

    def ofsize(self, n):
        return ['1' + '0' * n + '.5', '0.' + '3' * n + 'j', '1+' + '0' * n + '2j', ' ' * n + '1']

    def texts(self):
        reals = ['0', '7', '1.5', '.5', '5.', '1e2', '1.5E-3', '233.33', '1e+2']
        for a in [s + r for r in reals for s in ('', '+', '-')]:
            for t in ('', 'j', ' ', '\n', ' 233', 'j ', 'j 5', '+2j', '-2j', '-.5j', '+1e2j', '+2j 3', '-2.5j\n'):
                yield a + t
            for t in ('z', '+2', '-2', '+', '-', '+j', '-j', 'jj', '+2jj', '+2jz', '+2z', '+z2j', 'z+2j', '+2+3j', '+2j+3j', '2j', 'j2', 'jj2j', '|2j', '+2 ', '+2 5', '+-2j', '.5j', '/2', '+2i', 'i', '\xff', '+.j', '+ej', 'j.', '+2j.', '+1e999j', 'J', '+2J', '+2j-'):
                yield a + t
                yield a + t + ' 1'
            for p in (' ', '\n\t', '\r '):
                for t in ('', 'j', '+2j'):
                    yield p + a + t
        for x in ('', '+', '-', '.', 'j', '+j', '-j', '.j', 'z', 'e5', '(1+2j)', 'nan', 'inf', '-inf', '1e999', '-1e999', '1e', '1e+', '+-1', '--1', '..5', 'z1', '+ 1', '- 1j', '$', '\xff', 'i', '(', ')', ','):
            for p in ('', ' ', '\n \t'):
                yield p + x
                yield p + x + ' 1'
                yield p + x + '+2j'
        for c in range(256):
            ch = chr(c)
            for t in (ch, ch + '1', '1' + ch, '1' + ch + '2', '1' + ch + '2j', '1j' + ch, '1+' + ch, '1+2' + ch, '1+2j' + ch, '1+2j' + ch + '3', ' ' + ch, '-' + ch, '1+' + ch + '2j', '1-2' + ch + 'j'):
                yield t


class IntIn(Reading):
    key, cls = '.operator>>(basic_istream,Int)', 'Int'

    def contracts(self, lazy):
        f = self.A.fn.get('Int.Int(ptr)')
        if f is None:
            return {}
        return {f['fid']: self.ctor}

    def ctor(self, I, st, f, this, args, node):
        it = args[0]
        out = []
        for s, it in I.rv(st, args[0], node):
            if not isinstance(it, Iter):
                I.giveup('conversion of %r' % (it,), node)
            for s, q in I.rv(s, it.addr, node):
                if not isinstance(q, Seq) or s.nl(it.pos) != ZERO or q.kind not in ('string', 'array'):
                    I.giveup('conversion of %r' % (it,), node)
                ps = simp(s, q.p)
                if q.kind == 'array':
                    k = [i for i, p in enumerate(ps) if p == ('one', ZERO)]
                    if not k:
                        I.giveup('conversion of %r' % (it,), node)
                    ps = ps[:k[0]]
                old = s.store[this.root]
                v = dict(old.f)
                if all(p[0] == 'one' and isinstance(p[1], Lin) and s.nl(p[1]).is_const() for p in ps):
                    t = bytes(s.nl(p[1]).c & 255 for p in ps).split(b'\0')[0]
                    if not re.fullmatch(rb'[+-]?[0-9]+', t):
                        I.do_throw(s, Exc('vt::value', t), node)
                        continue
                    n = int(t)
                    v['sign_'] = L((n > 0) - (n < 0))
                    v['chunks_'] = v['chunks_'].with_p(tuple(('one', L(int(c))) for c in reversed(str(abs(n))) if n))
                elif len(ps) == 1 and ps[0][0] == 'op' and ps[0][1].op == 'printed':
                    # a printed integer is a well-formed literal
                    g = I.mk_record(I.P.rec(f['cls']), Term('parsed', ps[0][1]))
                    v.update({k: x for k, x in g.f.items() if k != '__id'})
                elif len(ps) == 1 and ps[0][0] == 'sl':
                    I.do_throw(s.copy(), Exc('vt::value', ps[0]), node)
                    b = Term('parsed', ps[0][1], s.nl(ps[0][2]), s.nl(ps[0][3]))
                    g = I.mk_record(I.P.rec(f['cls']), b)
                    v.update({k: x for k, x in g.f.items() if k != '__id'})
                else:
                    I.giveup('conversion of a composed text', node)
                out += [(z, VOID) for z in I.write(s, this, Struct(old.cls, v), node)]
        return out

    def expect(self, c):
        odd = c.lead()
        k, cs, x = c.peek()
        if odd:
            return ANY
        if k == 'EOF':
            return ERROR
        if k != 'word':
            raise Mixed('the text of the number')
        c.i += 1
        return ('value', x)

    def path(self, o, st0):
        self.cur = o.st
        super().path(o, st0)

    def whole(self, st, want):
        from engine.stdlib import t_len
        return want[1], ZERO, st.nl(t_len(want[1]))

    def same_error(self, st, e, want):
        p = e.msg
        return isinstance(p, tuple) and p[0] == 'sl' and (p[1], st.nl(p[2]), st.nl(p[3])) == self.whole(st, want)

    def matches(self, st, t, want):
        g = Term('parsed', *self.whole(st, want))
        I = self.interp(True)
        r = I.mk_record(self.P.rec(self.P.strip(self.f['params'][1]['t'])['i'] if False else self.f['params'][1]['t']), g)
        return self.fields(st, t) == self.fields(st, r)

    def concrete(self, st, t):
        op = intcomp.IntOp.__new__(intcomp.IntOp)
        sg, ds = op.cells(st, t)
        return sg * sum(d * 10 ** i for i, d in enumerate(ds))

    def reference(self, b):
        i = 0
        while i < len(b) and b[i] in SP:
            i += 1
        if i < len(b) and b[i] in CTRL:
            return ANY, 0, 0
        m = re.compile(rb'[^ \t\n\v\f\r]*').match(b, i)
        if b'\0' in m.group() or any(c in CTRL for c in m.group()):
            return ANY, 0, 0
        if not re.fullmatch(rb'[+-]?[0-9]+', m.group()):
            return ERROR, 0, 0
        return ('value', int(m.group())), m.end(), blanks_after(b, m.end())

    def ofsize(self, n):
        return ['7' * n, '-' + '12' * (n // 2), '7' * n + ' 1', ' ' * n + '12']

    def texts(self):
        for a in ('0', '7', '+1', '-3', '-0', '007', '12345678901234567890', '-98765432109876543210'):
            for p in ('', ' ', '\n\t', '\r '):
                for t in ('', ' ', '\n', ' 5', '\t-6'):
                    yield p + a + t
            for t in ('z', '.5', 'e2', '-', '+', ',', "'", '/2', '\xff', '_1', '1-'):
                yield a + t
                yield a + t + ' 1'
        for x in ('', '+', '-', 'z', '+-1', '--1', '.5', '- 1', '+ 1', 'z1', '\xff', '$1'):
            for p in ('', ' ', '\n \t'):
                yield p + x
                yield p + x + ' 1'


class StrIn(Reading):
    """a line: the characters up to the next newline, which is consumed"""
    key, cls = '.operator>>(basic_istream,Str)', 'Str'

    def contracts(self, lazy):
        return {}

    def text(self, st, t):
        q = t.f.get('str_') if isinstance(t, Struct) else None
        if not isinstance(q, Seq):
            raise Giveup('the text of a string')
        return simp(st, q.p)

    def path(self, o, st0):
        if o.kind != 'ret':
            self.failed.append(('undefined behaviour' if o.kind == 'ub' else 'raises an error', None))
            return
        s, h = o.st.store['is'], o.st.store['is'].hist
        if o.val != Addr('is'):
            self.failed.append(('the result is not the stream', None))
        elif len(h) == 1 and h[0][0] == 'end':
            if not s.failed():
                self.failed.append(('the end of the input is not reported', None))
        elif len(h) == 1 and h[0][0] == 'line':
            b = h[0][1]
            if s.failed() or self.text(o.st, o.st.store['t']) != simp(o.st, (('sl', b, ZERO, self.size(o.st, b)),)):
                self.failed.append(('the stored text is not the line', None))
        else:
            self.failed.append(('more or less than a line is consumed', None))

    def size(self, st, t):
        from engine.stdlib import t_len
        return st.nl(t_len(t))

    def concrete(self, st, t):
        out = []
        for p in self.text(st, t):
            if p[0] != 'one':
                raise Nothing()
            out.append(self.const(st, p[1]) & 255)
        return bytes(out)

    def wrong(self, b):
        I = self.interp(False)
        st = self.start(I, IStream(tuple(b)))
        try:
            outs = [o for o in I.run(st, self.f['fid'], None, [Addr('is'), Addr('t')]) if not o.st.empty()]
        except Hangs as e:
            return ((self.prop, 'C18'), 'the loop at line %s repeats without consuming a character' % e)
        if len(outs) != 1 or outs[0].st.taint:
            raise Nothing()
        o = outs[0]
        t, s = o.st.store['t'], o.st.store['is']
        if o.kind == 'ub':
            return ub_props(o.val) + (self.prop,), 'undefined behaviour: %s at line %s' % (o.val, o.line)
        if o.kind == 'throw':
            return (self.prop,), 'raises %s' % (o.val,)
        if not b:
            return None if s.failed() else ((self.prop,), 'the end of the input is not reported')
        line, nl, _ = b.partition(b'\n')
        if s.failed():
            return (self.prop,), 'leaves the stream failed although a line is there'
        got = self.concrete(o.st, t)
        if got != line:
            return (self.prop,), 'stores %s, not %s' % (repr(got)[:80], repr(line)[:80])
        if s.pos != len(line + nl):
            return (self.prop,), 'part of the line is left in the stream' if s.pos < len(line + nl) else 'characters after the line are consumed'
        return None

    def ofsize(self, n):
        return ['a' * n, 'ab ' * (n // 3) + '\nxy']

    def texts(self):
        for a in ('', 'a', ' ', 'ab', ' a', 'a ', '\t', '\r', 'a\r', '\0', 'a\0b', '\xff', 'a b', '  a  b  ', '"a"', '"', "'", '#', '\\', 'a\\', ',', '\v', '\f', '0', '-'):
            for t in ('', '\n', '\n\n', '\n ', '\nxy', '\n\nxy\n'):
                yield a + t


# ---------------------------------------------------------------- printing and reading back

class RoundTrip:
    """the printed form of a number, as the content of a stream, is read as the same number"""
    needs_program = True

    def __init__(self, reader, printer, prop='C33'):
        self.reader, self.printer, self.prop = reader, printer, prop
        self.name = 'round trip of ' + reader.cls

    def run(self, A):
        t0 = time.time()
        res = Result()
        self.P = A.P
        r = self.reader
        r.P, r.A, r.failed, r.hung = A.P, A, [], None
        f, g = A.fn.get(self.printer), A.fn.get(r.key)
        r.f = g
        if f is None or g is None:
            res.undecided.append('not found')
            return res
        self.f = f
        bad = []
        try:
            for st in self.operands(r, f):
                x0 = st.store['x']
                I = r.interp(True)
                for o in I.run(st, f['fid'], None, [Addr('os'), Addr('x')]):
                    if o.st.empty():
                        continue
                    if o.kind != 'ret' or o.st.taint:
                        bad.append('printing: %s' % (o.val,))
                        continue
                    seed = self.content(o.st, o.st.store['os'].toks, st)
                    s = o.st.copy()
                    s.store['is'] = IStream(seed=seed)
                    s.store['t'] = I.mk_generic(g['params'][1]['t'], Term('sym', 'old'))
                    J = r.interp(True)
                    for o2 in J.run(s, g['fid'], None, [Addr('is'), Addr('t')]):
                        if o2.st.empty():
                            continue
                        if o2.kind == 'throw' and o2.val.type == 'vt::value' and self.own(o2.st, o2.val.msg, x0):
                            continue        # construction from its own parts succeeds (decided by the constructor's own units)
                        res.outcomes += 1
                        if o2.kind != 'ret' or o2.st.taint or o2.st.store['is'].failed():
                            bad.append('reading the printed form: %s %s' % (o2.kind, o2.val if o2.kind != 'ret' else ''))
                        elif not self.back(r, o2.st, o2.st.store['t'], x0):
                            bad.append('reading the printed form gives %r' % (o2.st.store['t'],))
        except (Giveup, Nothing) as e:
            bad.append('not analysable: %s' % e)
        res.obligations = res.outcomes + (1 if bad else 0)
        res.discharged = max(0, res.outcomes - len(bad))
        if bad:
            w = None
            try:
                with limit(60):
                    w = self.refute()
            except Slow:
                pass
            if w:
                res.problems.append(Problem((self.prop,), w[0], r.key, loc_of(g), w[1]))
            else:
                res.undecided += bad[:3]
        res.time = time.time() - t0
        return res

    def refute(self):
        r = self.reader
        for v in self.values():
            try:
                I = r.interp(False)
                I.loop_hook = None
                I.unroll = 3100
                st = State()
                st.store['os'] = OStream()
                st.store['x'] = self.concrete(I, v)
                outs = [o for o in I.run(st, self.f['fid'], None, [Addr('os'), Addr('x')]) if not o.st.empty()]
                if len(outs) != 1 or outs[0].st.taint or outs[0].kind != 'ret' or I.partial:
                    continue
                t = printed(outs[0].st, outs[0].st.store['os'].toks)
                I = r.interp(False)
                st = r.start(I, IStream(tuple(t.encode('latin-1'))))
                outs = [o for o in I.run(st, r.f['fid'], None, [Addr('is'), Addr('t')]) if not o.st.empty()]
                if len(outs) != 1 or outs[0].st.taint:
                    continue
                o = outs[0]
                if o.kind != 'ret' or o.st.store['is'].failed():
                    return 'its printed form %r is rejected' % t, 'value %r' % (v,)
                got = r.concrete(o.st, o.st.store['t'])
                if got != v:
                    return 'its printed form %r is read as %r' % (t, got), 'value %r' % (v,)
            except (Nothing, Giveup):
                continue
        return None

    def own(self, st, parts, x):
        return False


class FractionTrip(RoundTrip):
    def __init__(self):
        super().__init__(FractionIn('C33'), '.operator<<(basic_ostream,Fraction)')

    def operands(self, r, f):
        I = r.interp(True)
        st = State()
        st.store['os'] = OStream()
        v = I.mk_generic(f['params'][1]['t'], Term('sym', 'x'))
        n, d = v.f['numerator_'], v.f['denominator_']
        for x, lo in ((n, INT_MIN), (d, 1)):
            st.add_ge(x - lo)
            st.add_ge(L(INT_MAX) - x)
        st.store['x'] = v
        yield st

    def content(self, st, toks, st0):
        out = []
        for p in toks:
            if p[0] == 'one' and isinstance(p[1], Lin) and st.nl(p[1]).is_const():
                out.append(('ch', st.nl(p[1]).c))
            elif p[0] == 'one' and isinstance(p[1], Obj) and p[1].tag == 'num' and p[1].a[0] == 'int':
                out.append(('int', p[1].a[1]))
            else:
                raise Giveup('printed form')
        return tuple(out)

    def own(self, st, parts, x):
        n, d = parts
        return st.entails_eq(n - x.f['numerator_']) and st.entails_eq(d - x.f['denominator_'])

    def back(self, r, st, t, x):
        # the fraction of its own parts is the value itself: the parts have no common factor and the denominator is positive
        n, d = x.f['numerator_'], x.f['denominator_']
        a, b = t.f['numerator_'], t.f['denominator_']
        if isinstance(a, Lin) and isinstance(b, Lin):
            if st.entails_eq(a - n) and st.entails_eq(b - d):
                return True
            a, b = st.nl(a), st.nl(b)
            return a == L(Term('fracnum', st.nl(n), st.nl(d))) and b == L(Term('fracden', st.nl(n), st.nl(d)))
        return False

    def values(self):
        return [(0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (7, 3), (-22, 7), (INT_MAX, 1), (INT_MIN, 1), (1, INT_MAX), (INT_MIN, 3), (10, 9), (100, 101), (INT_MIN, INT_MAX), (12, 1), (-7, 10 ** 9)]

    def concrete(self, I, v):
        x = I.mk_generic(self.f['params'][1]['t'], Term('sym', 'x'))
        return Struct(x.cls, dict(x.f, numerator_=L(v[0]), denominator_=L(v[1])))


class IntTrip(RoundTrip):
    def __init__(self):
        super().__init__(IntIn('C33'), PRINT)

    def operands(self, r, f):
        self.ip = IntPrint('C33')
        self.ip.P, self.ip.f = self.P, f
        st = State()
        st.store['os'] = OStream()
        for sg, s, b, n in self.ip.operand(r.interp(True), st, f, 1):
            self.cur = r.trip = (sg, b, n)
            yield s

    def content(self, st, toks, st0):
        sg, b, n = self.cur
        if not self.ip.right(None, st, sg, b, n):
            raise Giveup('printed form')
        t = Term('printed', Term('sym', 'x'), L(sg))
        st.add_ge(L(Term('textlen', t)) - 1)
        return (('word', t),)

    def back(self, r, st, t, x):
        # the conversion of a text is the integer whose digits it shows (decided by the conversion's own units)
        sg, b, n = self.cur
        w = Term('parsed', Term('printed', Term('sym', 'x'), L(sg)))
        I = r.interp(True)
        return r.fields(st, t) == r.fields(st, I.mk_record(self.P.rec(self.f['params'][1]['t']), w))

    def values(self):
        ip = IntPrint('C33')
        ip.P, ip.f = self.P, self.f
        for x in ip.values():
            yield x
        ip.f = self.reader.f
        for x in ip.values():
            yield x

    def concrete(self, I, v):
        self.ip = IntPrint('C33')
        self.ip.P, self.ip.f = self.P, self.f
        return self.ip.value(I, self.f, 1, v)


def components(prop):
    if prop == "C24":
        return [IntPrint()]
    if prop == 'C33':
        return [FractionTrip(), IntTrip()]
    return reading(prop)


def reading(prop):
    return [FractionIn(prop), ComplexIn(prop), IntIn(prop), StrIn(prop)]


# ---------------------------------------------------------------- printing a big integer

PRINT = '.operator<<(basic_ostream,Int)'


def digit_tokens(st, toks):
    """the printed characters as digits: every digit character or one-digit number by its digit; None for another token"""
    out = []
    for p in toks:
        if p[0] == 'one' and isinstance(p[1], Obj) and p[1].tag == 'num' and p[1].a[0] == 'int':
            out.append(('one', L(p[1].a[1])))
        elif p[0] == 'one' and isinstance(p[1], Lin):
            out.append(('one', st.nl(p[1] - 48)))
        elif p[0] == 'cm':
            q = digit_tokens(st, p[1])
            if q is None or any(x[0] != 'one' for x in q):
                return None
            out.append(('cm', tuple(q)) + tuple(p[2:]))
        elif p[0] == 'op' and p[1].op == 'map' and p[1].args[0].op == 'seqkey' and p[1].args[1].op == 'ctab':
            # every element through a table: the digits 0..9 must become their characters
            tab = p[1].args[1].args[0]
            if len(tab) != 256 or any(tab[d + 128] != 48 + d for d in range(10)):
                return None
            out += list(p[1].args[0].args[0])
        else:
            return None
    return out


def printed(st, toks):
    """characters of a constant output"""
    out = ''
    for p in toks:
        if p[0] != 'one':
            raise Nothing()
        x, w, fill = p[1], 0, ' '
        if isinstance(x, Obj) and x.tag == 'padded':
            x, w, fill = x.a[0], x.a[1], x.a[2]
            if not all(isinstance(y, Lin) and st.nl(y).is_const() for y in (w, fill)):
                raise Nothing()
            w, fill = st.nl(w).c, chr(st.nl(fill).c)
        if isinstance(x, Obj) and x.tag == 'num' and x.a[0] == 'int' and st.nl(x.a[1]).is_const():
            t = str(st.nl(x.a[1]).c)
        elif isinstance(x, Lin) and st.nl(x).is_const():
            t = chr(st.nl(x).c & 255)
        else:
            raise Nothing()
        out += t.rjust(w, fill)
    return out


class IntPrint:
    """sign when negative, then the digits from the most significant one; 0 for zero"""
    needs_program = True
    name = 'printing Int'

    def __init__(self, prop='C24'):
        self.prop = prop

    def interp(self, concrete=False):
        I = Interp(self.P, {})
        I.budget = 60000
        if concrete:
            I.unroll = 3100
        return I

    def operand(self, I, st, f, i):
        """[(sign, state)] with the generic operand 'x'"""
        v = I.mk_generic(f['params'][i]['t'], Term('sym', 'x'))
        q = v.f['chunks_']
        n = pslen(q.p)
        for sg in (0, 1, -1):
            s = st.copy()
            d = dict(v.f)
            d['sign_'] = L(sg)
            q = d['chunks_'] = Seq(q.p, q.kind, dict(q.et, lo=0, hi=9))      # digits, by the canonical form
            if sg:
                s.add_ge(n - 1)
                s.add_ge(L(10 ** 9) - n)
            else:
                d['chunks_'] = q.with_p(())
            s.store['x'] = Struct(v.cls, d)
            yield sg, s, q.p[0][1], n

    def run(self, A):
        t0 = time.time()
        self.P, self.A = A.P, A
        res = self.res = Result()
        f = self.f = A.fn.get(PRINT)
        if f is None:
            res.undecided.append('not found')
            return res
        self.failed = []
        n = 0
        try:
            I = self.interp()
            st0 = State()
            st0.store['os'] = OStream()
            for sg, st, b, ln in self.operand(I, st0, f, 1):
                for o in I.run(st, f['fid'], None, [Addr('os'), Addr('x')]):
                    if o.st.empty():
                        continue
                    n += 1
                    if o.kind != 'ret' or o.st.taint or not self.right(I, o.st, sg, b, ln):
                        self.failed.append(('for sign %d the output is %s' % (sg, o.st.store['os'] if o.kind == 'ret' else o.kind), None))
                    elif o.st.store['x'].f['chunks_'].p != st.store['x'].f['chunks_'].p or o.val != Addr('os'):
                        self.failed.append(('the operand or the result is not the documented one', None))
        except Giveup as e:
            self.failed.append(('not analysable: %s' % e, None))
        res.outcomes = res.obligations = n
        res.discharged = n - len(self.failed) if n else 0
        if self.failed:
            res.discharged = max(0, res.discharged)
            w = None
            try:
                with limit(60):
                    w = self.refute()
            except Slow:
                pass
            if w:
                res.problems.append(Problem((self.prop,), w[0], PRINT, loc_of(f), w[1]))
            else:
                res.undecided += [x[0] for x in self.failed[:3]]
        res.time = time.time() - t0
        return res

    def right(self, I, s, sg, b, n):
        from engine import loops
        toks = list(s.store['os'].toks)
        if sg == 0:
            return printed(s, toks) == '0'
        if sg < 0:
            if not (toks and toks[0] == ('one', L(45))):
                return False
            toks = toks[1:]
        d = digit_tokens(s, toks)
        if d is None:
            return False
        K = L(Term('sym', '$k'))
        pos = n                     # digits from `pos` on are printed already
        for p in d:
            if p[0] in ('rv', 'sl') and p[1] is b and (p[0] == 'rv' or s.entails_eq(p[3] - p[2] - 1)):
                if not s.entails_eq(p[3] - pos):
                    return False
                pos = s.nl(p[2])
                continue
            items = p[1] if p[0] == 'cm' else (p,)
            count = p[2] if p[0] == 'cm' else ONE
            for q in items:
                x = s.nl(q[1]) if q[0] == 'one' else None
                if x is None or len(x.t) != 1 or x.c or x.t[0][1] != 1 or x.t[0][0].op != 'at' or x.t[0][0].args[0] is not b:
                    return False
                i = L(x.t[0][0].args[1])
                if p[0] == 'cm' and len(items) != 1 or not s.entails_eq(i - (pos - 1 - K if p[0] == 'cm' else pos - 1)):
                    return False
            pos = s.nl(pos - count)
        return s.entails_eq(pos)

    VALUES = [0, 1, -1, 7, -9, 10, -10, 12, 100, 101, -105, 90, 999, -1000, 12345, 10203, -987654321, 1000000, 10 ** 12 + 7, -10 ** 20, 1234567890123456789012]

    def value(self, I, f, i, x):
        v = I.mk_generic(f['params'][i]['t'], Term('sym', 'x'))
        d = dict(v.f)
        d['sign_'] = L((x > 0) - (x < 0))
        d['chunks_'] = d['chunks_'].with_p(tuple(('one', L(int(c))) for c in reversed(str(abs(x)))) if x else ())
        return Struct(v.cls, d)

    def text(self, x):
        I = self.interp(True)
        st = State()
        st.store['os'] = OStream()
        st.store['x'] = self.value(I, self.f, 1, x)
        outs = [o for o in I.run(st, self.f['fid'], None, [Addr('os'), Addr('x')]) if not o.st.empty()]
        if len(outs) != 1 or outs[0].st.taint or I.partial:
            raise Nothing()
        return outs[0]

    def values(self):
        for x in self.VALUES:
            yield x
        for n in [40, 70, 300] + sorted({m for c in intcomp.literals(self.P, self.f) if 5 <= c <= 1500 for m in (c - 1, c, c + 1)}):
            for d in ('7', '10', '90'):
                yield int((d * n)[:n])
                yield -int((d * n)[:n])

    def refute(self):
        for x in self.values():
            try:
                o = self.text(x)
                if o.kind != 'ret':
                    return '%s %s' % (o.kind, o.val), 'value %d' % x
                t = printed(o.st, o.st.store['os'].toks)
                if t != str(x):
                    return 'prints %r' % t, 'value %d' % x
            except (Nothing, Giveup):
                continue
        return None
