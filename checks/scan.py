"""Conversion of text to numbers as a finite automaton.

The scanning loop of a conversion reads one character per iteration.  Its abstract states (program point, values of the modified variables) are
explored for all 256 values of the next character, together with the automaton of the documented grammar; accumulators (the folded digits, digit
counters) stay symbolic and are related to the digits read so far by an inductive relation.  The language accepted and the value returned are
then compared on every reachable pair of states, i.e. for strings of every length.
"""
import itertools
import math
import os
import time
from fractions import Fraction

from .core import *          # noqa
from . import intspec, intcomp
from .intspec import World, Contracts, NotCanonical
from .intcomp import limit, Slow, Nothing, loc_of
from engine.interp import Interp
from engine import digits as D
from engine import loops, flt, interp as _interp
from engine.loops import Lasso
from engine.loops import Loc, Capture, get_path

BLANK = {ord(c) for c in ' \n\t\r'}
DIGITS = '0123456789abcdefghijklmnopqrstuvwxyz'
ALL = [c - 256 if c > 127 else c for c in range(256)]


def digit(c, base):
    if not 0 <= c < 128:
        return -1
    d = DIGITS.find(chr(c).lower())
    return d if 0 <= d < base else -1


class IntSpec:
    """blank* sign? digit+ blank*   (blanks only when `blank`)"""
    regs = ('V',)
    dead = 'X'

    def __init__(self, base, blank=True):
        self.base, self.blank = base, blank

    def start(self):
        return ('S', 1, 0), {'V': ZERO}

    def next(self, q, c):
        """(state, digit or None)"""
        ph, sg, pos = q
        d = digit(c, self.base)
        if c in BLANK and self.blank:
            return ((ph if ph in 'SZ' else 'Z' if ph == 'I' else 'X', sg, pos) if ph in 'SIZ' else ('X', 1, 0)), None
        if c in (43, 45) and ph == 'S':
            return ('G', 1 if c == 43 else -1, 0), None
        if d >= 0 and ph in 'SGI':
            return ('I', sg, 1 if pos or d else 0), d
        return ('X', 1, 0), None

    def feed(self, q, regs, d, q2):
        if q2[0] == 'X':
            return {'V': ZERO}
        if d is None:
            return regs
        return {'V': regs['V'].scale(self.base) + d}

    def accept(self, q):
        return q[0] in 'IZ'

    def facts(self, st, q, regs, k):
        v = regs['V']
        if q[2]:
            st.add_ge(v - 1)

    def symbols(self, q, tag):
        return {'V': L(sym('V' + tag)) if q[2] else ZERO}

    def value(self, s):
        """value of an accepted string"""
        s = s.strip(' \n\t\r') if self.blank else s
        neg = s[:1] == '-'
        n = int(s.lstrip('+-'), self.base)
        return -n if neg else n

    def texts(self):
        ds = DIGITS[:self.base]
        big = ds[-1]
        good = ['0', '1', big, big.upper(), '10', '01', '00', '1' + big, big + '0' + '1', '1' * 12, (big + '0') * 6, '000', '0012', '0000000', '00000000' + big + '0', (big + '1') * 16, '0' * 40 + '1']
        out = list(good)
        for s in ('+', '-'):
            out += [s + g for g in good[:8]]
            out += [s, s + s, s + ' 1', '1' + s, s + ' ', ' ' + s + '1', s + '1 ', s + '-1', s + '+1']
        for b in ' \n\t\r':
            out += [b, b + '1', '1' + b, b + '1' + b, '1' + b + '1', '1' + b + b, b + b + '1', '1' + b + '-', '1' + b + '.', '-1' + b, b + '-1' + b, '+' + b + '1']
        for c in range(256):
            ch = chr(c)
            out += [ch, '1' + ch, ch + '1', '-' + ch]
            if c < 128:
                out += ['1' + ch + '1', '-1' + ch]
        out += ['', '+-1', '1.', '1e1', '0x1', '1,1', "1'1", '1_1', ' 1 1', '--1', '1--']
        return out


WORDS = {}
for _w in ('inf', 'INF', 'Inf', 'infinity', 'INFINITY', 'Infinity'):
    WORDS[_w] = WORDS['+' + _w] = 'inf'
    WORDS['-' + _w] = '-inf'
for _w in ('nan', 'NaN', 'NAN'):
    WORDS[_w] = WORDS['+' + _w] = WORDS['-' + _w] = 'nan'


class DecSpec:
    """blank* sign? (digit+ (. digit*)? | . digit+) ([eE] sign? digit+)? blank*"""
    regs = ('M', 'K', 'X')
    dead = 'X'

    def start(self):
        return ('S', 1, 1), {'M': ZERO, 'K': ZERO, 'X': ZERO}

    def next(self, q, c):
        ph, s, e = q
        d = digit(c, 10)
        X = (('X', 1, 1), None)
        if c in BLANK:
            return ((ph if ph == 'S' else 'Z', s, e), None) if ph in 'SIDNZ' else X
        if c in (43, 45):
            g = 1 if c == 43 else -1
            return (('G', g, 1), None) if ph == 'S' else (('F', s, g), None) if ph == 'E' else X
        if d >= 0:
            if ph in 'SGI':
                return ('I', s, e), ('M', d)
            if ph in 'PD':
                return ('D', s, e), ('K', d)
            if ph in 'EFN':
                return ('N', s, e), ('X', d)
            return X
        if c == 46:
            return (('P', s, e), None) if ph in 'SG' else (('D', s, e), None) if ph == 'I' else X
        if c in (69, 101):
            return (('E', s, e), None) if ph in 'ID' else X
        return X

    def feed(self, q, regs, d, q2):
        if q2[0] == 'X':
            return {'M': ZERO, 'K': ZERO, 'X': ZERO}
        if d is None:
            return regs
        r = dict(regs)
        if d[0] == 'X':
            r['X'] = r['X'].scale(10) + d[1]
        else:
            r['M'] = r['M'].scale(10) + d[1]
            if d[0] == 'K':
                r['K'] = r['K'] + 1
        return r

    def accept(self, q):
        return q[0] in 'IDNZ'

    def facts(self, st, q, regs, k):
        for r in self.regs:
            st.add_ge(regs[r])
        if k is not None:
            st.add_ge(L(k) - regs['K'])

    def symbols(self, q, tag):
        if q[0] in 'SGPX':
            return {'M': ZERO, 'K': ZERO, 'X': ZERO}
        return {'M': L(sym('M' + tag)), 'K': ZERO if q[0] == 'I' else L(sym('K' + tag)), 'X': L(sym('X' + tag)) if q[0] in 'NZ' else ZERO}

    def value(self, s):
        if s in WORDS:
            return float(WORDS[s])
        t = s.strip(' \n\t\r').lower()
        m, _, x = t.partition('e')
        neg = m[:1] == '-'
        i, _, f = m.lstrip('+-').partition('.')
        if len(x.lstrip('+-').lstrip('0')) > 4:
            v = Fraction(int(i + f or '0'))
            v = 0.0 if not v or x[0] == '-' else math.inf
        else:
            v = Fraction(int(i + f or '0'), 10 ** len(f)) * Fraction(10) ** int(x or '0')
            try:
                v = float(v)
            except OverflowError:
                v = math.inf
        return -v if neg else v

    def texts(self):
        good = ['0', '7', '12', '1.5', '.5', '5.', '0.25', '12.34', '1e2', '1E2', '1.5e3', '.5e1', '5.e1', '1e+2', '1e-2', '12.5e-3', '1.25E+2', '00.50', '.05', '1.05', '3.1e12', '9e10',
                '1e100', '1e-100', '2e300', '1e99999999999', '1e-99999999999', '1e0', '0e5', '1.e-1', '123456.789', '1e02', '25e-1', '1e12', '1e-12', '1.5e-10', '000', '0001.5', '9' * 12, '9' * 20, '1' + '0' * 40, '0.' + '0' * 12 + '25', '.' + '3' * 20, '1.' + '0' * 40 + '5', '9' * 20 + '.5e3', '1e00012']
        out = list(good)
        for s in ('+', '-'):
            out += [s + g for g in good]
            out += [s, s + '.', s + 'e1', s + ' 1', '1' + s, '1.' + s, '1e' + s, '1e1' + s, s + s + '1', '1' + s + '1', '1e' + s + s + '1', '.' + s + '1', '1e' + s + '.1', '1e' + s + ' 1', '1.5' + s + '1']
        for b in ' \n\t\r':
            for x in ('1', '1.5', '.5', '5.', '1e2', '-1', '-.5', '1e-2'):
                out += [b + x, x + b, b + x + b, b + b + x + b + b, x + b + '1', x + b + '.', x + b + 'e1', x + b + '-']
            out += [b, '1' + b + '.5', '1.' + b + '5', '1e' + b + '1', '.' + b + '5', '-' + b + '1', '1' + b + 'e1', '.' + b, '1e' + b, '1e+' + b, '-.' + b]
        for p in ('', '1', '1.', '.', '1.5', '1e', '1e+', '1e1', '-', ' ', '1 '):
            for c in range(256):
                out += [p + chr(c)]
                if c < 128 or p in ('', '1'):
                    out += [p + chr(c) + '1']
        out += ['', '..', '1..', '1..1', '1.1.1', '.e1', 'e', 'e1', '.1e', '1ee1', '1e1e1', '1e1.', '1e.1', '1e1.1', '+.', '-.e1', '1e--1', '1e+-1', '0x10', '1,5', '1_0', '1e5e', '1.5e']
        out += list(WORDS)
        for w in WORDS:
            out += [w[:-1], w + 'x', w + ' ', ' ' + w, w.swapcase(), '+' + w]
        out += ['infinit', 'Nan', 'nAn', 'iNf', '-iNF', 'infinite']
        return out


def accepts(spec, s):
    if isinstance(spec, DecSpec) and s in WORDS:
        return True
    q, _ = spec.start()
    for ch in s:
        q, _ = spec.next(q, ord(ch) - 256 if ord(ch) > 127 else ord(ch))
    return spec.accept(q)


class Bad(Exception):
    """the relation between an accumulator and the digits read is not inductive"""

    def __init__(self, loc):
        self.loc = loc


class Ghost:
    """the documented automaton run over the characters before `pos`"""
    __slots__ = ('q', 'pos', 'regs', 'text')

    def __init__(self, q, pos, regs, text):
        self.q, self.pos, self.regs, self.text = q, pos, regs, text


def ghost(st):
    for t in reversed(st.ev):
        if t[0] == 'ghost':
            return t[1]


def haunt(st, g):
    st.ev = tuple(t for t in st.ev if t[0] != 'ghost') + (('ghost', g),)


class Convert:
    """one conversion function against its grammar"""
    needs_program = True

    def __init__(self, key, spec, label, args=(), prop='C15', where='str'):
        self.key, self.spec, self.args, self.prop, self.where = key, spec, args, prop, where
        self.name = '%s%s' % (key, label)

    # ------------------------------------------------------------ frame
    def run(self, A):
        t0 = time.time()
        res = Result()
        try:
            W = getattr(A, 'int_world', None)
            if W is None:
                W = A.int_world = World(A.P)
        except Exception as e:
            res.undecided.append('no big-integer class: %r' % (e,))
            return res
        P = A.P
        fs = [dict(f, fid=fid) for fid, f in P.fns.items() if 'body' in f and key_of(P, f) == self.key]
        if not fs:
            res.undecided.append('function not found in the current sources')
            return res
        self.W, self.P, self.f, self.res = W, P, fs[0], res
        self.work = 0
        failed = []
        try:
            with limit(int(os.environ.get('VT_INT_LIMIT', '180'))):
                failed = self.prove()
        except Slow:
            failed = [('time limit', None)]
        except Giveup as e:
            failed = [('not analysable: %s' % e, None)]
        except RecursionError:
            failed = [('recursion limit', None)]
        except Exception as e:
            if os.environ.get('VT_CRASH'):
                raise
            failed = [('internal: %r' % (e,), None)]
        if failed:
            if res.obligations == res.discharged:
                res.obligations += 1
            hit = None
            try:
                with limit(60 if A.wit <= 40 else 240):
                    hit = self.refute([w for _, w in failed if w is not None])
            except (Slow, RecursionError, Giveup):
                pass
            except Exception as e:
                if os.environ.get('VT_CRASH'):
                    raise
                res.undecided.append('internal: %r' % (e,))
            if hit:
                res.problems.append(Problem(hit[0], hit[1], self.key, loc_of(self.f), hit[2]))
            for w, _ in failed[:4]:
                res.undecided.append(w)
        res.time = time.time() - t0
        return res

    def interp(self):
        C = getattr(self.W, 'table_', None)
        if C is None:
            C = self.W.table_ = Contracts(self.W).table()
        I = Interp(self.P, {k: v for k, v in C.items() if k != self.f['fid']})
        I.world = self.W
        I.memo_pure = {}
        I.budget = 10 ** 8
        return I

    def setup(self, I, st, pieces):
        """object, arguments; the text is `pieces`"""
        if self.where == 'str':
            rec = [r for r in self.P.records.values() if r['name'] == 'pyincpp::Str'][0]
            v = I.mk_record(rec, Term('sym', 'S'))
            fld = [k for k, x in v.f.items() if isinstance(x, Seq)][0]
            st.store['this'] = v.__class__(v.cls, dict(v.f, **{fld: v.f[fld].with_p(pieces(v.f[fld].p))}))
            self.text = ('this', (('f', fld),))
            self.src = v.f[fld].p[0][1]
            args = []
            for a in self.args:
                args.append(L(a))
            return Addr('this'), args
        st.store['this'] = I.default_record(self.W.rec)
        b = Term('base', Term('sym', 'S'))
        sq = Seq((('sl', b, ZERO, t_len(b)),), 'cstrz', _interp.CHAR)
        a = st.alloc(sq.with_p(pieces(sq.p)), 'text')
        self.text = (a.root, ())
        self.src = b
        return Addr('this'), [Iter(a, ZERO, ptr=True)]

    # ------------------------------------------------------------ proof
    def prove(self):
        assign = {}
        bad = set()
        self.control = set()
        self.probed = {}
        small = True
        t0 = time.time()
        for rnd in range(200):
            self.data = assign
            try:
                if small:
                    # relations are guessed on a few characters and then checked on all of them
                    self.alphabet = [ord(c) for c in '+-.eE 1707x']
                    self.explore()
                    small = False
                    self.alphabet = ALL if self.where == 'str' else [c for c in ALL if c]
                    self.probed = {}
                    self.states = 0
                    self.res.outcomes = self.res.obligations = self.res.discharged = 0
                return self.explore()
            except Bad as e:
                lc = e.loc
                if os.environ.get('VT_DEBUG'):
                    print('relation', lc, assign.get(lc), self.states, self.edges, '%.1f' % (time.time() - t0), file=sys.stderr)
                cands = self.relations(lc)
                if lc in assign:
                    bad.add((lc, assign[lc]))
                for r in cands:
                    if (lc, r) not in bad:
                        assign = dict(assign)
                        assign[lc] = r
                        break
                else:
                    if lc not in self.control:
                        # not an accumulator: keep its values apart
                        self.control.add(lc)
                        assign = {x: r for x, r in assign.items() if x != lc}
                        continue
                    return [('no inductive relation between %s and the digits read' % (lc[0].split('@')[0] + ''.join('.' + c[1] for c in lc[1]),), None)]
        return [('no inductive relation found', None)]

    def relations(self, lc):
        v = self.kinds_.get(lc)
        if isinstance(v, Struct):
            return ['V', 'sV']
        if isinstance(self.spec, IntSpec):
            return ['V', 'sV']
        if isinstance(v, Fl):
            return ['M', 'sM', 'K', 'X', 'M/10^K', '10^K', '10^-K', 'eX', 'sM/10^K']
        return ['K', 'X', '-K', 'eX'] + ['X~%d' % t for t in self.thresholds()] + ['M', 'sM']

    def thresholds(self):
        lits = sorted({abs(x) for x in intcomp.literals(self.P, self.f) if abs(x) >= 50})
        out = []
        for x in lits:
            for t in (x * 10, x, x + 1):
                if 1000 <= t < 2 ** 31 - 10 and t not in out:
                    out.append(t)
        return out

    def rel_value(self, rel, v, q, regs, mode):
        """value of an accumulator under a relation; v: a value of the same kind"""
        s, e = L(q[1]), L(q[2]) if len(q) > 2 else ONE
        if isinstance(v, Struct):
            return self.W.mk(1 if q[2] else 0, regs['V']) if rel == 'V' else self.W.mk(q[1] if q[2] else 0, regs['V'])
        if rel.startswith('X~'):
            return regs['X'] if mode == 'eq' else L(sym('E'))
        sg = {'V': lambda: regs['V'], 'sV': lambda: regs['V'].scale(q[1]), 'M': lambda: regs['M'], 'sM': lambda: regs['M'].scale(q[1]), 'K': lambda: regs['K'], '-K': lambda: -regs['K'], 'X': lambda: regs['X'],
              'eX': lambda: regs['X'].scale(q[2])}
        if isinstance(v, Fl):
            i2 = _interp.i2d
            if rel == '10^K' or rel == '10^-K':
                k = regs['K'] if rel == '10^K' else -regs['K']
                return Fl(10.0 ** k.c) if k.is_const() else Fl(Term('pow', Term('fl', '10.0'), i2(k).t))
            if rel.endswith('M/10^K'):
                m = regs['M'] if rel[0] == 'M' else regs['M'].scale(q[1])
                if regs['K'] == ZERO:
                    return i2(m)
                return _interp.fl_op('/', i2(m), Fl(Term('pow', Term('fl', '10.0'), i2(regs['K']).t)))
            return i2(sg[rel]())
        return sg[rel]()

    def explore(self):
        I = self.interp()
        self.I = I
        st = State()
        addr, args = self.setup(I, st, lambda p: p)
        root, path = self.text
        self.n = L(Term('len', self.src))
        st.add_ge(self.n)
        st.add_ge(L(INT_MAX - 1) - self.n)
        q, regs = self.spec.start()
        haunt(st, Ghost(q, ZERO, regs, ''))
        self.kinds_ = {}
        self.failed = []
        self.edges = 0
        self.states = 0
        I.loop_hook = self.hook
        self.busy = False
        _interp.WHOLE[0] = self.src
        try:
            outs = I.run(st, self.f['fid'], addr, args)
        finally:
            _interp.WHOLE[0] = None
        words = {}
        for o in outs:
            if o.st.empty():
                continue
            self.res.outcomes += 1
            self.final(o, words)
        if isinstance(self.spec, DecSpec) and not self.failed:
            for w in WORDS:
                if w not in words:
                    self.failed.append(('the spelling %r is not recognised' % w, w))
        n = self.edges + self.res.outcomes
        self.res.obligations += n
        self.res.discharged += max(0, n - len(self.failed))
        return self.failed

    def char(self, st, i):
        """constant value of the character at position i, or None"""
        v = st.nl(L(Term('at', self.src, st.nl(i))))
        return v.c if v.is_const() else None

    def known(self, st, i):
        """possible characters at position i"""
        c = self.char(st, i)
        if c is not None:
            return [c]
        t = Term('at', self.src, st.nl(i))
        vs = self.alphabet
        if not any(occurs(t, x) for cc in st.cons for x, _ in cc.t) and not any(occurs(t, a) for a in st.atoms):
            return None
        out = []
        for c in vs:
            s = st.copy()
            if s.add_eq(L(t) - c) and not s.empty():
                out.append(c)
        return out

    alphabet = ALL

    # ---- the loop
    def hook(self, I, st, node, step, cond, inc, body, do):
        if self.busy:
            return None
        g = ghost(st)
        if st.entails_eq(self.n - g.pos):
            return None     # the text has been read: an ordinary loop
        if do:
            raise Giveup('do loop over the text')
        with Capture(I) as cap:
            def cond_known(s):
                if cond is None:
                    return True
                r = I.ev_rv(s.copy(), cond)
                if len(r) != 1:
                    return None
                return r[0][0].decide(I.to_cond(r[0][1], node))
            r = None
            self.busy = True
            try:
                r = loops.const_loop(I, st, step, cond_known, node)
            finally:
                self.busy = False
            if r is not None:
                cap.commit()
        if r is not None:
            return r
        self.busy = True
        try:
            with Capture(I) as cap:
                r = self.fix(I, st, node, step, cond)
                cap.commit()
                return r
        finally:
            self.busy = False

    def fix(self, I, st0, node, step, cond):
        g0 = ghost(st0)
        k = L(sym('pos@%s' % (node.get('l'),)))
        tag = '@%s' % (node.get('l'),)
        todo = [(st0, 0)]
        outs = []
        while todo:
            s, n = todo.pop()
            try:
                outs += self.fix1(I, s, node, step, cond, k, tag)
            except NoIndex as e:
                if n >= 3:
                    raise
                todo += [(x, n + 1) for x in self.advance(s)]
        return outs

    def advance(self, st):
        """the automaton moved over one character read before the loop"""
        g = ghost(st)
        pos = st.nl(g.pos)
        cs = self.known(st, pos) if st.entails_ge(self.n - pos - 1) else None
        if cs is None:
            raise NoIndex('no variable follows the read position (%r %r)' % (g.q, pos))
        out = []
        for c in cs:
            s = st.copy()
            if not s.add_eq(L(Term('at', self.src, pos)) - c) or s.empty():
                continue
            q2, d = self.spec.next(g.q, c)
            haunt(s, Ghost(q2, pos + 1, self.spec.feed(g.q, g.regs, d, q2), g.text + chr(c % 256)))
            out.append(s)
        return out

    def index_locs(self, st, g):
        """(root, path) of variables equal to the read position"""
        out = []
        for r, v in st.store.items():
            if r == 'this' or r == self.text[0]:
                continue
            if isinstance(v, Lin) and st.entails_eq(v - g.pos):
                out.append((r, ()))
            elif isinstance(v, Iter) and v.addr.root == self.text[0] and not v.rev and st.entails_eq(v.pos - g.pos):
                out.append((r, ()))
        return out

    def fix1(self, I, st0, node, step, cond, k, tag):
        spec = self.spec
        g0 = ghost(st0)
        ref = st0
        # the read position: a variable that advances by one on every continuing iteration from the entry
        cands = None
        probes = []
        e = st0.nl(g0.pos)
        ix = self.probed.get((id(node), repr(e)))
        if ix is not None and not set(ix) <= set(self.index_locs(st0, g0)):
            ix = None
        if ix is None:
            first = []
            with Capture(I):
                for c in self.alphabet:
                    s = st0.copy()
                    if not s.add_ge(self.n - e - 1) or not s.add_eq(L(Term('at', self.src, e)) - c) or s.empty():
                        continue
                    first += [x for x in step(s) if x[1] == 'n']
            cont = [s2 for s2, kk, v in first]
            cands = self.index_locs(st0, g0)

            def shift(s2, r):
                v = s2.store[r]
                v = v.pos if isinstance(v, Iter) else v
                if not isinstance(v, Lin):
                    return None
                d = s2.nl(v - e)
                return d.c if d.is_const() else None
            ix = [l for l in cands if any(shift(s2, l[0]) == 1 for s2 in cont) and all(shift(s2, l[0]) in (1, None) for s2 in cont)]
            if not ix:
                raise NoIndex('no variable follows the read position at line %s' % node.get('l'))
            if len(ix) > 1:
                # a counter that happens to agree so far is not an index: keep those the condition or the subscripts depend on
                ix = [l for l in ix if self.reads(I, st0, node, step, cond, l)] or ix[:1]
            self.probed[(id(node), repr(e))] = ix
        ixs = set(ix)
        mods = {}
        nodes = {}
        order = []
        exits = {}
        work = []
        counts = {}

        def settle(s2, g):
            """register the loop-head state s2 (automaton at g)"""
            for r, p in loops.entry_diff(ref, s2):
                if (r, p) in ixs:
                    continue
                if not any(r == r2 and p[:len(p2)] == p2 for r2, p2 in mods):
                    a, b = get_path(ref.store[r], p), get_path(s2.store[r], p)
                    if isinstance(a, Lin) and isinstance(b, Lin) and s2.nl(a - b) == ZERO:
                        continue
                    whole = ()
                    v0 = ref.store[r]
                    if isinstance(v0, Struct) and v0.cls == intspec.CLS:
                        mods[(r, ())] = True
                    else:
                        mods[(r, p)] = True
                    raise Again()
        rels = self.data

        def key_of_state(s2, g):
            """[(key, values)] of a loop-head state: constants, or the relation an accumulator satisfies"""
            todo = [(s2, (), {})]
            for m in sorted(mods, key=repr):
                nt = []
                for s, ks, vs in todo:
                    v = get_path(s.store[m[0]], m[1])
                    kk = (m[0].split('~')[0], m[1])
                    self.kinds_.setdefault(kk, v)
                    if kk in rels:
                        for s3, mode in self.matches(s, v, rels[kk], g, kk):
                            nt.append((s3, ks + (mode,), dict(vs, **{repr(m): (rels[kk], mode, v)})))
                        continue
                    c = self.constant(s, v)
                    if c is None:
                        raise Bad(kk)
                    st_ = counts.setdefault(kk, set())
                    st_.add(repr(c))
                    if len(st_) > (48 if kk in self.control else 6 if self.counting(st_) else 24):
                        raise Bad(kk)
                    nt.append((s, ks + (repr(c),), dict(vs, **{repr(m): ('=', None, c)})))
                todo = nt
            return todo

        def push(s2, g, pend):
            settle(s2, g)
            for s, ks, vs in key_of_state(s2, g):
                key = (ks, g.q, pend)
                if key not in nodes:
                    nodes[key] = (vs, g.q, g.text, pend)
                    work.append(key)

        def materialise(key, entry=False):
            vs, q, text, pend = nodes[key]
            s = st0.copy()
            regs = spec.symbols(q, tag)
            s.add_ge(k - e)
            s.add_ge(self.n - k)
            spec.facts(s, q, regs, k)
            for l in ix:
                v = s.store[l[0]]
                s.store[l[0]] = Iter(v.addr, k, v.rev, v.const, v.ptr, v.gen) if isinstance(v, Iter) else k
            for m in mods:
                rel, mode, v = vs[repr(m)]
                if rel != '=':
                    v = self.rel_value(rel, v, q, regs, mode)
                    if rel.startswith('X~'):
                        T = int(rel[2:])
                        if mode == 'sat':
                            s.add_ge(L(sym('E')) - T)
                            s.add_ge(L(INT_MAX) - L(sym('E')))
                            s.add_ge(regs['X'] - T)
                        else:
                            s.add_ge(L(T - 1) - regs['X'])
                s.store[m[0]] = loops.set_path(s.store[m[0]], m[1], v)
            if q[-1] == 1 and isinstance(spec, IntSpec):
                self.W.facts(s, regs['V'])
            g = Ghost(q, k, regs, text)
            haunt(s, g)
            return s, g

        def leave(s2, kind, v, g):
            ks = []
            for r, p in loops.entry_diff(ref, s2):
                ks.append((r, p, repr(canon(s2, get_path(s2.store[r], p)))))
            end = s2.entails_eq(self.n - g.pos)
            key = (kind, repr(canon(s2, v)), tuple(sorted(ks, key=repr)), g.q, repr(s2.nl(g.pos)), end, tuple(sorted((a.id, b) for a, b in s2.atoms.items())))
            if key not in exits:
                haunt(s2, g)
                exits[key] = (s2, kind, v)

        def iterate(s, g, c, entry=False):
            """one iteration from a loop-head state; c: next character, None at the end of the text"""
            if c is None:
                if not s.add_eq(self.n - k0(entry)) or s.empty():
                    return
            else:
                if not s.add_ge(self.n - k0(entry) - 1) or not s.add_eq(L(Term('at', self.src, s.nl(k0(entry)))) - c) or s.empty():
                    return
            g2 = g
            if c is not None:
                q2, d = spec.next(g.q, c)
                regs2 = spec.feed(g.q, g.regs, d, q2)
                g2 = Ghost(q2, s.nl(k0(entry)) + 1, regs2, g.text + chr(c % 256))
            self.edges += 1
            haunt(s, g2)
            nthrow, nub = len(I.throws[-1]), len(I.ubs)
            rest = step(s)
            # errors raised inside the loop: at most one kept per (automaton state, error)
            for lst, n0 in ((I.throws[-1], nthrow), (I.ubs, nub)):
                keep = []
                for t in lst[n0:]:
                    gg = ghost(t[0])
                    kk = (id(lst), repr(t[1]), t[2], gg.q)
                    if kk not in exits:
                        exits[kk] = None
                        keep.append(t)
                del lst[n0:]
                lst.extend(keep)
            again = 0
            while rest:
                nxt = []
                for s2, kind, v in rest:
                    if s2.empty():
                        continue
                    if kind != 'n':
                        leave(s2, 'n' if kind in ('b', 'x') else kind, v, ghost(s2))
                        continue
                    sh = [self.moved(s2, l, k0(entry)) for l in ix]
                    if all(x == 1 for x in sh) and c is not None:
                        push(s2, g2, None)
                    elif all(x == 0 for x in sh):
                        haunt(s2, g)
                        push(s2, g, ('end' if c is None else c,))
                    elif again < 2:
                        nxt += step(s2)
                    else:
                        raise Giveup('the read position jumps at line %s (%s)' % (node.get('l'), [(str(s2.store[l[0]]), sh) for l in ix]))
                rest = nxt
                again += 1

        cur = [e]

        def k0(entry):
            return e if entry else k

        for attempt in range(12):
            nodes.clear()
            exits.clear()
            work.clear()
            counts.clear()
            try:
                with Capture(I) as cap:
                    # the entry itself keeps what is known of its next character
                    for c in [None] + list(self.alphabet):
                        s = st0.copy()
                        if c is not None and self.char(s, e) not in (None, c):
                            continue
                        iterate(s, g0, c, True)
                    while work:
                        key = work.pop()
                        pend = key[2]
                        self.states += 1
                        if self.states > 4000:
                            raise Giveup('too many loop states')
                        for c in ([None] + list(self.alphabet) if pend is None else [None if pend[0] == 'end' else pend[0]]):
                            s, g = materialise(key)
                            iterate(s, g, c)
                    cap.commit()
                break
            except Again:
                continue
        else:
            raise Giveup('modified locations do not stabilise')
        loops.note(I, node, 'finite automaton: %d states' % len(nodes))
        out = []
        for x in exits.values():
            if x is not None:
                s2, kind, v = x
                if kind == 'n':
                    s2.env = dict(st0.env)
                if self.where == 'ctor':
                    out += [(s3, kind, v) for s3 in self.digit_run(s2, e, g0)]
                else:
                    out.append((s2, kind, v))
        return out

    def digit_run(self, s, e, g0):
        """the text has been recognised: its digits as a sequence of cells 0..9, least significant first"""
        g = ghost(s)
        if g.q[0] != 'I' or not s.entails_eq(self.n - g.pos) or g0.q[0] not in 'SG' or g0.q[0] == 'S' and e != ZERO:
            return [s]
        self.I.digit_domain = True
        out = []
        signs = [g0.text] if g0.q[0] == 'G' else ['-'] if g.q[1] < 0 else ['', '+']
        for sg in signs:
            x = s.copy()
            if sg and g0.q[0] == 'S' and (not x.add_eq(L(Term('at', self.src, ZERO)) - ord(sg)) or x.empty()):
                continue
            if not sg and (not x.add_ge(L(Term('at', self.src, ZERO)) - 48) or x.empty()):
                continue
            m = x.nl(self.n - len(sg))
            if not x.add_ge(m - 1) or x.empty():
                continue
            b = D.ranged(0, 9)
            v = D.prefix(b, m)
            # the value of m cells: zero, or positive
            if g.q[2]:
                x.add_ge(v - 1)
            elif not x.add_eq(v):
                continue
            cs = Term('base', Term('chars', b, m))
            root, path = self.text
            sq = get_path(x.store[root], path)
            x.store[root] = loops.set_path(x.store[root], path, sq.with_p(tuple(('one', L(ord(c))) for c in sg) + (('sl', cs, ZERO, m),)))
            haunt(x, Ghost(g.q, g.pos, {'V': v}, g.text))
            out.append(x)
        return out

    def reads(self, I, st0, node, step, cond, l):
        """does the iteration depend on this variable as a position (condition or subscript)"""
        if cond is None:
            return True
        s = st0.copy()
        h = L(sym('probe'))
        v = s.store[l[0]]
        s.store[l[0]] = Iter(v.addr, h, v.rev, v.const, v.ptr, v.gen) if isinstance(v, Iter) else h
        try:
            with Capture(I):
                for s1, c in I.ev_rv(s, cond):
                    acc = set()
                    subterms(I.to_cond(c, node), acc)
                    if any(t is h.t[0][0] for t in acc):
                        return True
        except Giveup:
            return True
        return False

    def counting(self, vs):
        try:
            ns = sorted(int(x) for x in vs)
        except ValueError:
            return not all(x in ('True', 'False') for x in vs)
        return ns == list(range(ns[0], ns[0] + len(ns)))

    def moved(self, s, l, k):
        v = s.store[l[0]]
        v = v.pos if isinstance(v, Iter) else v
        if not isinstance(v, Lin):
            return None
        d = s.nl(v - k)
        return d.c if d.is_const() else None

    def constant(self, s, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Lin):
            v = s.nl(v)
            return v if v.is_const() else None
        if isinstance(v, Fl):
            return v if not isinstance(v.t, Term) else None
        if is_cond(v):
            return s.decide(v)
        if isinstance(v, Unknown):
            return v
        if isinstance(v, Struct):
            f = {}
            for k, x in v.f.items():
                if k == '__id':
                    continue
                if isinstance(x, Seq):
                    ps = simp(s, x.p)
                    if any(q[0] != 'one' or not isinstance(q[1], Lin) or not s.nl(q[1]).is_const() for q in ps) or len(ps) > 6:
                        return None
                    f[k] = x.with_p(ps)
                    continue
                c = self.constant(s, x)
                if c is None:
                    return None
                f[k] = c
            return Struct(v.cls, f)
        if isinstance(v, Seq):
            ps = simp(s, v.p)
            if any(q[0] != 'one' or not isinstance(q[1], Lin) or not s.nl(q[1]).is_const() for q in ps) or len(ps) > 6:
                return None
            return v.with_p(ps)
        return None

    def matches(self, s, v, rel, g, kk):
        """[(state, mode)]: the accumulator satisfies its relation with the digits read"""
        if isinstance(v, Unknown):
            raise Bad(kk)
        if rel.startswith('X~'):
            T = int(rel[2:])
            out = []
            lo, hi = s.copy().assume(c_ge(L(T - 1) - g.regs['X'])), s.copy().assume(c_ge(g.regs['X'] - T))
            for x in lo:
                if x.empty():
                    continue
                if not x.entails_eq(v - g.regs['X']):
                    raise Bad(kk)
                out.append((x, 'eq'))
            for x in hi:
                if x.empty():
                    continue
                if not x.entails_ge(v - T):
                    raise Bad(kk)
                out.append((x, 'sat'))
            return out
        if isinstance(v, Struct):
            try:
                for s2, n in self.W.number(s.copy(), v):
                    want = g.regs['V'] if rel == 'V' else g.regs['V'].scale(g.q[1])
                    if s2.nl(n - want) != ZERO and not s2.entails_eq(n - want):
                        raise Bad(kk)
            except NotCanonical:
                raise Bad(kk)
            return [(s, rel)]
        w = self.rel_value(rel, v, g.q, g.regs, None)
        if isinstance(v, Fl):
            if not isinstance(w, Fl) or not flt.same(normfl(s, v), normfl(s, w)):
                raise Bad(kk)
        elif not isinstance(v, Lin) or not s.entails_eq(v - w):
            raise Bad(kk)
        return [(s, rel)]

    # ---- outcomes of the whole function
    def final(self, o, words):
        s = o.st
        g = ghost(s)
        if o.kind == 'ub':
            self.failed.append(('undefined behaviour: %s at line %s' % (o.val, o.line), g.text + '9' * 12))
            return
        if isinstance(self.spec, DecSpec):
            w = self.word(s)
            if w is not None:
                if isinstance(w, str):
                    if w not in WORDS:
                        if o.kind == 'ret' and not accepts(self.spec, w):
                            self.failed.append(('the text %r is accepted' % w, w))
                        return
                    if o.kind == 'ret' and isinstance(o.val, Fl) and flt.same(o.val, Fl(WORDS[w])):
                        words[w] = True
                    elif o.kind == 'ret' and isinstance(o.val, Fl) and WORDS[w] == 'nan' and repr(o.val.t) in ("'nan'", "'-nan'", 'nan', '-nan'):
                        words[w] = True
                    else:
                        self.failed.append(('the spelling %r is not converted to %s' % (w, WORDS[w]), w))
                else:
                    self.failed.append(('comparison of the text not understood', None))
                return
        self.judge(o, s, g, 0)

    def word(self, s):
        """constant text the path has been restricted to by a comparison, None when there is none"""
        for t, v in s.atoms.items():
            if t.op == 'isword' and v is True:
                return ''.join(chr(c % 256) for c in t.args[0])
        root, path = self.text
        ps = simp(s, get_path(s.store[root], path).p)
        if ps and all(p[0] == 'one' for p in ps):
            cs = [s.nl(p[1]) for p in ps]
            if all(c.is_const() for c in cs):
                return ''.join(chr(c.c % 256) for c in cs)
        n = s.nl(self.n)
        if n.is_const() and 0 < n.c < 12:
            cs = [self.char(s, L(i)) for i in range(n.c)]
            if all(c is not None for c in cs):
                return ''.join(chr(c % 256) for c in cs)
        return None

    def judge(self, o, s, g, depth):
        spec = self.spec
        pos = s.nl(g.pos)
        # the text ends here
        e = s.copy()
        if e.add_eq(self.n - pos) and not e.empty():
            ok = spec.accept(g.q)
            if o.kind == 'throw':
                if ok:
                    self.failed.append(('raises %s on a well-formed text' % (o.val,), g.text))
            elif not ok:
                self.failed.append(('a malformed text is accepted', g.text))
            else:
                self.compare(o, e, g)
        m = s.copy()
        if g.q[0] == spec.dead:
            if o.kind == 'ret':
                self.failed.append(('a malformed text is accepted', g.text))
            return
        if not m.add_ge(self.n - pos - 1) or m.empty():
            return
        cs = self.known(m, pos)
        live = {}
        for c in (cs if cs is not None else self.alphabet):
            q2, d = spec.next(g.q, c)
            live.setdefault(q2, (c, d))
        for q2, (c, d) in live.items():
            t = g.text + chr(c % 256)
            if o.kind == 'throw' and q2[0] == spec.dead:
                continue
            if cs is None or depth > 3:
                # nothing is known of what follows
                self.failed.append(('raises %s before the rest of the text is read' % (o.val,) if o.kind == 'throw' else 'a text is accepted before its end is read', t + ('1' if not spec.accept(q2) and o.kind == 'throw' else '')))
                return
            m2 = m.copy()
            if m2.add_eq(L(Term('at', self.src, pos)) - c) and not m2.empty():
                self.judge(o, m2, Ghost(q2, pos + 1, spec.feed(g.q, g.regs, d, q2), t), depth + 1)

    def compare(self, o, s, g):
        v = o.val
        if self.where == 'ctor':
            v = s.store['this']
        if isinstance(v, Addr):
            v = s.store[v.root]
        if isinstance(self.spec, IntSpec):
            if not isinstance(v, Struct) or v.cls != intspec.CLS:
                self.failed.append(('no integer is returned', g.text))
                return
            try:
                for s2, n in self.W.number(s.copy(), v):
                    w = g.regs['V'].scale(g.q[1])
                    if folded(s2.nl(n - w)) != ZERO and not s2.entails_eq(n - w):
                        self.failed.append(('the value is %r, the digits denote %r' % (s2.nl(n), s2.nl(w)), g.text))
                        return
            except NotCanonical as e:
                self.failed.append(('the result is not canonical (%s)' % e, g.text))
            return
        if not isinstance(v, Fl):
            self.failed.append(('no number is returned', g.text))
            return
        r = g.regs
        x = r['X']
        E = sym('E')
        if any(E in subterms_of(c) for c in s.cons) and s.entails_ge(L(E)):
            x = L(E)
        fl, i2 = _interp.fl_op, _interp.i2d
        ten = lambda k: Fl(Term('pow', Term('fl', '10.0'), i2(k).t)) if not k.is_const() else Fl(float(10 ** k.c)) if 0 <= k.c < 300 else Fl(Term('pow', Term('fl', '10.0'), i2(k).t))
        m = s.nl(r['M'].scale(g.q[1]))
        if m == ZERO:
            want = Fl(0.0)
        else:
            want = fl('/', i2(m), ten(s.nl(r['K'])))
            want = fl('*' if g.q[2] > 0 else '/', want, ten(s.nl(x)))
        if flt.same(normfl(s, v), normfl(s, want)):
            return
        self.failed.append(('the value is %r' % (normfl(s, v),), g.text))

    # ------------------------------------------------------------ refutation
    def refute(self, first):
        """a concrete text the function converts wrongly (constant propagation)"""
        seen = set()
        probe = []
        for t in first:
            probe += [t, t + '1', t + ' ', t + '.5', t + 'e5', t + '5e2', t + '25']
        for t in itertools.chain(probe, self.spec.texts()):
            if t in seen or (self.where == 'ctor' and '\0' in t):
                continue
            seen.add(t)
            try:
                w = self.wrong(t)
            except (Nothing, Giveup):
                continue
            if w:
                return (w[0], w[1], 'text %r' % t + (' base %d' % self.args[0] if self.args else ''))
        return None

    def at(self, t):
        for plain in (False, True):
            I = self.interp()
            if plain:
                # outside the contracts' domain: the code of the operations itself
                I = Interp(self.P, {})
                I.world = self.W
                I.budget = 200000
            I.lasso = True
            st = State()
            addr, args = self.setup(I, st, lambda p: tuple(('one', L(ord(c) - 256 if ord(c) > 127 else ord(c))) for c in t))
            try:
                outs = I.run(st, self.f['fid'], addr, args)
            except (Giveup, NotCanonical):
                continue
            outs = [o for o in outs if not o.st.empty()]
            if len(outs) == 1 and not outs[0].st.taint:
                return outs[0]
        raise Nothing()

    def wrong(self, t):
        ok = accepts(self.spec, t)
        try:
            o = self.at(t)
        except Lasso as e:
            return ('C18', self.prop), 'an iteration of the loop at line %s changes nothing: the call never returns' % e.line
        if o.kind == 'ub':
            return ub_props(o.val) + (self.prop,), 'undefined behaviour: %s at line %s' % (o.val, o.line)
        if o.kind == 'throw':
            return ((self.prop,), 'raises %s on a well-formed text' % (o.val,)) if ok else None
        if not ok:
            return (self.prop,), 'accepts a malformed text'
        v = o.val
        if self.where == 'ctor':
            v = o.st.store['this']
        if isinstance(v, Addr):
            v = o.st.store[v.root]
        want = self.spec.value(t)
        if isinstance(self.spec, IntSpec):
            op = intcomp.IntOp.__new__(intcomp.IntOp)
            sg, ds = op.cells(o.st, v)
            e = intcomp.canonical_error(sg, ds)
            n = sg * sum(d * 10 ** i for i, d in enumerate(ds))
            if n != want:
                return (self.prop,), 'gives %d, not %d' % (n, want)
            if e:
                return ('C07', self.prop), 'the result is not in canonical form: %s' % e
            return None
        if not isinstance(v, Fl) or isinstance(v.t, Term):
            raise Nothing()
        x = float(v.t)
        if math.isnan(x) or math.isnan(want):
            if math.isnan(x) and not math.isnan(want) and want in (0.0, math.inf, -math.inf):
                raise Nothing()      # beyond the range of double
            return None if math.isnan(x) and math.isnan(want) else ((self.prop,), 'gives %r, not %r' % (x, want))
        if math.isinf(want) and t not in WORDS or want == 0 and '0' not in t:
            if x == want:
                return None
        if x == want or not math.isinf(x) and not math.isinf(want) and abs(x - want) <= 1e-9 * abs(want):
            return None
        return (self.prop,), 'gives %r, not %r' % (x, want)


class NoIndex(Giveup):
    pass


class Again(Exception):
    pass


def folded(x):
    """digits of a constant evaluated"""
    r = L(x.c)
    for t, k in x.t:
        v = D._at(*t.args) if t.op == 'at' and len(t.args) == 2 else t
        r = r + L(v).scale(k)
    return r


def subterms_of(c):
    acc = set()
    for t, _ in c.t:
        subterms(t, acc)
    return acc


def canon(s, v):
    if isinstance(v, Lin):
        return s.nl(v)
    if isinstance(v, Iter):
        return (v.addr, s.nl(v.pos), v.rev)
    if isinstance(v, Struct):
        return tuple((k, canon(s, x)) for k, x in sorted(v.f.items()) if k != '__id')
    if isinstance(v, Seq):
        return simp(s, v.p)
    if isinstance(v, Fl):
        return normfl(s, v)
    return v


def normfl(s, v):
    if isinstance(v.t, Term):
        t = s.norm(v.t)
        return t if isinstance(t, Fl) else Fl(t)
    return v


class Radix(Convert):
    """a radix outside 2..36 raises the error whatever the text"""

    def __init__(self, prop):
        Convert.__init__(self, 'Str.to_integer(int) const', IntSpec(10), ' radix outside 2..36', (0,), prop)

    def outcomes(self, st, pieces, arg):
        I = self.interp()
        I.budget = 60000
        addr, _ = self.setup(I, st, pieces)
        return [o for o in I.run(st, self.f['fid'], addr, [arg]) if not o.st.empty()]

    def prove(self):
        bad = []
        b = L(sym('base'))
        for c in (c_ge(ONE - b), c_ge(b - 37)):
            st = State()
            st.add_ge(b - INT_MIN)
            st.add_ge(L(INT_MAX) - b)
            st = st.assume(c)[0]
            for o in self.outcomes(st, lambda p: p, b):
                self.res.outcomes += 1
                if o.kind != 'throw' or exc_kind(o.val) != 'base':
                    bad.append(('an invalid radix is not rejected (%s %s)' % (o.kind, o.val), None))
            self.res.obligations += 1
            self.res.discharged += not bad
        return bad

    def refute(self, first):
        for b in (1, 37, 0, -1, 38, 2 - 2 ** 31, 100, -2, 3 - 10, INT_MAX, INT_MIN):
            for t in ('1', '0', '', '10', 'z', '-1', ' 1', 'x y'):
                st = State()
                try:
                    os_ = self.outcomes(st, lambda p: tuple(('one', L(ord(c))) for c in t), L(b))
                except Giveup:
                    continue
                if len(os_) != 1 or os_[0].st.taint:
                    continue
                o = os_[0]
                if o.kind == 'throw' and exc_kind(o.val) == 'base':
                    continue
                return ((self.prop,), 'accepts an invalid radix' if o.kind == 'ret' else 'raises %s instead of the radix error' % (o.val,) if o.kind == 'throw' else 'undefined behaviour: %s' % (o.val,), 'text %r base %d' % (t, b))
        return None


def components(pid):
    if pid == 'C07':
        return [Convert('Int.Int(ptr)', IntSpec(10, False), '', (), 'C15', 'ctor')]
    if pid == 'C11':
        return [Radix('C11')]
    if pid == 'C19':
        return [Convert('Str.to_integer(int) const', IntSpec(b), ' base %d' % b, (b,)) for b in (10, 36)] + [Convert('Int.Int(ptr)', IntSpec(10, False), '', (), 'C15', 'ctor'), Convert('Str.to_decimal() const', DecSpec(), '', (), 'C16')]
    if pid == 'C15':
        return [Radix('C15')] + [Convert('Str.to_integer(int) const', IntSpec(b), ' base %d' % b, (b,)) for b in range(2, 37)] + [Convert('Int.Int(ptr)', IntSpec(10, False), '', (), 'C15', 'ctor')]
    if pid == 'C16':
        return [Convert('Str.to_decimal() const', DecSpec(), '', (), 'C16')]
    return []
