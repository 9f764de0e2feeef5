"""Input streams.

A stream is an immutable value.  Concrete streams (a known text) follow [istream] exactly; lazy streams stand for every content: what the program
learns of the content (the next character, a number, a run of blanks) is recorded in `hist`, each reading operation has one outcome per kind of
content.  The recorded content is what a specification of the reading function is compared with.
"""
from .dom import *          # noqa
from . import flt

SPACE = (9, 10, 11, 12, 13, 32)
INT_MAX, INT_MIN = 2 ** 31 - 1, -2 ** 31


class IStream:
    __slots__ = ('data', 'pos', 'hist', 'look', 'never', 'flags', 'seed', 'width')

    def __init__(self, data=None, pos=0, hist=(), look=None, never=(), flags=frozenset(), seed=None, width=0):
        self.data, self.pos, self.hist, self.look, self.never, self.flags, self.seed, self.width = data, pos, hist, look, never, flags, seed, width

    def but(self, **k):
        d = {s: getattr(self, s) for s in self.__slots__}
        d.update(k)
        return IStream(**d)

    def key(self):
        return (self.data, self.pos, self.hist, self.look, self.never, self.flags, self.seed, self.width)

    def __eq__(self, o):
        return isinstance(o, IStream) and self.key() == o.key()

    def __hash__(self):
        return hash((self.data, self.pos, self.hist, self.flags))

    def __repr__(self):
        if self.data is not None:
            return 'is(%r at %d%s)' % (bytes(self.data), self.pos, ''.join(',' + f for f in sorted(self.flags)))
        return 'is(%s | %r%s)' % (' '.join('%s:%r' % h for h in self.hist), self.look, ''.join(',' + f for f in sorted(self.flags)))

    def good(self):
        return not self.flags

    def failed(self):
        return bool(self.flags & {'fail', 'bad'})

    def flag(self, *fs):
        return self.but(flags=self.flags | set(fs))


_n = [0]


def fresh(st, tag, lo, hi):
    _n[0] += 1
    x = L(Term('sym', '%s#%d' % (tag, _n[0])))
    st.add_ge(x - lo)
    st.add_ge(L(hi) - x)
    return x


def members(st, x, values=range(256)):
    """the values the next character may have on this path"""
    return [v for v in values if feasible(st, c_eq(x - v))]


def feasible(st, c):
    return any(not y.empty() for y in st.copy().assume(c))


def none_of(x, vs):
    c = True
    for lo, hi in runs(vs):
        c = c_and(c, c_or(c_ge(L(lo) - 1 - x), c_ge(x - hi - 1)))
    return c


def one_of(x, vs):
    return c_not(none_of(x, vs))


def runs(vs):
    out = []
    for v in sorted(vs):
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return out


def look(I, st, s):
    """[(state, stream with look decided)] for a good stream"""
    if s.data is not None or s.look is not None:
        if s.data is not None:
            return [(st, s.but(look=L(s.data[s.pos]) if s.pos < len(s.data) else 'EOF'))]
        return [(st, s)]
    if s.seed is not None:
        # known content: characters, numbers and a word printed before
        if not s.seed:
            return [(st, s.but(look='EOF'))]
        k, v = s.seed[0]
        if k == 'ch':
            return [(st, s.but(look=L(v)))]
        x = fresh(st, 'ch', 33, 255)
        if k == 'int':
            return [(y, s.but(look=x)) for y in st.assume(one_of(x, (45,) + DIG)) if not y.empty()]
        return [(st, s.but(look=x))]
    a, b = st.copy(), st.copy()
    x = fresh(b, 'ch', 0, 255)
    out = [(a, s.but(look='EOF', never=()))]
    for y in b.assume(none_of(x, s.never)):
        if not y.empty():
            out.append((y, s.but(look=x, never=())))
    return out


def take(s):
    """the next character is consumed"""
    if s.data is not None:
        return s.but(pos=s.pos + 1, look=None)
    if s.seed is not None:
        if s.seed[0][0] != 'ch':
            raise Giveup('a character of a number')
        return s.but(seed=s.seed[1:], look=None)
    return s.but(hist=s.hist + (('ch', s.look),), look=None)


def skip(I, st, s, blanks=SPACE):
    """[(state, stream)]: blanks consumed, the next character (not blank) or the end known"""
    if s.data is not None:
        p = s.pos
        while p < len(s.data) and s.data[p] in blanks:
            p += 1
        return look(I, st, s.but(pos=p))
    out = []
    for s1, v in look(I, st, s):
        if v.look == 'EOF':
            out.append((s1, v))
            continue
        t, f = s1.fork(one_of(v.look, blanks))
        for y in f:
            if not y.empty():
                out.append((y, v))
        for y in t:
            if y.empty():
                continue
            if v.seed is not None:
                out += skip(I, y, take(v), blanks)
                continue
            w = v.but(hist=v.hist + (('blank', v.look),), look=None, never=tuple(blanks))
            out += look(I, y, w)
    return out


def sentry(I, st, s, ws=True):
    """[(state, stream, ok)]"""
    if not s.good():
        return [(st, s.flag('fail'), False)]
    out = []
    for s1, v in (skip(I, st, s) if ws else [(st, s)]):
        if ws and v.look == 'EOF':
            out.append((s1, v.flag('eof', 'fail'), False))
        else:
            out.append((s1, v, True))
    return out


DIG = tuple(range(48, 58))


def read_int(I, st, s, lo=INT_MIN, hi=INT_MAX):
    """[(state, stream, value or None)]"""
    out = []
    for s1, v, ok in sentry(I, st, s):
        if not ok:
            out.append((s1, v, None))
            continue
        if v.data is not None:
            p = v.pos
            sg = 1
            if v.data[p] in (43, 45):
                sg = 1 if v.data[p] == 43 else -1
                p += 1
            q = p
            while q < len(v.data) and v.data[q] in DIG:
                q += 1
            w = v.but(pos=q, look=None)
            if q == len(v.data):
                w = w.flag('eof')
            if q == p:
                out.append((s1, w.flag('fail'), ZERO))
                continue
            n = sg * int(bytes(v.data[p:q]))
            if not lo <= n <= hi:
                out.append((s1, w.flag('fail'), L(lo if n < lo else hi)))
            else:
                out.append((s1, w, L(n)))
            continue
        if v.seed is not None:
            if v.seed[0][0] == 'int' and (len(v.seed) == 1 or v.seed[1][0] == 'ch' and v.seed[1][1] not in DIG):
                n = L(v.seed[0][1])
                if not s1.entails_ge(n - lo) or not s1.entails_ge(L(hi) - n):
                    raise Giveup('range of the number')
                for z, w in look(I, s1, v.but(seed=v.seed[1:], look=None)):
                    out.append((z, w.flag('eof') if w.look == 'EOF' else w, n))
                continue
            raise Giveup('number in a known content')
        first = v.look
        t, f = s1.fork(one_of(first, (43, 45) + DIG))
        for y in f:
            if not y.empty():
                out.append((y, v.but(hist=v.hist + (('noint', first),), look=None, never=()).flag('fail'), ZERO))
        for y in t:
            if y.empty():
                continue
            # nothing but a sign, or beyond the range
            for fl in ((), ('eof',)):
                z = y.copy()
                out.append((z, v.but(hist=v.hist + (('noint', first),), look=None, never=()).flag('fail', *fl), fresh(z, 'bad', lo, hi)))
            z = y.copy()
            n = fresh(z, 'num', lo, hi)
            w = v.but(hist=v.hist + (('int', (n, first)),), look=None, never=DIG)
            for z2, w2 in look(I, z, w):
                out.append((z2, w2.flag('eof') if w2.look == 'EOF' else w2, n))
    return out


def float_prefix(data, p):
    """[num.get.virtuals] accumulation for floating point: (end, text)"""
    q = p
    mant = dot = exp = False
    if q < len(data) and data[q] in (43, 45):
        q += 1
    while q < len(data):
        c = data[q]
        if c in DIG:
            mant = True
        elif c == 46 and not dot and not exp:
            dot = True
        elif c in (69, 101) and not exp and mant:
            exp = True
            q += 1
            if q < len(data) and data[q] in (43, 45):
                q += 1
            continue
        else:
            break
        q += 1
    return q, bytes(data[p:q]).decode('latin-1')


def read_float(I, st, s):
    out = []
    for s1, v, ok in sentry(I, st, s):
        if not ok:
            out.append((s1, v, None))
            continue
        if v.data is not None:
            q, t = float_prefix(v.data, v.pos)
            w = v.but(pos=q, look=None)
            if q == len(v.data):
                w = w.flag('eof')
            try:
                x = float(t)
            except ValueError:
                out.append((s1, w.flag('fail'), Fl(0.0)))
                continue
            if x in (float('inf'), float('-inf')):
                out.append((s1, w.flag('fail'), Fl(x)))
            else:
                out.append((s1, w, Fl(x)))
            continue
        if v.seed is not None:
            raise Giveup('real number in a known content')
        first = v.look
        t, f = s1.fork(one_of(first, (43, 45, 46) + DIG))
        for y in f:
            if not y.empty():
                out.append((y, v.but(hist=v.hist + (('noint', first),), look=None, never=()).flag('fail'), Fl(0.0)))
        for y in t:
            if y.empty():
                continue
            for fl in ((), ('eof',)):
                _n[0] += 1
                out.append((y.copy(), v.but(hist=v.hist + (('noint', first),), look=None, never=()).flag('fail', *fl), Fl(Term('sym', 'badreal#%d' % _n[0]))))
            z = y.copy()
            _n[0] += 1
            x = Fl(Term('sym', 'real#%d' % _n[0]))
            w = v.but(hist=v.hist + (('real', (x.t, first)),), look=None, never=DIG)
            for z2, w2 in look(I, z, w):
                out.append((z2, w2.flag('eof') if w2.look == 'EOF' else w2, x))
    return out


def as_char(st, x):
    """[(state, value)] of a character code as char"""
    x = L(x)
    if x.is_const():
        return [(st, L(x.c - 256 if x.c > 127 else x.c))]
    a, b = st.fork(c_ge(L(127) - x))
    return [(y, x) for y in a if not y.empty()] + [(y, y.nl(x - 256)) for y in b if not y.empty()]


def read_char(I, st, s, ws=True):
    out = []
    for s1, v, ok in sentry(I, st, s, ws):
        if not ok:
            out.append((s1, v, None))
            continue
        for s2, w in look(I, s1, v):
            if w.look == 'EOF':
                out.append((s2, w.flag('eof', 'fail'), None))
            else:
                out += [(s3, take(w), x) for s3, x in as_char(s2, w.look)]
    return out


def read_word(I, st, s, mk, most=None):
    """a maximal run of non-blank characters: [(state, stream, pieces or None)]"""
    out = []
    for s1, v, ok in sentry(I, st, s):
        if not ok:
            out.append((s1, v, None))
            continue
        if v.data is not None:
            q = v.pos
            while q < len(v.data) and v.data[q] not in SPACE and not (v.width and q - v.pos >= v.width) and not (most is not None and q - v.pos >= most):
                q += 1
            w = v.but(pos=q, look=None, width=0)
            out.append((s1, w.flag('eof') if q == len(v.data) else w, tuple(('one', L(c - 256 if c > 127 else c)) for c in v.data[v.pos:q])))
            continue
        if v.width:
            raise Giveup('width of the input')
        if v.seed is not None:
            if len(v.seed) != 1 or v.seed[0][0] != 'word':
                raise Giveup('word in a known content')
            t = v.seed[0][1]
            out.append((s1, v.but(seed=(), look='EOF').flag('eof'), (('op', t, L(Term('textlen', t))),)))
            continue
        _n[0] += 1
        t, n, ps = mk(s1, 'word#%d' % _n[0])
        s1.add_ge(n - 1)
        w = v.but(hist=v.hist + (('word', t),), look=None, never=tuple(c for c in range(256) if c not in SPACE))
        for s2, w2 in look(I, s1, w):
            out.append((s2, w2.flag('eof') if w2.look == 'EOF' else w2, ps))
    return out


def read_line(I, st, s, mk):
    if not s.good():
        return [(st, s.flag('fail'), None)]
    if s.data is not None:
        if s.pos >= len(s.data):
            return [(st, s.flag('eof', 'fail'), ())]
        q = s.pos
        while q < len(s.data) and s.data[q] != 10:
            q += 1
        w = s.but(pos=min(q + 1, len(s.data)), look=None)
        return [(st, w.flag('eof') if q == len(s.data) else w, tuple(('one', L(c - 256 if c > 127 else c)) for c in s.data[s.pos:q]))]
    if s.look is not None or s.seed is not None:
        return None
    _n[0] += 1
    a, b = st.copy(), st.copy()
    out = [(a, s.but(hist=s.hist + (('end', None),)).flag('eof', 'fail'), ())]
    t, n, ps = mk(b, 'line#%d' % _n[0])
    c = b.copy()
    c.add_ge(n - 1)
    out.append((b, s.but(hist=s.hist + (('line', t),), look=None), ps))
    out.append((c, s.but(hist=s.hist + (('line', t),), look='EOF').flag('eof'), ps))
    return out


# ---------------------------------------------------------------- calls

def cond_state(s):
    return not s.failed()


def method(I, st, f, obj, args, node):
    nm = f['name']
    out = []
    for s0, v in I.rv(st, obj, node):
        if not isinstance(v, IStream):
            I.giveup('stream operation on %r' % (v,), node)

        def put(s, w, r):
            for s2 in I.write(s, obj, w, node):
                out.append((s2, r))
        if nm in ('good', 'fail', 'bad', 'eof'):
            out.append((s0, {'good': v.good(), 'fail': v.failed(), 'bad': 'bad' in v.flags, 'eof': 'eof' in v.flags}[nm]))
        elif nm == 'operator bool':
            out.append((s0, cond_state(v)))
        elif nm == 'operator!':
            out.append((s0, not cond_state(v)))
        elif nm == 'rdstate':
            out.append((s0, L(('bad' in v.flags) + 2 * ('eof' in v.flags) + 4 * ('fail' in v.flags))))
        elif nm in ('clear', 'setstate'):
            bits = 0
            if args:
                (s0, b), = I.rv(s0, args[0], node)
                if not (isinstance(b, Lin) and s0.nl(b).is_const()):
                    I.giveup('stream state', node)
                bits = s0.nl(b).c
            fl = frozenset(n for n, m in (('bad', 1), ('eof', 2), ('fail', 4)) if bits & m)
            put(s0, v.but(flags=fl if nm == 'clear' else v.flags | fl), VOID)
        elif nm == 'peek':
            if not v.good():
                put(s0, v.flag('fail'), L(-1))
                continue
            for s1, w in look(I, s0, v):
                if w.look == 'EOF':
                    put(s1, w.flag('eof'), L(-1))
                else:
                    put(s1, w, w.look)
        elif nm == 'get' and len(args) <= 1 or nm == 'ignore' and not args:
            if not v.good():
                put(s0, v.flag('fail'), obj if nm == 'ignore' or args else L(-1))
                continue
            for s1, w in look(I, s0, v):
                if w.look == 'EOF':
                    put(s1, w.flag('eof', 'fail') if nm == 'get' else w.flag('eof'), obj if nm == 'ignore' or args else L(-1))
                elif nm == 'get' and args:
                    for s2, x in as_char(s1, w.look):
                        for s3 in I.write(s2, args[0], x, node):
                            put(s3, take(w), obj)
                else:
                    put(s1, take(w), w.look if nm == 'get' else obj)
        elif nm in ('unget', 'putback'):
            if 'eof' in v.flags:
                v = v.but(flags=v.flags - {'eof'})
            if v.failed():
                put(s0, v.flag('fail'), obj)
            elif v.data is not None:
                if not v.pos:
                    put(s0, v.flag('bad'), obj)
                else:
                    put(s0, v.but(pos=v.pos - 1, look=None), obj)
            elif v.look is None and not v.never and v.hist and v.hist[-1][0] == 'ch':
                put(s0, v.but(hist=v.hist[:-1], look=v.hist[-1][1]), obj)
            else:
                I.giveup('putting a character back', node)
        elif nm == 'operator>>':
            from .interp import FnPtr
            a = args[0]
            t = I.P.strip(f['ptypes'][0])
            if isinstance(a, FnPtr) or t['k'] not in ('int', 'double'):
                for s1, q in I.rv(s0, a, node):
                    if isinstance(q, FnPtr) and q.f['qn'] == 'std::ws':
                        for s2, w in skip(I, s1, v):
                            put(s2, w.flag('eof') if w.look == 'EOF' else w, obj)
                    else:
                        I.giveup('reading into %r' % (q,), node)
                continue
            if t['k'] == 'double':
                if t.get('s') not in ('double', None) and 'double' not in str(t.get('s')):
                    I.giveup('reading a ' + str(t.get('s')), node)
                rs = read_float(I, s0, v)
            else:
                if t.get('bits') not in (32, 64):
                    I.giveup('reading an integer type', node)
                lo, hi = (-2 ** (t['bits'] - 1), 2 ** (t['bits'] - 1) - 1)
                if t.get('signed') is False or 'unsigned' in str(t.get('s')):
                    I.giveup('reading an unsigned number', node)
                rs = read_int(I, s0, v, lo, hi)
            for s1, w, x in rs:
                for s2 in ([s1] if x is None else I.write(s1, a, x, node)):
                    put(s2, w, obj)
        else:
            I.giveup('stream method ' + f['qn'], node)
    return out


def mk_word(I):
    from .interp import CHAR
    from .stdlib import t_len

    def mk(st, tag):
        b = Term('base', Term('sym', tag))
        n = t_len(b)
        st.add_ge(L(INT_MAX) - 1 - n)
        st.add_ge(n)
        return b, n, (('sl', b, ZERO, n),)
    return mk


def extract(I, st, args, node):
    """free operator>>(istream&, char& / std::string&)"""
    out = []
    for s0, v in I.rv(st, args[0], node):
        tgt = args[1]
        (s0, old), = I.rv(s0, tgt, node)
        if isinstance(old, Obj) and old.tag == 'manip' and old.a[0] == 'setw' and isinstance(old.a[1], Lin) and old.a[1].is_const():
            out += [(s2, args[0]) for s2 in I.write(s0, args[0], v.but(width=old.a[1].c), node)]
            continue
        if isinstance(old, Seq) and old.kind == 'array':
            # char[N]: at most N-1 characters and a terminating NUL
            n = len(old.p)
            if v.data is None or any(p[0] != 'one' for p in old.p):
                I.giveup('reading into an array', node)
            for s1, w, ps in read_word(I, s0, v, None, n - 1):
                cells = tuple((ps or ())[:n - 1]) + (('one', ZERO),)
                for s2 in I.write(s1, tgt, old.with_p(cells + tuple(old.p[len(cells):])), node):
                    for s3 in I.write(s2, args[0], w, node):
                        out.append((s3, args[0]))
            continue
        if isinstance(old, Seq) and old.kind == 'string':
            for s1, w, ps in read_word(I, s0, v, mk_word(I)):
                for s2 in ([s1] if ps is None else I.write(s1, tgt, old.with_p(ps), node)):
                    for s3 in I.write(s2, args[0], w, node):
                        out.append((s3, args[0]))
        elif isinstance(old, (Lin, Unknown)):
            for s1, w, x in read_char(I, s0, v):
                for s2 in ([s1] if x is None else I.write(s1, tgt, x, node)):
                    for s3 in I.write(s2, args[0], w, node):
                        out.append((s3, args[0]))
        else:
            I.giveup('reading into %r' % (old,), node)
    return out


def getline(I, st, args, node):
    out = []
    for s0, v in I.rv(st, args[0], node):
        (s0, old), = I.rv(s0, args[1], node)
        ok = isinstance(v, IStream) and isinstance(old, Seq)
        if len(args) == 3:
            (s0, d), = I.rv(s0, args[2], node)
            ok = ok and isinstance(d, Lin) and s0.nl(d) == L(10)
        rs = read_line(I, s0, v, mk_word(I)) if ok else None
        if rs is None:
            I.giveup('getline', node)
        for s1, w, ps in rs:
            for s2 in ([s1] if ps is None else I.write(s1, args[1], old.with_p(ps), node)):
                for s3 in I.write(s2, args[0], w, node):
                    out.append((s3, args[0]))
    return out
