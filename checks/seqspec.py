"""Documented behaviour of List, Deque and Str."""
from .core import *          # noqa
from .core import Any as ANY
from .core import _interp

MAX = INT_MAX
A0 = Term('sym', 'a0')


def whole(c):
    return PS(c.S)


def index_cases(c, i, lo_extra=0, hi_extra=0):
    """(non-negative ok, negative ok, bad) conditions of a position argument; insert allows -n..n"""
    n = c.n
    i = L(i)
    pos = c_and(c_ge(i), c_ge(n + hi_extra - 1 - i))
    neg = c_and(c_ge(-i - 1), c_ge(n + i))
    return pos, neg


def at(c, i):
    return ('sl', c.B, L(i), L(i) + 1)


def op(name, *args, n):
    return ('op', Term(name, *args), L(n))


def grow(n, ret, bad=None):
    """cases of an operation whose result has n elements"""
    full = c_ge(L(n) - MAX - 1)
    near = c_ge(L(n) - MAX + 2)
    return [(full, Throw('full')), (near, Either(Throw('full'), ret)), (True, ret)]


def remove_at(c, i):
    return PS((c.sl(0, i), c.sl(i + 1, c.n)))


def insert_at(c, i, el):
    return PS((c.sl(0, i), el, c.sl(i, c.n)))


def one(c, v):
    return ('one', v)


def eqpred(c, st, v):
    sq = seq_of(c.this)
    return stdlib.eq_pred(c.I, st, v, sq)


# ---------------------------------------------------------------- shared groups

def sp_index(key, P_acc=('C01',)):
    def cases(c):
        p, m = index_cases(c, c.a(0))
        return [(p, Ret(Ref(c.a(0)))), (m, Ret(Ref(c.n + c.a(0)))), (True, Throw('range'))]
    return Spec(key, cases, value=P_acc, acc=P_acc, query='const' in key)


def sp_size(key):
    return Spec(key, lambda c: [(True, Ret(c.n))], value=('C03',), query=True)


def sp_empty(key):
    return Spec(key, lambda c: [(True, Ret(c_eq(c.n)))], value=('C03',), query=True)


def sp_iter(cls):
    out = []
    for nm, pos, rev in (('begin', 0, False), ('end', 1, False), ('rbegin', 1, True), ('rend', 0, True)):
        out.append(Spec('%s.%s() const' % (cls, nm), (lambda pos, rev: lambda c: [(True, Ret(Pos(c.n if pos else ZERO, rev)))])(pos, rev), value=('C03',), query=True))
    return out


def self_post(pieces):
    return Ret(Self(), PS(pieces))


def range_post(c, pieces):
    f, l = c.a(0), c.a(1)
    base = c.B if c.mode == 'range' else c.X.p[0][1]
    return ('sl', base, f, l)


def rot(c, k, ret_self=True, left=True):
    """rotation result: cases"""
    n = c.n
    k = L(k)

    def val(c, st):
        nn = c.n
        # position the sequence is rotated to the left by (r or n - r), r = k mod n
        r, q = L(t_fmod(k, nn)), L(t_fmod(-k, nn))
        for x in (r, q):
            st.add_ge(x)
            st.add_ge(nn - 1 - x)
        out = []
        t, f = st.fork(c_eq(r))
        for s in t:
            if s.add_eq(q) and not s.empty():
                out.append((s, PS(c.S)))
        for s in f:
            if s.add_eq(q - nn + r) and not s.empty():
                j = r if left else nn - r
                out.append((s, PS((c.sl(j, nn), c.sl(0, j)))))
        return out
    r = Lazy(val)
    if ret_self:
        return [(c_ge(1 - n), Ret(Self(), whole(c))), (True, Ret(Self(), r))]
    return [(c_ge(1 - n), Ret(whole(c))), (True, Ret(r))]


def sp_copy_ctor(key):
    return Spec(key, lambda c: [(True, Ret(VOID, PS(c.ap(0))))], value=('C22',))


def sp_move_ctor(key):
    return Spec(key, lambda c: [(True, Ret(VOID, PS(c.ap(0)), args={0: PS(())}))], value=('C22',))


def sp_copy_assign(key):
    return Spec(key, lambda c: [(True, Ret(Self(), PS(c.ap(0))))], value=('C22',), modes=('self',))


def sp_move_assign(key):
    return Spec(key, lambda c: [(True, Ret(Self(), PS(c.ap(0)), args={} if c.mode else {0: PS(())}))], value=('C22',))


def find_cases(c, search):
    n, start, stop = c.n, c.a(1), c.a(2)
    return [(c_ge(-start - 1), ANY()), (c_ge(start - stop - 1), ANY()),
            (c_and(c_ge(stop - n - 1), c_ge(start - n - 1)), search(None, None)),
            (c_ge(stop - n - 1), search(start, n)), (True, search(start, stop))]


def slice_val(c, ret):
    """cases of slice(start, stop, step)"""
    n, start, stop, step = c.n, c.a(0), c.a(1), c.a(2)
    badstart = c_or(c_ge(-n - 1 - start), c_ge(start - n))
    badstop = c_or(c_ge(-n - 2 - stop), c_ge(stop - n - 1))
    zero = c_eq(step)

    def val(c, st):
        out = []
        for s, neg in [(x, True) for x in st.fork(c_ge(-start - 1))[0]] + [(x, False) for x in st.fork(c_ge(-start - 1))[1]]:
            t, f = s.fork(c_ge(-stop - 1))
            for s2, neg2 in [(x, True) for x in t] + [(x, False) for x in f]:
                b = start + n if neg else start
                e = stop + n if neg2 else stop
                up, dn = s2.fork(c_ge(step))
                for s3, pos in [(x, True) for x in up] + [(x, False) for x in dn]:
                    d = e - b if pos else b - e
                    nz, z = s3.fork(c_ge(d - 1))
                    for s4 in z:
                        out.append((s4, PS(())))
                    for s4 in nz:
                        q = t_fdiv(s4.nl(d - 1), s4.nl(step if pos else -step))
                        out.append((s4, PS((('st', c.B, b, step, q + 1),))))
        return out
    return [(c_and(zero, c_or(badstart, badstop)), Throw('step', 'range')), (zero, Throw('step')), (c_or(badstart, badstop), Throw('range')), (True, Ret(Lazy(val)))]


def repeat_val(c, in_place):
    n, k = c.n, c.a(0)
    tot = n * k
    v = Lazy(lambda c, st: [(s, PS(())) for s in st.fork(c_eq(k))[0]] + [(s, PS((('rep', c.S, k),))) for s in st.fork(c_eq(k))[1]])
    r = Ret(Self(), v) if in_place else Ret(v)
    return [(c_ge(-k - 1), Throw('times')), (c_ge(tot - MAX - 1), Throw('full')), (c_ge(tot - MAX + 2), Either(Throw('full'), r)), (True, r)]


def erase_val(c, in_place):
    n, a, b = c.n, c.a(0), c.a(1)
    ok = c_and(c_ge(a), c_ge(b - a), c_ge(n - b))
    v = PS((c.sl(0, a), c.sl(b, n)))
    return [(ok, Ret(Self(), v) if in_place else Ret(v)), (True, Throw('range'))]


# ---------------------------------------------------------------- List

def list_specs():
    C = 'List'
    out = [sp_index('List.operator[](int)'), sp_index('List.operator[](int) const'), sp_size('List.size() const'), sp_empty('List.is_empty() const')]
    out += sp_iter(C)
    V3 = ('C03',)
    out.append(Spec('List.List()', lambda c: [(True, Ret(VOID, PS(())))], value=V3))
    for k in ('init', 'vector'):
        out.append(Spec('List.List(%s)' % k, lambda c: [(True, Ret(VOID, PS(c.ap(0))))], value=V3))
    out.append(Spec('List.List(iter,iter)', lambda c: [(True, Ret(VOID, PS((range_post(c, None),))))], value=V3))
    # insertion and removal
    def ins(c):
        n, i = c.n, c.a(0)
        p = c_and(c_ge(i), c_ge(n - i))
        m = c_and(c_ge(-i - 1), c_ge(n + i))
        good = c_or(p, m)
        el = one(c, c.a(1))
        rp, rm = Ret(VOID, insert_at(c, i, el)), Ret(VOID, insert_at(c, n + i, el))
        near = c_ge(n + 1 - MAX + 2)
        return [(c_and(near, c_not(good)), Throw('full', 'range')), (c_ge(n - MAX), Throw('full')), (c_not(good), Throw('range')),
                (c_and(near, p), Either(Throw('full'), rp)), (near, Either(Throw('full'), rm)), (p, rp), (True, rm)]
    out.append(Spec('List.insert(int,elem)', ins, value=('C01', 'C03'), acc=('C01',), modes=('elem',), maxn=MAX))

    def rem(c):
        p, m = index_cases(c, c.a(0))
        i = c.a(0)
        return [(c_eq(c.n), Throw('empty', 'range')), (p, Ret(mkel(c, i), remove_at(c, i))), (m, Ret(mkel(c, c.n + i), remove_at(c, c.n + i))), (True, Throw('range'))]
    out.append(Spec('List.remove(int)', rem, value=('C01', 'C03'), acc=('C01',)))
    # append / concatenate
    out.append(Spec('List.operator+=(elem)', lambda c: grow(c.n + 1, self_post(c.S + (one(c, c.a(0)),))), value=V3, modes=('elem',), maxn=MAX))
    out.append(Spec('List.operator+(elem) const', lambda c: grow(c.n + 1, Ret(PS(c.S + (one(c, c.a(0)),)))), value=V3, maxn=MAX, query=True))
    out.append(Spec('List.operator+=(List)', lambda c: grow(c.n + pslen(c.ap(0)), self_post(c.S + c.ap(0))), value=V3, modes=('self',), maxn=MAX))
    out.append(Spec('List.operator+(List) const', lambda c: grow(c.n + pslen(c.ap(0)), Ret(PS(c.S + c.ap(0)))), value=V3, modes=('self',), maxn=MAX, query=True))
    half = (MAX - 5) // 2
    out.append(Spec('List.extend(iter,iter)', lambda c: [(True, Ret(VOID, PS(c.S + (range_post(c, None),))))], value=V3, modes=('range',), maxn=half))
    # element removal
    def minus(c, ip):
        def val(c, st):
            p = eqpred(c, st, c.a(0))
            f = findpos(c.I, st, c.S, p, seq_of(c.this))
            t, e = st.fork(c_eq(f - c.n))
            return [(s, PS(c.S)) for s in t] + [(s, PS((c.sl(0, f), c.sl(f + 1, c.n)))) for s in e]
        return [(True, Ret(Self(), Lazy(val)) if ip else Ret(Lazy(val)))]

    def div(c, ip):
        def val(c, st):
            return PS(filtered(c.I, st, c.S, stdlib.neg_pred(eqpred(c, st, c.a(0)))))
        return [(True, Ret(Self(), Lazy(val)) if ip else Ret(Lazy(val)))]
    V23 = ('C23',)
    out.append(Spec('List.operator-=(elem)', lambda c: minus(c, True), value=V23, modes=('elem',)))
    out.append(Spec('List.operator-(elem) const', lambda c: minus(c, False), value=V23, query=True))
    out.append(Spec('List.operator/=(elem)', lambda c: div(c, True), value=V23, modes=('elem',)))
    out.append(Spec('List.operator/(elem) const', lambda c: div(c, False), value=V23, query=True))
    # repetition, rotation, reversal, clearing, erasing, slicing
    out.append(Spec('List.operator*=(int)', lambda c: repeat_val(c, True), value=V3, acc=('C02',)))
    out.append(Spec('List.operator*(int) const', lambda c: repeat_val(c, False), value=V3, acc=('C02',), query=True))
    out.append(Spec('List.operator>>=(int)', lambda c: rot(c, c.a(0), left=False), value=V3, acc=('C02',)))
    out.append(Spec('List.operator<<=(int)', lambda c: rot(c, c.a(0), left=True), value=V3, acc=('C02',)))
    out.append(Spec('List.reverse()', lambda c: [(True, self_post(rev_pieces(c.S)))], value=V3))
    out.append(Spec('List.clear()', lambda c: [(True, Ret(VOID, PS(())))], value=V3))
    out.append(Spec('List.erase(int,int)', lambda c: erase_val(c, True), value=V3, acc=('C02',)))
    out.append(Spec('List.slice(int,int,int) const', lambda c: slice_val(c, None), value=V3, acc=('C02',), query=True, defaults={2: L(1)}))
    # order-preserving operations
    def dedup(c):
        def val(c, st):
            k = seqkey(st, c.S)
            n = L(Term('deduplen', k))
            st.add_ge(n - 1)
            st.add_ge(c.n - n)
            return PS((op('dedup', k, n=st.nl(n)),))
        return [(c_ge(1 - c.n), Ret(Self(), whole(c))), (True, Ret(Self(), Lazy(val)))]
    out.append(Spec('List.uniquify()', dedup, value=V23))
    out.append(Spec('List.sort(fnptr)', lambda c: [(c_ge(1 - c.n), Ret(Self(), whole(c))), (True, Ret(Self(), Lazy(lambda c, st: PS((op('stablesort', seqkey(st, c.S), Term('fn', A0), n=c.n),)))))], value=V23))
    out.append(Spec('List.filter(vt::Pred)', lambda c: [(True, Ret(Self(), Lazy(lambda c, st: PS(filtered(c.I, st, c.S, Term('pred', A0, GEN))))))], value=V23))
    out.append(Spec('List.map(vt::Act)', lambda c: [(c_eq(c.n), Ret(Self(), PS(()))), (True, Ret(Self(), Lazy(lambda c, st: PS((op('map', seqkey(st, c.S), Term('act', GEN), n=c.n),)))))], value=('C03',)))
    # searching
    def idx(c):
        def search(lo, hi):
            if lo is None:
                return Ret(Lin(-1))

            def val(c, st):
                f = findpos(c.I, st, (c.sl(lo, hi),), eqpred(c, st, c.a(0)), seq_of(c.this))
                t, e = st.fork(c_eq(f - hi + lo))
                return [(s, Lin(-1)) for s in t] + [(s, f + lo) for s in e]
            return Ret(Lazy(val))
        return find_cases(c, search)

    def cont(c):
        def search(lo, hi):
            if lo is None:
                return Ret(False)

            def val(c, st):
                f = findpos(c.I, st, (c.sl(lo, hi),), eqpred(c, st, c.a(0)), seq_of(c.this))
                t, e = st.fork(c_eq(f - hi + lo))
                return [(s, False) for s in t] + [(s, True) for s in e]
            return Ret(Lazy(val))
        return find_cases(c, search)
    out.append(Spec('List.index(elem,int,int) const', idx, value=('C02',), acc=('C02',), modes=('elem',), query=True, defaults={1: L(0), 2: L(INT_MAX)}))
    out.append(Spec('List.contains(elem,int,int) const', cont, value=('C02',), acc=('C02',), query=True, defaults={1: L(0), 2: L(INT_MAX)}))
    out.append(Spec('List.find(elem) const', lambda c: [(True, Ret(Lazy(lambda c, st: Pos(findpos(c.I, st, c.S, eqpred(c, st, c.a(0)), seq_of(c.this))))))], value=('C03',), query=True))
    out.append(Spec('List.count(elem) const', lambda c: [(True, Ret(Lazy(lambda c, st: cnt(c.I, st, c.S, eqpred(c, st, c.a(0))))))], value=('C03',), query=True))
    return out


def mkel(c, i):
    sq = seq_of(c.this)
    return mk_at(c.B, L(i), sq.et)


# ---------------------------------------------------------------- Deque

def deque_specs():
    out = [sp_index('Deque.operator[](int)'), sp_index('Deque.operator[](int) const'), sp_size('Deque.size() const'), sp_empty('Deque.is_empty() const')]
    out += sp_iter('Deque')
    V3 = ('C03',)
    out.append(Spec('Deque.Deque()', lambda c: [(True, Ret(VOID, PS(())))], value=V3))
    for k in ('init', 'deque'):
        out.append(Spec('Deque.Deque(%s)' % k, lambda c: [(True, Ret(VOID, PS(c.ap(0))))], value=V3))
    out.append(Spec('Deque.Deque(iter,iter)', lambda c: [(True, Ret(VOID, PS((range_post(c, None),))))], value=V3))
    for nm, pos in (('front', 0), ('back', 1)):
        for suf in ('', ' const'):
            out.append(Spec('Deque.%s()%s' % (nm, suf), (lambda pos: lambda c: [(c_eq(c.n), Throw('empty')), (True, Ret(Ref(c.n - 1 if pos else ZERO)))])(pos), value=('C01', 'C20'), query=bool(suf)))
    out.append(Spec('Deque.push_back(elem)', lambda c: grow(c.n + 1, Ret(VOID, PS(c.S + (one(c, c.a(0)),)))), value=V3, modes=('elem',), maxn=MAX))
    out.append(Spec('Deque.push_front(elem)', lambda c: grow(c.n + 1, Ret(VOID, PS((one(c, c.a(0)),) + c.S))), value=V3, modes=('elem',), maxn=MAX))
    out.append(Spec('Deque.pop_back()', lambda c: [(c_eq(c.n), Throw('empty')), (True, Ret(mkel(c, c.n - 1), PS((c.sl(0, c.n - 1),))))], value=('C03', 'C20')))
    out.append(Spec('Deque.pop_front()', lambda c: [(c_eq(c.n), Throw('empty')), (True, Ret(mkel(c, ZERO), PS((c.sl(1, c.n),))))], value=('C03', 'C20')))
    half = (MAX - 5) // 2
    out.append(Spec('Deque.extend_back(iter,iter)', lambda c: [(True, Ret(VOID, PS(c.S + (range_post(c, None),))))], value=V3, modes=('range',), maxn=half))
    out.append(Spec('Deque.extend_front(iter,iter)', lambda c: [(True, Ret(VOID, PS((range_post(c, None),) + c.S)))], value=V3, modes=('range',), maxn=half))
    out.append(Spec('Deque.operator>>=(int)', lambda c: rot(c, c.a(0), left=False), value=V3, acc=('C02',)))
    out.append(Spec('Deque.operator<<=(int)', lambda c: rot(c, c.a(0), left=True), value=V3, acc=('C02',)))
    out.append(Spec('Deque.reverse()', lambda c: [(True, Ret(Self(), PS(rev_pieces(c.S))))], value=V3))
    out.append(Spec('Deque.clear()', lambda c: [(True, Ret(VOID, PS(())))], value=V3))
    return out


# ---------------------------------------------------------------- Str

UP = stdlib.ctab(tuple(v - 32 if 97 <= v <= 122 else v for v in range(-128, 128)))
LO = stdlib.ctab(tuple(v + 32 if 65 <= v <= 90 else v for v in range(-128, 128)))


def str_specs():
    out = [sp_index('Str.operator[](int) const'), sp_size('Str.size() const'), sp_empty('Str.is_empty() const')]
    out += sp_iter('Str')
    V3 = ('C03',)
    out.append(Spec('Str.Str()', lambda c: [(True, Ret(VOID, PS(())))], value=V3))
    out.append(Spec('Str.Str(string)', lambda c: [(True, Ret(VOID, PS(c.ap(0))))], value=V3))
    out.append(sp_copy_ctor('Str.Str(Str)'))
    out.append(sp_move_ctor('Str.Str(Str&&)'))
    out.append(sp_copy_assign('Str.operator=(Str)'))
    out.append(sp_move_assign('Str.operator=(Str&&)'))
    out.append(Spec('Str.operator+(char) const', lambda c: grow(c.n + 1, Ret(PS(c.S + (one(c, c.a(0)),)))), value=V3, maxn=MAX, query=True))
    out.append(Spec('Str.operator+(Str) const', lambda c: grow(c.n + pslen(c.ap(0)), Ret(PS(c.S + c.ap(0)))), value=V3, modes=('self',), maxn=MAX, query=True))
    out.append(Spec('Str.operator*(int) const', lambda c: repeat_val(c, False), value=V3, acc=('C02',), query=True))
    out.append(Spec('Str.operator>>(int) const', lambda c: rot(c, c.a(0), False, left=False), value=V3, acc=('C02',), query=True))
    out.append(Spec('Str.operator<<(int) const', lambda c: rot(c, c.a(0), False, left=True), value=V3, acc=('C02',), query=True))
    out.append(Spec('Str.reverse() const', lambda c: [(True, Ret(PS(rev_pieces(c.S))))], value=V3, query=True))
    out.append(Spec('Str.erase(int,int) const', lambda c: erase_val(c, False), value=V3, acc=('C02',), query=True))
    out.append(Spec('Str.slice(int,int,int) const', lambda c: slice_val(c, None), value=V3, acc=('C02',), query=True, defaults={2: L(1)}))
    for nm, tab in (('upper', UP), ('lower', LO)):
        out.append(Spec('Str.%s() const' % nm, (lambda tab: lambda c: [(c_eq(c.n), Ret(PS(()))), (True, Ret(Lazy(lambda c, st: PS((op('map', seqkey(st, c.S), tab, n=c.n),)))))])(tab), value=('C25',), query=True))

    def strip(c):
        def val(c, st):
            out = []
            ch = st.nl(c.a(0))
            for yes, lst in zip((True, False), st.fork(c_eq(ch + 1))):
                for s in lst:
                    if yes:
                        p = stdlib.cset(stdlib.FULL & ~sum(1 << v for v in range(0x21)))
                    elif s.nl(ch).is_const():
                        p = stdlib.cset(stdlib.FULL & ~(1 << (s.nl(ch).c & 255)))
                    else:
                        p = Term('not', Term('eq', L(stdlib.GEN) - ch))
                    i = stdlib.findpos(c.I, s, c.S, p)
                    none, some = s.fork(c_eq(c.n - i))
                    out += [(x, PS(())) for x in none]
                    for x in some:
                        j = stdlib.findpos(c.I, x, rev_pieces(c.S), p)
                        out.append((x, PS((c.sl(i, c.n - j),))))
            return out
        return [(c_eq(c.n), Ret(PS(()))), (True, Ret(Lazy(val)))]
    out.append(Spec('Str.strip(schar) const', strip, value=('C25',), query=True, defaults={0: L(-1)}))

    def find(c):
        def search(lo, hi):
            if lo is None:
                return Ret(Lin(-1))

            def val(c, st):
                return [(s, Lin(-1) if p is None else p + lo) for s, p in stdlib.strfind(c.I, st, (c.sl(lo, hi),), c.ap(0))]
            return Ret(Lazy(val))
        return find_cases(c, search)

    def cont(c):
        def search(lo, hi):
            if lo is None:
                return Ret(False)
            return Ret(Lazy(lambda c, st: [(s, p is not None) for s, p in stdlib.strfind(c.I, st, (c.sl(lo, hi),), c.ap(0))]))
        return find_cases(c, search)
    out.append(Spec('Str.find(Str,int,int) const', find, value=('C02', 'C27'), acc=('C02',), modes=('self',), query=True, defaults={1: L(0), 2: L(INT_MAX)}))
    out.append(Spec('Str.contains(Str,int,int) const', cont, value=('C02', 'C27'), acc=('C02',), query=True, defaults={1: L(0), 2: L(INT_MAX)}))

    def affix(front):
        def cases(c):
            m = pslen(c.ap(0))
            long = c_ge(m - c.n - 1)

            def val(c, st):
                part = (c.sl(0, m),) if front else (c.sl(c.n - m, c.n),)
                return [(s, e) for s, e in seq_eq(st, part, c.ap(0))]
            return [(long, Ret(False)), (True, Ret(Lazy(val)))]
        return cases
    out.append(Spec('Str.starts_with(Str) const', affix(True), value=('C27',), query=True))
    out.append(Spec('Str.ends_with(Str) const', affix(False), value=('C27',), query=True))
    return out


def seq_eq(st, a, b):
    """(state, truth of equality) of two sequences"""
    c = _interp.seq_eq_cond(st, Seq(a, 'string', _interp.CHAR), Seq(b, 'string', _interp.CHAR))
    if isinstance(c, list):
        return c
    t, f = st.fork(c)
    return [(s, True) for s in t] + [(s, False) for s in f]


def specs():
    return list_specs() + deque_specs() + str_specs()
