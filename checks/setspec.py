"""Documented behaviour of Set and Dict."""
from .core import *          # noqa
from .core import Any as ANY
from .core import _interp
from .seqspec import sp_size, sp_empty, sp_iter, grow, range_post, self_post, one, op, whole, MAX
from engine import sets
from engine.sets import mem_pred, mem_cond, locate

V13, V14 = ('C13',), ('C14',)


def other(c):
    return seq_of(c.args[0])


def filt(c, st, ps, p):
    out = ()
    for q in ps:
        out += tuple(filtered(c.I, st, (q,), p))
    return out


def algebra(c, st, o):
    """pieces of `this o argument`"""
    t, a = seq_of(c.this), other(c)
    if t.p == a.p:
        return PS(t.p if o in '&|' else ())
    ina = mem_pred(c.I, st, a, False)
    int_ = mem_pred(c.I, st, t, False)
    neg = stdlib.neg_pred
    if o == '&':
        r = filt(c, st, t.p, ina)
    elif o == '-':
        r = filt(c, st, t.p, neg(ina))
    elif o == '|':
        r = t.p + filt(c, st, a.p, neg(int_))
    else:
        r = filt(c, st, t.p, neg(ina)) + filt(c, st, a.p, neg(int_))
    return PS(r)


def common(c, st):
    return sets.inter_count(c.I, st, seq_of(c.this).p, other(c).p)


def subset(c, st, flip=False, proper=False):
    n, m = slen(seq_of(c.this)), slen(other(c))
    if flip:
        n, m = m, n
    r = c_eq(n - common(c, st))
    if proper:
        r = c_and(r, c_not(c_eq(n - m)))
    return r


def present(c, i=0, map_=None):
    """condition: argument i is in the container"""
    return mem_cond(c.I, c.st, seq_of(c.this), c.a(i), map_)


def pos_of(c, st, i=0):
    r = [(s, p) for s, p in locate(c.I, st, seq_of(c.this), c.a(i)) if p is not None]
    return r


def without(c, p):
    p = L(p)
    return PS((c.sl(0, p), c.sl(p + 1, c.n)))


def first_at(c, i):
    v = mk_at(c.B, L(i), seq_of(c.this).et)
    return v.f['first'] if isinstance(v, Struct) else v


def inserted(c, st, map_, src):
    """pieces after inserting every element of src that is not present"""
    t = seq_of(c.this)
    d = sets.dedup(c.I, st, src, map_)
    if d is None:
        raise Giveup('repeated elements of the source')
    return PS(t.p + filt(c, st, d, stdlib.neg_pred(mem_pred(c.I, st, t, map_)))) if d else PS(t.p)


def deduped(c, st, map_, src):
    d = sets.dedup(c.I, st, src, map_)
    if d is None:
        raise Giveup('repeated elements of the source')
    return PS(d)


def popped(c, st):
    """the object after the element the call returned was taken out"""
    v = c.outcome.val
    t = None
    if isinstance(v, El):
        t = v.t
    elif isinstance(v, Struct):
        t = v.f['first'].t if isinstance(v.f['first'], El) else None
        t = t.args[0] if t is not None and t.op == 'first' else None
    if t is None:
        raise Giveup('popped element')
    t = st.norm(t)
    if t.op == 'at' and t.args[0] is c.B:
        return without(c, t.args[1])
    return PS((('one', v),))        # not an element of the container: differs from every state


def is_elem(c, st):
    """the returned entry is one of the container"""
    v = c.outcome.val
    f = v.f['first'] if isinstance(v, Struct) else v
    t = st.norm(f.t)
    if isinstance(v, Struct):
        if t.op == 'first' and t.args[0].op == 'at' and t.args[0].args[0] is c.B:
            return mk_at(c.B, t.args[0].args[1], seq_of(c.this).et)
        return mk_at(c.B, ZERO, seq_of(c.this).et)
    if t.op == 'at' and t.args[0] is c.B:
        return f
    return first_at(c, 0)


def sp_pop(cls, props):
    return Spec('%s.pop()' % cls, lambda c: [(c_eq(c.n), Throw('empty')), (True, Ret(Lazy(is_elem), Lazy(popped)))], value=props)


def set_specs():
    C = 'Set'
    out = [sp_size('Set.size() const'), sp_empty('Set.is_empty() const')]
    for s in out:
        s.value = V14
    its = sp_iter(C)
    for s in its:
        s.value = V14
    out += its
    out.append(Spec('Set.Set()', lambda c: [(True, Ret(VOID, PS(())))], value=V14))
    out.append(Spec('Set.Set(init)', lambda c: [(True, Ret(VOID, Lazy(lambda c, st: deduped(c, st, False, c.ap(0)))))], value=V14))
    out.append(Spec('Set.Set(set)', lambda c: [(True, Ret(VOID, PS(c.ap(0))))], value=V14))
    out.append(Spec('Set.Set(iter,iter)', lambda c: [(True, Ret(VOID, Lazy(lambda c, st: deduped(c, st, False, (range_post(c, None),)))))], value=V14))
    # algebra
    for o in '&|-^':
        def val(c, o=o):
            return [(True, Ret(Lazy(lambda c, st: algebra(c, st, o))))]

        def upd(c, o=o):
            return [(True, Ret(Self(), Lazy(lambda c, st: algebra(c, st, o))))]
        out.append(Spec('Set.operator%s(Set) const' % o, val, value=V13, modes=('self',), query=True))
        out.append(Spec('Set.operator%s=(Set)' % o, upd, value=V13, modes=('self',)))
    for o, kw in (('<=', {}), ('<', {'proper': True}), ('>=', {'flip': True}), ('>', {'flip': True, 'proper': True})):
        def cmp(c, kw=kw):
            return [(True, Ret(Lazy(lambda c, st: subset(c, st, **kw))))]
        out.append(Spec('Set.operator%s(Set) const' % o, cmp, value=V13, modes=('self',), query=True))

    def eq(c):
        return [(True, Ret(Lazy(lambda c, st: c_and(subset(c, st), subset(c, st, flip=True)))))]
    out.append(Spec('Set.operator==(Set) const', eq, value=V13, modes=('self',), query=True))
    # updates
    def add(c):
        p = present(c)
        new = Ret(True, PS(c.S + (one(c, c.a(0)),)))
        near = c_ge(c.n + 1 - MAX + 2)
        return [(c_and(c_ge(c.n - MAX), p), Either(Throw('full'), Ret(False))), (c_ge(c.n - MAX), Throw('full')),
                (c_and(near, p), Either(Throw('full'), Ret(False))), (near, Either(Throw('full'), new)), (p, Ret(False)), (True, new)]
    out.append(Spec('Set.add(elem)', add, value=V14, modes=('elem',), maxn=MAX))

    def rem(c):
        return [(present(c), Ret(True, Lazy(lambda c, st: [(s, without(c, p)) for s, p in pos_of(c, st)]))), (True, Ret(False))]
    out.append(Spec('Set.remove(elem)', rem, value=V14, modes=('elem',)))
    out.append(Spec('Set.contains(elem) const', lambda c: [(True, Ret(present(c)))], value=V14, modes=('elem',), query=True))
    out.append(Spec('Set.find(elem) const', lambda c: [(True, Ret(Lazy(lambda c, st: [(s, Pos(c.n if p is None else p)) for s, p in locate(c.I, st, seq_of(c.this), c.a(0))])))], value=V14, query=True))
    half = (MAX - 5) // 2
    out.append(Spec('Set.extend(iter,iter)', lambda c: [(True, Ret(VOID, Lazy(lambda c, st: inserted(c, st, False, (range_post(c, None),)))))], value=V14, modes=('range',), maxn=half))
    out.append(Spec('Set.clear()', lambda c: [(True, Ret(VOID, PS(())))], value=V14))
    for nm, last in (('min', False), ('max', True)):
        out.append(Spec('Set.%s() const' % nm, (lambda last: lambda c: [(c_eq(c.n), Throw('empty')), (True, Ret(first_at(c, c.n - 1 if last else 0)))])(last), value=('C20',), query=True))
    out.append(sp_pop(C, ('C14', 'C20')))
    return out


# ---------------------------------------------------------------- Dict

def entry(c, p):
    return mk_at(c.B, L(p), seq_of(c.this).et)


def projected(c, st, fld):
    """set of the keys/values of the dictionary"""
    if fld is None:
        return PS(c.S)
    k = seqkey(st, c.S)
    m = ('op', Term('map', k, Term(fld, GEN)), c.n)
    return PS(sets.dedup(c.I, st, (m,), False))


def dict_specs():
    C = 'Dict'
    out = [sp_size('Dict.size() const'), sp_empty('Dict.is_empty() const')]
    out += sp_iter(C)
    for s in out:
        s.value = V14
    out.append(Spec('Dict.Dict()', lambda c: [(True, Ret(VOID, PS(())))], value=V14))
    out.append(Spec('Dict.Dict(init)', lambda c: [(True, Ret(VOID, Lazy(lambda c, st: deduped(c, st, True, c.ap(0)))))], value=V14))
    out.append(Spec('Dict.Dict(map)', lambda c: [(True, Ret(VOID, PS(c.ap(0))))], value=V14))
    out.append(Spec('Dict.Dict(iter,iter)', lambda c: [(True, Ret(VOID, Lazy(lambda c, st: deduped(c, st, True, (range_post(c, None),)))))], value=V14))
    out.append(Spec('Dict.operator==(Dict) const', lambda c: [(True, Ret(Lazy(lambda c, st: sets.eq_cond(c.I, st, seq_of(c.this), other(c), None))))], value=V14, modes=('self',), query=True))
    for suf in ('', ' const'):
        out.append(Spec('Dict.operator[](key)' + suf, lambda c: [(present(c), Ret(Lazy(lambda c, st: [(s, Ref(p, fld='second')) for s, p in pos_of(c, st)]))), (True, Throw('key'))],
                        value=V14, modes=('elem',), query=bool(suf)))
    out.append(Spec('Dict.get(key,elem) const', lambda c: [(present(c), Ret(Lazy(lambda c, st: [(s, entry(c, p).f['second']) for s, p in pos_of(c, st)]))), (True, Ret(c.a(1)))], value=V14, modes=('elem',), query=True, throws=()))

    def add(c):
        p = present(c)
        new = Ret(True, PS(c.S + (one(c, sets.pair(c.a(0), c.a(1))),)))
        near = c_ge(c.n + 1 - MAX + 2)
        return [(c_and(c_ge(c.n - MAX), p), Either(Throw('full'), Ret(False))), (c_ge(c.n - MAX), Throw('full')),
                (c_and(near, p), Either(Throw('full'), Ret(False))), (near, Either(Throw('full'), new)), (p, Ret(False)), (True, new)]
    out.append(Spec('Dict.add(key,elem)', add, value=V14, modes=('elem',), maxn=MAX))

    def rem(c):
        return [(present(c), Ret(True, Lazy(lambda c, st: [(s, without(c, p)) for s, p in pos_of(c, st)]))), (True, Ret(False))]
    out.append(Spec('Dict.remove(key)', rem, value=V14, modes=('elem',)))
    out.append(Spec('Dict.contains(key) const', lambda c: [(True, Ret(present(c)))], value=V14, modes=('elem',), query=True))
    out.append(Spec('Dict.find(key) const', lambda c: [(True, Ret(Lazy(lambda c, st: [(s, Pos(c.n if p is None else p)) for s, p in locate(c.I, st, seq_of(c.this), c.a(0))])))], value=V14, query=True))
    half = (MAX - 5) // 2
    out.append(Spec('Dict.extend(iter,iter)', lambda c: [(True, Ret(VOID, Lazy(lambda c, st: inserted(c, st, True, (range_post(c, None),)))))], value=V14, modes=('range',), maxn=half))
    out.append(Spec('Dict.clear()', lambda c: [(True, Ret(VOID, PS(())))], value=V14))
    for nm, last in (('min', False), ('max', True)):
        out.append(Spec('Dict.%s() const' % nm, (lambda last: lambda c: [(c_eq(c.n), Throw('empty')), (True, Ret(first_at(c, c.n - 1 if last else 0)))])(last), value=('C20',), query=True))
    out.append(sp_pop(C, ('C14', 'C20')))
    for nm, fld in (('keys', 'first'), ('values', 'second'), ('items', None)):
        out.append(Spec('Dict.%s() const' % nm, (lambda fld: lambda c: [(True, Ret(Lazy(lambda c, st: projected(c, st, fld))))])(fld), value=V14, query=True))
    return out


def specs():
    return set_specs() + dict_specs()
