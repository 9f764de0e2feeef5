"""std::set and std::map as sequences of distinct elements / entries with distinct keys.

A set or map value is a Seq of kind 'set' / 'map'.  Its pieces list the elements in an arbitrary ("raw") order;
an unmodified container is one slice of its sorted base.  Membership of an element in a piece is the atom
`mem(seqkey, e)` (`kmem` for the keys of a map), its position the term `mempos` / `kmempos`.
"""
from .dom import *
from . import stdlib
from .stdlib import GEN, seqkey, cond_term, pred_at

KINDS = ('set', 'map')


def is_set(v):
    return isinstance(v, Seq) and v.kind in KINDS


# ---------------------------------------------------------------- values

def desc(I, nm, t):
    if nm == 'std::set':
        return I.elem_desc(t['args'][0])
    da, db = I.elem_desc(t['args'][0]), I.elem_desc(t['args'][1])

    def mk(term):
        def one(d, n):
            tt = Term(n, term)
            if d.get('int'):
                return L(tt)
            return d['mk'](tt) if d.get('mk') else El(tt)
        return Struct('std::pair', {'first': one(da, 'first'), 'second': one(db, 'second'), '__id': term})
    return {'mk': mk, 'ti': None, 's': 'pair', 'mapped': t['args'][1]}


def generic(nm, term, I, t):
    b = Term('base', Term('sset' if nm == 'std::set' else 'smap', term))
    return Seq((('sl', b, ZERO, t_len(b)),), 'set' if nm == 'std::set' else 'map', desc(I, nm, t))


def empty(nm, I, t):
    return Seq((), 'set' if nm == 'std::set' else 'map', desc(I, nm, t))


def set_base(b):
    return isinstance(b, Term) and b.op == 'base' and isinstance(b.args[0], Term) and b.args[0].op in ('sset', 'smap')


def whole(st, p):
    return p[0] == 'sl' and set_base(p[1]) and st.nl(p[2]) == ZERO and st.nl(p[3] - t_len(p[1])) == ZERO


def key_term(st, v):
    """term identifying an element value"""
    if isinstance(v, El):
        return st.norm(v.t)
    if isinstance(v, Lin):
        return st.nl(v)
    if isinstance(v, Struct):
        t = v.f.get('__id')
        if isinstance(t, Term):
            return t
        return Term('mkpair', key_term(st, v.f['first']), key_term(st, v.f['second']))
    if isinstance(v, Seq):
        return seqkey(st, v.p)
    raise Giveup('set element %r' % (v,))


def slot(t):
    """(base, index) of an element (key) term that is an element of a sorted container"""
    if isinstance(t, Term) and t.op == 'at' and set_base(t.args[0]) and t.args[0].args[0].op == 'sset':
        return t.args[0], t.args[1]
    if isinstance(t, Term) and t.op == 'first' and isinstance(t.args[0], Term) and t.args[0].op == 'at' and set_base(t.args[0].args[0]) and t.args[0].args[0].args[0].op == 'smap':
        return t.args[0].args[0], t.args[0].args[1]
    return None


def placed(st, b, x):
    """(present?, position) of element x in the sorted base b when the state decides its membership"""
    k = Term('seqkey', (('sl', b, ZERO, t_len(b)),))
    k = Term('seqkey', simp(st, k.args[0]))
    m = 'mem' if b.args[0].op == 'sset' else 'kmem'
    d = st.decide(('atom', Term(m, k, x)))
    if d is None:
        return None
    pos = L(Term(('mempos' if m == 'mem' else 'kmempos') if d else 'lbpos', k, x))
    return d, pos


def order(st, x, y):
    """(x == y, x < y, y < x) of two element terms when they can be told from positions in a sorted container"""
    a, b = slot(x), slot(y)
    if a and b and a[0] is b[0]:
        d = st.nl(a[1] - b[1])
        return c_eq(d), c_ge(-d - 1), c_ge(d - 1)
    if a is None and b is not None:
        r = order(st, y, x)
        return r and (r[0], r[2], r[1])
    if a is None:
        return None
    r = placed(st, a[0], y)
    if r is None:
        return None
    d = st.nl(a[1] - r[1])
    if r[0]:
        return c_eq(d), c_ge(-d - 1), c_ge(d - 1)
    return False, c_ge(-d - 1), c_ge(d)


def the_key(seq, v):
    return v.f['first'] if seq.kind == 'map' and isinstance(v, Struct) and v.cls == 'std::pair' else v


def sorted_raw(st, ps):
    """is the raw order the sorted order?"""
    ps = simp(st, ps)
    if len(ps) <= 1:
        if not ps or ps[0][0] == 'one':
            return True
        p = ps[0]
        if p[0] == 'sl':
            return set_base(p[1])
        if p[0] == 'op':
            t = p[1]
            while t.op in ('take', 'drop'):
                t = t.args[0]
            if t.op == 'sorted':
                return True
            if t.op == 'filter':
                return sorted_raw(st, t.args[0].args[0])
        return False
    if all(p[0] == 'sl' and p[1] is ps[0][1] and set_base(p[1]) for p in ps):
        return all(st.entails_ge(b[2] - a[3]) for a, b in zip(ps, ps[1:]))
    return False


def distinct(st, ps):
    """are the elements certainly pairwise different?"""
    ps = simp(st, ps)
    if not ps:
        return True
    if len(ps) > 1:
        return sorted_raw(st, ps) or all(distinct(st, (p,)) for p in ps) and all(disjoint(st, p, q) for i, p in enumerate(ps) for q in ps[i + 1:])
    p = ps[0]
    if p[0] == 'one':
        return True
    if p[0] in ('sl', 'rv'):
        return set_base(p[1])
    if p[0] == 'op':
        t = p[1]
        if t.op in ('filter', 'sorted', 'take', 'drop', 'rev'):
            a = t.args[0]
            return distinct(st, a.args[0]) if a.op == 'seqkey' else distinct(st, (('op', a, ONE),))
        if t.op in ('dedup', 'kdedup'):
            return True
        if t.op == 'map' and t.args[1] is Term('first', GEN):
            return kdistinct(st, t.args[0].args[0])
    return False


def sources(st, p):
    """piece lists that certainly contain every element of p"""
    out = [(p,)]
    while p[0] == 'op' and p[1].op == 'filter':
        src = p[1].args[0].args[0]
        out.append(src)
        if len(src) != 1:
            break
        p = src[0]
    return out


def excluded(p):
    """piece lists none of whose elements is in p"""
    out = []
    while p[0] == 'op' and p[1].op == 'filter':
        pr = p[1].args[1]
        for a in (pr.args if pr.op == 'and' else (pr,)):
            if a.op == 'not' and a.args[0].op in ('mem', 'kmem'):
                x = a.args[0].args[1]
                if x is GEN or a.args[0].op == 'kmem' and x is Term('first', GEN):
                    out.append(a.args[0].args[0].args[0])
        src = p[1].args[0].args[0]
        if len(src) != 1:
            break
        p = src[0]
    return out


def within(a, b):
    """pieces a all occur in pieces b"""
    return all(any(x == y or x[0] == y[0] == 'sl' and x[1] is y[1] and y[2] == ZERO and y[3] == t_len(y[1]) for y in b) for x in a)


def disjoint(st, p, q):
    for x, y in ((p, q), (q, p)):
        ex = excluded(x)
        if ex and any(within(s, e) for s in sources(st, y) for e in ex):
            return True
    return False


def vacuous(st, p):
    """a filter that excludes everything its source contains"""
    return p[0] == 'op' and p[1].op == 'filter' and any(within(s, e) for s in sources(st, p) for e in excluded(p))


def kdistinct(st, ps):
    """are the keys of these entries certainly pairwise different?"""
    ps = simp(st, ps)
    if not ps:
        return True
    if len(ps) > 1:
        if sorted_raw(st, ps) and ps[0][1].args[0].op == 'smap':
            return True
        return all(kdistinct(st, (p,)) for p in ps) and all(disjoint(st, p, q) for i, p in enumerate(ps) for q in ps[i + 1:])
    p = ps[0]
    if p[0] == 'one':
        return True
    if p[0] in ('sl', 'rv'):
        return set_base(p[1]) and p[1].args[0].op == 'smap'
    if p[0] == 'op':
        t = p[1]
        if t.op in ('filter', 'sorted', 'take', 'drop', 'rev'):
            a = t.args[0]
            return kdistinct(st, a.args[0]) if a.op == 'seqkey' else kdistinct(st, (('op', a, ONE),))
        return t.op == 'kdedup'
    return False


# ---------------------------------------------------------------- membership

def unwrap(st, ps):
    out = []
    for p in simp(st, ps):
        if p[0] == 'op' and p[1].op == 'sorted':
            out += unwrap(st, p[1].args[0].args[0])
        else:
            out.append(p)
    return tuple(out)


def hole(st, ps, i):
    """pieces i, i+1 are a base without one element: index of the missing element"""
    if i + 1 < len(ps):
        a, b = ps[i], ps[i + 1]
        if a[0] == b[0] == 'sl' and a[1] is b[1] and set_base(a[1]) and st.nl(a[2]) == ZERO and st.nl(b[3] - t_len(a[1])) == ZERO and st.nl(b[2] - a[3]) == ONE:
            return a[3]
    return None


def mem_cond(I, st, seq, e, map_=None):
    """condition: element (key) value e occurs in the container"""
    map_ = seq.kind == 'map' if map_ is None else map_
    op = 'kmem' if map_ else 'mem'
    ps = unwrap(st, seq.p)
    et = key_term(st, e)
    c = False
    i = 0
    while i < len(ps):
        p = ps[i]
        if p[0] == 'one':
            c = c_or(c, I.eq_values(st, p[1].f['first'] if map_ else p[1], e, None))
            i += 1
            continue
        h = hole(st, ps, i)
        if h is not None:
            x = mk_at(p[1], h, seq.et)
            x = x.f['first'] if map_ else x
            c = c_or(c, c_and(mem_atom(st, op, (('sl', p[1], ZERO, t_len(p[1])),), et), c_not(I.eq_values(st, x, e, None))))
            i += 2
            continue
        if not map_ and p[0] == 'op' and p[1].op == 'filter' and distinct(st, p[1].args[0].args[0]):
            inner = Seq(p[1].args[0].args[0], 'set', seq.et)
            try:
                pc = stdlib.term_cond(pred_at(p[1].args[1], et))
                c = c_or(c, c_and(mem_cond(I, st, inner, e, map_), pc))
                i += 1
                continue
            except Giveup:
                pass
        c = c_or(c, mem_atom(st, op, (p,), et))
        i += 1
    return c


def mem_atom(st, op, ps, et):
    ps = simp(st, ps)
    if not ps:
        return False
    t = et
    if op == 'kmem' and isinstance(et, Term) and et.op == 'first':
        t = et.args[0]
    elif op == 'kmem':
        t = None
    if isinstance(t, Term) and t.op == 'at' and len(ps) == 1 and ps[0][0] == 'sl' and t.args[0] is ps[0][1]:
        i = t.args[1]
        if st.entails_ge(i - ps[0][2]) and st.entails_ge(ps[0][3] - 1 - i):
            return True
    return ('atom', Term(op, Term('seqkey', ps), et))


def locate(I, st, seq, e):
    """list of (state, raw position or None) of element (key) e"""
    map_ = seq.kind == 'map'
    ps = simp(st, seq.p)
    et = key_term(st, e)
    out = []
    work = [(st, 0, ZERO)]
    while work:
        s, i, off = work.pop()
        if i == len(ps):
            out.append((s, None))
            continue
        p = ps[i]
        one = Seq((p,), seq.kind, seq.et)
        c = mem_cond(I, s, one, e)
        t, f = s.fork(c)
        for x in t:
            x = x.copy()
            n = x.nl(plen(p))
            if n == ONE:
                out.append((x, x.nl(off)))
                continue
            t1 = et
            if map_:
                t1 = et.args[0] if isinstance(et, Term) and et.op == 'first' else None
            if p[0] == 'sl' and isinstance(t1, Term) and t1.op == 'at' and t1.args[0] is p[1]:
                out.append((x, x.nl(off + t1.args[1] - p[2])))
                continue
            pos = L(Term('kmempos' if map_ else 'mempos', Term('seqkey', (p,)), et))
            x.add_ge(pos)
            x.add_ge(n - 1 - pos)
            if not x.empty():
                out.append((x, x.nl(off + pos)))
        for x in f:
            work.append((x, i + 1, off + plen(p)))
    return out


def soft(st, obj):
    """element iterators of the container can no longer be followed precisely"""
    cur = st.ver.get(obj, 0)
    cur = cur[0] if isinstance(cur, tuple) else cur
    st.ver[obj] = (cur + 1, True)


def put(I, s, obj, c, ps, node):
    r = I.write(s, obj, c.with_p(simp(s, ps)), node)
    for x in r:
        soft(x, obj)
    return r


def take(I, s, obj, c, lo, hi, node):
    """states with elements [lo, hi) removed"""
    out = []
    for s2, a, b in split(s, c.p, lo):
        for s3, m, d in split(s2, b, s2.nl(L(hi) - L(lo))):
            out += put(I, s3, obj, c, a + d, node)
    return out


def pair(a, b):
    return Struct('std::pair', {'first': a, 'second': b})


def dedup(I, st, ps, map_):
    ps = simp(st, ps)
    if (kdistinct if map_ else distinct)(st, ps):
        return ps
    if len(ps) <= 4 and all(p[0] == 'one' or st.nl(plen(p)) == ONE for p in ps):
        return None         # small literal: caller inserts one by one
    k = Term('seqkey', ps)
    n = L(Term('kdeduplen' if map_ else 'deduplen', k))
    ln = pslen(ps)
    st.add_ge(n)
    st.add_ge(ln - n)
    if st.entails_ge(ln - 1):
        st.add_ge(n - 1)
    return (('op', Term('kdedup' if map_ else 'dedup', k), st.nl(n)),)


def mem_pred(I, st, seq, map_):
    """predicate on $x: the element (key) $x occurs in seq"""
    x = stdlib.gen_elem(I, seq.et)
    if map_:
        x = x.f['first']
    return st.norm(cond_term(mem_cond(I, st, seq, x, map_)))


def insert_range(I, st, obj, c, ps, node):
    """states after inserting every element of ps"""
    map_ = c.kind == 'map'
    src = simp(st, ps)
    d = dedup(I, st, src, map_)
    if d is None:
        out = [st]
        for p in src:
            nxt = []
            for s in out:
                for s2, cc in I.read(s, obj, node):
                    v = elem_of(s2, p, ZERO, c.et)
                    for s3, pos in locate(I, s2, cc, the_key(cc, v)):
                        nxt += [s3] if pos is not None else put(I, s3, obj, cc, cc.p + (('one', v),), node)
            out = nxt
        return out
    if not c.p:
        return put(I, st, obj, c, d, node)
    if unwrap(st, c.p) == unwrap(st, d):
        return [st]
    p = stdlib.neg_pred(mem_pred(I, st, c, map_))
    rest = ()
    for q in d:
        rest += tuple(stdlib.filtered(I, st, (q,), p))
    return put(I, st, obj, c, c.p + rest, node)


def insert_pieces(I, s, a, c, ps, node):
    return insert_range(I, s, a, c, ps, node)


# ---------------------------------------------------------------- construction

def construct(I, st, f, args, t, ti, node):
    nm = t['name']
    e = empty(nm, I, t)
    real = []
    for a in args:
        v = a
        if isinstance(a, Addr) and not a.path:
            v = st.store.get(a.root)
        if isinstance(v, Obj) and v.tag == 'std' and ('less' in str(v.a[0]) or 'allocator' in str(v.a[0])):
            continue
        real.append(a)
    args = real
    if not args:
        return [(st, e)]
    if f.get('copy') or f.get('move'):
        out = []
        for s, v in I.rv(st, args[0], node):
            if not is_set(v):
                I.giveup('set construction from %r' % (v,), node)
            if f.get('move') and isinstance(args[0], Addr):
                out += [(s2, v) for s2 in I.write(s, args[0], v.with_p(()), node)]
            else:
                out.append((s, v))
        return out
    out = []
    for s, vs in stdlib.vals(I, st, args, node):
        if len(vs) == 1 and isinstance(vs[0], Seq):
            lst = [(s, vs[0].p)]
        elif len(vs) >= 2:
            lst = [(s2, ps) for s2, ps, et in stdlib.rng_pieces(I, s, vs[0], vs[1], node)]
        else:
            I.giveup('set construction', node)
        for s2, ps in lst:
            a = s2.alloc(e)
            for s3 in insert_range(I, s2, a, e, ps, node):
                out.append((s3, s3.store[a.root]))
    return out


# ---------------------------------------------------------------- members

def method(I, st, f, obj, args, node):
    nm = f['name']
    if not isinstance(obj, Addr):
        obj = st.alloc(obj)
    if nm in ('begin', 'cbegin', 'rbegin', 'crbegin', 'rend', 'crend'):
        out = []
        for s, c in I.read(st, obj, node):
            if not sorted_raw(s, c.p):
                n = s.nl(pslen(c.p))
                for s2 in put(I, s, obj, c, (('op', Term('sorted', seqkey(s, unwrap(s, c.p))), n),), node):
                    out += stdlib.seq_method(I, s2, f, obj, args, node)
            else:
                out += stdlib.seq_method(I, s, f, obj, args, node)
        return out
    if nm in ('end', 'cend', 'size', 'empty', 'clear', 'max_size', 'swap', 'operator='):
        if nm == 'operator=' and args:
            out = []
            for s, v in I.rv(st, args[0], node):
                if is_set(v):
                    out += stdlib.seq_method(I, s, f, obj, args, node)
                elif isinstance(v, Seq):
                    for s2, c in I.read(s, obj, node):
                        for s3 in put(I, s2, obj, c, (), node):
                            out += [(s4, obj) for s4 in insert_range(I, s3, obj, c.with_p(()), v.p, node)]
                else:
                    I.giveup('set assignment', node)
            return out
        return stdlib.seq_method(I, st, f, obj, args, node)
    out = []
    for s, c in I.read(st, obj, node):
        if not is_set(c):
            I.giveup('set method on %r' % (c,), node)
        out += method1(I, s, f, nm, obj, c, args, node)
    return out


def elem_arg(I, st, f, args, i, c, node):
    """list of (state, element value) of an inserted element"""
    out = []
    for s, v in stdlib.take_arg(I, st, args[i], f, i, node):
        out.append((s, v))
    return out


def to_entry(v):
    if isinstance(v, Struct) and v.cls == 'std::pair':
        return v
    return None


def method1(I, s, f, nm, obj, c, args, node):
    out = []
    map_ = c.kind == 'map'
    n = s.nl(slen(c))
    end = lambda x: stdlib.mkit(x, obj, n)
    if nm in ('lower_bound', 'upper_bound', 'equal_range'):
        ps = simp(s, c.p)
        if not (len(ps) == 1 and whole(s, ps[0])):
            I.giveup(nm + ' in a modified container', node)
        for s1, k in I.rv(s, args[0], node):
            for s2, pos in locate(I, s1, c, k):
                s2 = s2.copy()
                if pos is None:
                    lo = hi = L(Term('lbpos', Term('seqkey', ps), key_term(s2, k)))
                    s2.add_ge(lo)
                    s2.add_ge(n - lo)
                    if s2.empty():
                        continue
                else:
                    lo, hi = pos, pos + 1
                lo, hi = stdlib.mkit(s2, obj, s2.nl(lo)), stdlib.mkit(s2, obj, s2.nl(hi))
                out.append((s2, lo if nm == 'lower_bound' else hi if nm == 'upper_bound' else pair(lo, hi)))
        return out
    if nm in ('find', 'count', 'contains', 'at', 'operator[]'):
        for s1, k in I.rv(s, args[0], node):
            for s2, pos in locate(I, s1, c, k):
                if nm == 'find':
                    out.append((s2, stdlib.mkit(s2, obj, n if pos is None else pos)))
                elif nm in ('count', 'contains'):
                    out.append((s2, (ZERO if pos is None else ONE) if nm == 'count' else pos is not None))
                elif nm == 'at' or nm == 'operator[]' and pos is not None:
                    if pos is None:
                        I.do_throw(s2, Exc('std::out_of_range', 'at'), node)
                    else:
                        out.append((s2, obj.el(pos, stdlib.gen_of(s2, obj)).fld('second')))
                elif nm == 'operator[]':
                    dv = stdlib.default_elem(I, c.et['mapped'], node)
                    for s3 in put(I, s2, obj, c, c.p + (('one', pair(k, dv)),), node):
                        out.append((s3, obj.el(n, stdlib.gen_of(s3, obj)).fld('second')))
                else:
                    I.giveup(nm + ' of an absent element', node)
        return out
    if nm in ('insert', 'emplace', 'emplace_hint', 'try_emplace', 'insert_or_assign'):
        vs0 = [I.rv(s, a, node)[0][1] for a in args]
        if nm == 'insert' and len(args) == 2 and isinstance(vs0[1], Iter):
            for s1, ps, et in stdlib.rng_pieces(I, s, vs0[0], vs0[1], node):
                src = I.rv(s1, args[0], node)[0][1]
                for s2, cc in I.read(s1, obj, node):
                    out += [(x, VOID) for x in insert_range(I, s2, obj, cc, ps, node)]
            return out
        if nm == 'insert' and len(args) == 1 and isinstance(vs0[0], Seq) and vs0[0].kind == 'init':
            return [(x, VOID) for x in insert_range(I, s, obj, c, vs0[0].p, node)]
        if nm == 'insert' and vs0 and isinstance(vs0[-1], Obj) and vs0[-1].tag == 'node':
            I.giveup('node insertion', node)
        hint = nm == 'emplace_hint' or (nm == 'insert' and len(args) == 2) or (nm in ('try_emplace', 'insert_or_assign') and isinstance(vs0[0], Iter))
        a = list(args[1:] if hint else args)
        off = 1 if hint else 0
        lst = []
        if nm in ('try_emplace', 'insert_or_assign') or (map_ and len(a) == 2):
            for s1, k in I.rv(s, a[0], node):
                if len(a) == 1:
                    lst.append((s1, pair(k, stdlib.default_elem(I, c.et['mapped'], node))))
                elif len(a) == 2:
                    lst += [(s2, pair(k, v)) for s2, v in I.rv(s1, a[1], node)]
                else:
                    I.giveup('emplace arguments', node)
        elif len(a) == 1:
            lst = elem_arg(I, s, f, args, off, c, node)
        else:
            I.giveup('emplace arguments', node)
        for s1, v in lst:
            if map_ and to_entry(v) is None:
                I.giveup('map entry %r' % (v,), node)
            k = the_key(c, v)
            for s2, cc in I.read(s1, obj, node):
                for s3, pos in locate(I, s2, cc, k):
                    if pos is None:
                        for s4 in put(I, s3, obj, cc, cc.p + (('one', v),), node):
                            it = stdlib.mkit(s4, obj, s4.nl(pslen(cc.p)))
                            out.append((s4, it if hint else pair(it, True)))
                    else:
                        if nm == 'insert_or_assign':
                            for s4 in I.write(s3, obj.el(pos).fld('second'), v.f['second'], node):
                                it = stdlib.mkit(s4, obj, pos)
                                out.append((s4, it if hint else pair(it, False)))
                            continue
                        it = stdlib.mkit(s3, obj, pos)
                        out.append((s3, it if hint else pair(it, False)))
        return out
    if nm in ('erase', 'extract'):
        for s1, vs in stdlib.vals(I, s, args, node):
            if isinstance(vs[0], Iter):
                if len(vs) == 2:
                    for s2, cc, lo, hi, rev in stdlib.rng(I, s1, vs[0], vs[1], node):
                        if vs[0].addr != obj:
                            I.giveup('erase range', node)
                        if not sorted_raw(s2, cc.p) and s2.decide(c_eq(hi - lo - slen(cc))) is not True:
                            I.giveup('erase range of an unordered set', node)
                        for s3 in take(I, s2, obj, cc, lo, hi, node):
                            out.append((s3, stdlib.mkit(s3, obj, lo)))
                    continue
                for s2 in stdlib.pos_check(I, s1, obj, vs[0], n, node, 1, nm + ' position outside the container'):
                    p = s2.nl(vs[0].pos)
                    for s3, v in seq_get(s2, c, p):
                        for s4 in take(I, s3, obj, c, p, p + 1, node):
                            out.append((s4, stdlib.mkit(s4, obj, p) if nm == 'erase' else Obj('node', v)))
                continue
            for s2, pos in locate(I, s1, c, vs[0]):
                if pos is None:
                    out.append((s2, ZERO if nm == 'erase' else Obj('node')))
                    continue
                for s3, v in seq_get(s2, c, pos):
                    for s4 in take(I, s3, obj, c, pos, pos + 1, node):
                        out.append((s4, ONE if nm == 'erase' else Obj('node', v)))
        return out
    if nm in ('merge',):
        o = args[0]
        for s1, v in I.rv(s, o, node):
            if o == obj:
                out.append((s1, VOID))
                continue
            pm = mem_pred(I, s1, c, map_)
            rest, left = (), ()
            for q in simp(s1, v.p):
                rest += tuple(stdlib.filtered(I, s1, (q,), stdlib.neg_pred(pm)))
                left += tuple(stdlib.filtered(I, s1, (q,), pm))
            for s2 in put(I, s1, obj, c, c.p + rest, node):
                out += [(s3, VOID) for s3 in put(I, s2, o, v, left, node)]
        return out
    if nm == 'operator==':
        for s1, v in I.rv(s, args[0], node):
            out.append((s1, I.eq_values(s1, c, v, node)))
        return out
    if nm in ('key_comp', 'value_comp', 'get_allocator'):
        return [(s, Obj('std', nm))]
    I.giveup('set method ' + f['qn'], node)


def node_method(I, st, f, obj, args, node):
    nm = f['name']
    out = []
    for s, v in I.rv(st, obj, node):
        if not (isinstance(v, Obj) and v.tag == 'node'):
            I.giveup('node handle %r' % (v,), node)
        if nm == 'empty':
            out.append((s, not v.a))
        elif nm == 'operator bool':
            out.append((s, bool(v.a)))
        elif nm in ('value', 'key', 'mapped'):
            if not v.a:
                I.ub(s, 'access to an empty node handle', node)
                continue
            out.append((s, s.alloc(v.a[0] if nm == 'value' else v.a[0].f['first' if nm == 'key' else 'second'])))
        else:
            I.giveup('node handle ' + nm, node)
    return out


def check_order(I, st, it, node):
    """moving an iterator is only meaningful when the raw order is the sorted order"""
    if isinstance(it, Iter):
        for s, c in I.read(st, it.addr, node):
            if is_set(c) and not sorted_raw(s, c.p):
                I.giveup('iteration over an unordered set', node)


# ---------------------------------------------------------------- comparison

def inter_count(I, st, pa, pb):
    """number of common elements of two sets (pieces)"""
    pa, pb = unwrap(st, pa), unwrap(st, pb)
    na, nb = st.nl(pslen(pa)), st.nl(pslen(pb))
    if na == ZERO or nb == ZERO:
        return ZERO
    if pa == pb:
        return na
    n = ZERO
    for q in pa:
        n = n + stdlib.cnt(I, st, (q,), mem_pred(I, st, Seq(pb, 'set'), False))
    return st.nl(n)


def eq_cond(I, st, a, b, node):
    pa, pb = canon(I, st, a.p, a.kind), canon(I, st, b.p, b.kind)
    if pa == pb:
        return True
    na, nb = st.nl(pslen(pa)), st.nl(pslen(pb))
    if a.kind == 'map':
        if na == ZERO or nb == ZERO:
            return c_eq(na - nb)
        x, y = sorted((Term('seqkey', pa), Term('seqkey', pb)), key=lambda t: t.id)
        return ('atom', Term('eqmap', x, y))
    k = inter_count(I, st, pa, pb)
    return c_and(c_eq(na - k), c_eq(nb - k))


def includes(I, st, vs, node):
    out = []
    for s, a in stdlib.range_seq(I, st, vs[0], vs[1], node):
        for s2, b in stdlib.range_seq(I, s, vs[2], vs[3], node):
            for q in (a, b):
                if not distinct(s2, q.p) or not sorted_raw(s2, unwrap(s2, q.p)):
                    I.giveup('includes of unsorted ranges', node)
            out.append((s2, c_eq(s2.nl(pslen(b.p)) - inter_count(I, s2, a.p, b.p))))
    return out


def set_alg(I, s, f, nm, vs, args, node):
    out = []
    for s1, a in stdlib.range_seq(I, s, vs[0], vs[1], node):
        for s2, b in stdlib.range_seq(I, s1, vs[2], vs[3], node):
            for q in (a, b):
                if not distinct(s2, q.p) or not (sorted_raw(s2, q.p) or sorted_raw(s2, unwrap(s2, q.p))):
                    I.giveup(nm + ' of unsorted ranges', node)
            pa, pb = unwrap(s2, a.p), unwrap(s2, b.p)
            if pa == pb:
                ps = {'set_intersection': pa, 'set_union': pa, 'merge': None}.get(nm, ())
            else:
                inb = mem_pred(I, s2, Seq(pb, 'set', b.et), False)
                ina = mem_pred(I, s2, Seq(pa, 'set', a.et), False)

                def filt(ps, p):
                    r = ()
                    for q in ps:
                        r += tuple(stdlib.filtered(I, s2, (q,), p))
                    return r
                neg = stdlib.neg_pred
                if nm == 'set_intersection':
                    ps = filt(pa, inb)
                elif nm == 'set_difference':
                    ps = filt(pa, neg(inb))
                elif nm == 'set_union':
                    ps = pa + filt(pb, neg(ina))
                elif nm == 'set_symmetric_difference':
                    ps = filt(pa, neg(inb)) + filt(pb, neg(ina))
                else:
                    ps = None
            if ps is None:
                I.giveup(nm, node)
            if nm in ('set_union', 'set_symmetric_difference') and len(ps) > 1:
                ps = (('op', Term('sorted', Term('seqkey', ps)), s2.nl(pslen(ps))),)
            out += stdlib.write_out(I, s2, vs[4], ps, s2.nl(pslen(ps)), node)
    return out


def canon_cnt(st, ps, p):
    """cnt(A, mem B) = cnt(B, mem A) for sets: one canonical form"""
    if p.op == 'mem' and p.args[1] is GEN and len(ps) == 1:
        b = p.args[0].args[0]
        if len(b) == 1 and distinct(st, ps) and distinct(st, b):
            ka, kb = Term('seqkey', ps), p.args[0]
            if kb.id < ka.id:
                return simp(st, b), Term('mem', ka, GEN)
    return ps, p


def canon(I, st, ps, kind):
    """order-insensitive normal form of the pieces of a set"""
    out = []
    for p in unwrap(st, ps):
        if vacuous(st, p):
            continue
        if p[0] == 'op' and p[1].op == 'filter' and kind == 'set':
            src = p[1].args[0].args[0]
            q, pr = canon_cnt(st, src, p[1].args[1])
            if pr is not p[1].args[1]:
                p = ('op', Term('filter', Term('seqkey', q), pr), p[2])
        out.append(p)
    # A u (B - A) = B u (A - B)
    if kind == 'set' and len(out) == 2:
        for x, y in (out, out[::-1]):
            if y[0] == 'op' and y[1].op == 'filter' and y[1].args[1].op == 'not' and y[1].args[1].args[0].op == 'mem':
                m = y[1].args[1].args[0]
                if m.args[0].args[0] == (x,) and m.args[1] is GEN:
                    src = y[1].args[0].args[0]
                    if len(src) == 1 and distinct(st, src) and distinct(st, (x,)):
                        ka, kb = Term('seqkey', (x,)), y[1].args[0]
                        if kb.id < ka.id:
                            r = stdlib.filtered(I, st, (x,), Term('not', Term('mem', kb, GEN)))
                            out = [src[0]] + list(r)
                        break
    out = list(simp(st, out))
    out.sort(key=lambda p: (p[0] != 'sl', repr(p)))
    return simp(st, out)


def set_cmp(I, st, p1, p2, kind):
    a, b = canon(I, st, p1, kind), canon(I, st, p2, kind)
    return seq_cmp(st, a, b)


def eq_terms(st, a, b):
    return None
