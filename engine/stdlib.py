"""Abstract semantics of the standard-library operations the analysed code may use."""
import math
from .dom import *
from .interp import i2d, fl_op, seq_kind, CHAR, int_range

NPOS = 2**64 - 1
VEC_MAX = {'vector': 2**63 - 1, 'deque': 2**63 - 1, 'string': 2**62}
GEN = Term('sym', '$x')         # placeholder element of predicate terms
GENY = Term('sym', '$y')


def vals(I, st, args, node):
    return I.rvs(st, args, node)


# ---------------------------------------------------------------- element predicates as canonical terms

def cond_term(c):
    """canonical term of a condition (used as key of predicates)"""
    if isinstance(c, bool):
        return Term('const', int(c))
    if c[0] == 'atom':
        return c[1]
    if c[0] == 'not':
        return Term('not', cond_term(c[1]))
    if c[0] in ('and', 'or'):
        fl = []

        def go(x):
            if isinstance(x, tuple) and x[0] == c[0]:
                go(x[1])
                go(x[2])
            else:
                fl.append(cond_term(x))
        go(c)
        return Term(c[0], *sorted(set(fl), key=lambda t: t.id))
    return Term(c[0], c[1])


def gen_elem(I, et):
    """the generic element $x of a sequence"""
    if et and et.get('int'):
        return L(GEN)
    if et and et.get('mk'):
        return et['mk'](GEN)
    return El(GEN)


def pred_term(I, st, fn, seq, node):
    """canonical predicate of a callable on the elements of seq; callable must be pure and deterministic"""
    s0 = st.copy()
    x = gen_elem(I, seq.et)
    if seq.et and seq.et.get('int') and 'lo' in seq.et:
        s0.add_ge(L(GEN) - seq.et['lo'])
        s0.add_ge(L(seq.et['hi']) - L(GEN))
    a = s0.alloc(x, 'gen')
    keep = dict(s0.store)
    nth = len(I.throws[-1]) if I.throws else 0
    nub = len(I.ubs)
    res = []
    for s, v in I.call_closure(s0, fn, [a], node):
        for s2, w in I.rv(s, v, node):
            res.append((s2, w))
    if (I.throws and len(I.throws[-1]) != nth) or len(I.ubs) != nub:
        I.giveup('predicate with side exits', node)
    for s, v in res:
        for r, old in keep.items():
            if s.store.get(r) != old:
                I.giveup('predicate with side effects', node)
    return canon_pred(cases_to_pred(I, st, res, node), seq)


def reads_range(I, st, fn, seq, addr, node):
    """does the predicate read an element of the sequence at addr through a reference it captured?"""
    s0 = st.copy()
    a = s0.alloc(gen_elem(I, seq.et), 'gen')
    cur = s0.ver.get(addr, 0)
    s0.ver[addr] = (cur[0] if isinstance(cur, tuple) else cur) + 1
    nub = len(I.ubs)
    nth = len(I.throws[-1]) if I.throws else 0
    try:
        for s, v in I.call_closure(s0, fn, [a], node):
            I.rv(s, v, node)
        return len(I.ubs) > nub
    except Giveup:
        return False
    finally:
        del I.ubs[nub:]
        if I.throws:
            del I.throws[-1][nth:]


class NeedFork(Giveup):
    """the predicate depends on a condition that is the same for every element: decide that first"""

    def __init__(self, cond, why):
        Giveup.__init__(self, why)
        self.cond = cond


def split_calls(h, I, st, f, args, node, depth):
    keep = st.copy() if depth < 4 else None
    nth = len(I.throws[-1]) if I.throws else 0
    nub = len(I.ubs)
    try:
        return h(I, st, f, args, node)
    except NeedFork as e:
        if keep is None:
            raise
        del I.ubs[nub:]
        if I.throws:
            del I.throws[-1][nth:]
        out = []
        for lst in keep.fork(e.cond):
            for s in lst:
                if not s.empty():
                    out += split_calls(h, I, s, f, args, node, depth + 1)
        return out


def common_choice(I, st, res, node):
    """cases told apart by a condition that does not mention the element"""
    free_of = lambda l: not occurs(GEN, l) and not occurs(GENY, l)
    for s, v in res:
        new = [c_ge(l) for l in s.cons if free_of(l) and not st.entails_ge(l)]
        for k, v2 in s.sub.items():
            if k not in st.sub:
                l = L(k) - v2
                if free_of(l) and not st.entails_eq(l):
                    new.append(c_eq(l))
        for c in new:
            for s2, _ in res:
                if s2 is not s and s2.decide(c) is False:
                    raise NeedFork(c, 'predicate depends on a condition outside the element')
        for a, b in s.atoms.items():
            if st.atoms.get(a) != b and free_of(L(a)) and any(s2.atoms.get(a) == (not b) for s2, _ in res):
                raise NeedFork(('atom', a), 'predicate depends on a condition outside the element')


def cases_to_pred(I, st, res, node):
    if len(res) == 1:
        s, v = res[0]
        c = I.to_cond(v, node)
        if isinstance(c, Unknown):
            I.giveup('unknown predicate', node)
        return st.norm(cond_term(c))
    common_choice(I, st, res, node)
    terms = []
    base_c = set(st.cons)
    for s, v in res:
        c = I.to_cond(v, node)
        if c is False:
            continue
        conj = []
        for a, b in s.atoms.items():
            if st.atoms.get(a) != b:
                conj.append(('atom', a) if b else ('not', ('atom', a)))
        for l in s.cons:
            if l not in base_c and (occurs(GEN, l) or occurs(GENY, l)) and not pos_fact(l):
                conj.append(('ge', l))
        if s.sub != st.sub:
            for k, v2 in s.sub.items():
                if k not in st.sub and (occurs(GEN, L(k) - v2) or occurs(GENY, L(k) - v2)):
                    conj.append(('eq', L(k) - v2))
        cc = c_and(*conj) if conj else True
        if c is not True:
            cc = c_and(cc, c)
        terms.append(cond_term(cc))
    if not terms:
        return Term('const', 0)
    if len(terms) == 1:
        return st.norm(terms[0])
    return st.norm(Term('or', *sorted(set(terms), key=lambda t: t.id)))


def pos_fact(l):
    """0 <= mempos(S, x) < |S|: implied by the membership atom"""
    ts = [(k, v) for k, v in l.t if k.op in ('mempos', 'kmempos')]
    if len(ts) != 1:
        return False
    k, v = ts[0]
    if v == 1:
        return l == L(k)
    return v == -1 and l == pslen(k.args[0].args[0]) - 1 - L(k)


def eq_pred(I, st, v, seq):
    x = gen_elem(I, seq.et)
    c = I.eq_values(st, x, v, None)
    return canon_pred(st.norm(cond_term(c)), seq)


def pred_at(p, t):
    """instantiate predicate term at element term/Lin t"""
    return subst_any(p, {GEN: t})


def term_cond(p):
    """condition of an instantiated predicate term"""
    if isinstance(p, Lin):
        raise Giveup('predicate')
    if p.op == 'const':
        return bool(p.args[0])
    if p.op == 'not':
        return c_not(term_cond(p.args[0]))
    if p.op == 'and':
        return c_and(*[term_cond(a) for a in p.args])
    if p.op == 'or':
        return c_or(*[term_cond(a) for a in p.args])
    if p.op == 'ge':
        return c_ge(p.args[0])
    if p.op == 'eq':
        return c_eq(p.args[0])
    return ('atom', p)


def neg_pred(p):
    if p.op == 'not':
        return p.args[0]
    if p.op == 'const':
        return Term('const', 1 - p.args[0])
    if p.op == 'cset':
        return cset(FULL & ~p.args[1])
    return Term('not', p)


def seqkey(st, ps):
    return Term('seqkey', simp(st, ps))


def findpos(I, st, ps, p, seq=None):
    """(state, position term) of the first element of ps satisfying p; len(ps) when there is none"""
    ps = simp(st, ps)
    n = st.nl(pslen(ps))
    if n.is_const() and n.c == 0:
        return ZERO
    if p.op == 'const':
        return ZERO if p.args[0] else n
    ps = widest(st, ps, p)
    f = L(Term('findpos', Term('seqkey', ps), p))
    st.add_ge(f)
    st.add_ge(n - f)
    return st.nl(f)


def widest(st, ps, p):
    """a search that is certain to stop inside its range finds the same element in any longer range"""
    if len(ps) != 1 or ps[0][0] not in ('sl', 'rv'):
        return ps
    k, b, lo, hi = ps[0]
    if st.decide(c_ge(hi - lo - 1)) is not True:
        return ps
    mark = lo if k == 'rv' else hi      # the far end of the range
    for t in {t for t, _ in L(mark).t if t.op == 'findpos' and t.args[1] is p}:
        q = t.args[0].args[0]
        if len(q) != 1 or q[0][0] not in ('sl', 'rv') or q[0][1] is not b:
            continue
        if k == 'rv' and q[0][0] == 'sl' and st.nl(lo - q[0][2] - L(t)) == ZERO and st.entails_ge(q[0][3] - hi):
            return (('rv', b, q[0][2], hi),)
        if k == 'sl' and q[0][0] == 'rv' and st.nl(q[0][3] - L(t) - hi) == ZERO and st.entails_ge(lo - q[0][2]):
            return (('sl', b, lo, q[0][3]),)
    return ps


def cnt(I, st, ps, p):
    ps = simp(st, ps)
    n = st.nl(pslen(ps))
    if n.is_const() and n.c == 0:
        return ZERO
    if p.op == 'const':
        return n if p.args[0] else ZERO
    if p.op == 'not':
        return n - cnt(I, st, ps, p.args[0])
    if p.op == 'mem':
        from . import sets
        q, p2 = sets.canon_cnt(st, ps, p)
        if p2 is not p:
            st.add_ge(n - L(Term('cnt', Term('seqkey', q), p2)))
            return cnt(I, st, q, p2)
    c = L(Term('cnt', Term('seqkey', ps), p))
    st.add_ge(c)
    st.add_ge(n - c)
    return st.nl(c)


def filtered(I, st, ps, p):
    """pieces of the elements satisfying p"""
    ps = simp(st, ps)
    if p.op == 'const':
        return ps if p.args[0] else ()
    n = cnt(I, st, ps, p)
    if n.is_const() and n.c == 0:
        return ()
    return (('op', Term('filter', Term('seqkey', ps), p), n),)


# ---------------------------------------------------------------- character predicates and tables (all 256 values)

def _val(l, v):
    r = subst_lin(l, {GEN: Lin(v)})
    return r.c if r.is_const() else None


def guard_val(g, v):
    """truth of a guard about $x at character value v; None when it depends on something else"""
    if isinstance(g, bool):
        return g
    if g[0] == 'not':
        r = guard_val(g[1], v)
        return None if r is None else not r
    if g[0] in ('and', 'or'):
        a, b = guard_val(g[1], v), guard_val(g[2], v)
        if a is None or b is None:
            return None
        return (a and b) if g[0] == 'and' else (a or b)
    if g[0] == 'atom':
        t = g[1]
        if t.op == 'cset':
            x = _val(L(t.args[0]), v)
            return None if x is None else bool(t.args[1] >> (x & 255) & 1)
        return None
    x = _val(g[1], v)
    if x is None:
        return None
    return x >= 0 if g[0] == 'ge' else x == 0


def mask_of(lists):
    """bit mask of the characters satisfying a disjunction of conjunctions"""
    m = 0
    for v in range(-128, 128):
        hit = False
        for gs in lists:
            ok = True
            for g in gs:
                r = guard_val(g, v)
                if r is None:
                    return None
                if not r:
                    ok = False
                    break
            if ok:
                hit = True
                break
        if hit:
            m |= 1 << (v & 255)
    return m


FULL = (1 << 256) - 1


def cset(m):
    if m == 0:
        return Term('const', 0)
    if m == FULL:
        return Term('const', 1)
    return Term('cset', L(GEN), m)


def table_of(rows):
    """256-entry table of a function given as guarded rows"""
    tab = []
    for v in range(-128, 128):
        val = None
        for gs, l in rows:
            ok = True
            for g in gs:
                r = guard_val(g, v)
                if r is None:
                    return None
                if not r:
                    ok = False
                    break
            if ok:
                val = _val(l, v)
                break
        if val is None:
            return None
        tab.append(val)
    return tuple(tab)


def ctab(tab):
    if tab == tuple(range(-128, 128)):
        return Term('identity')
    return Term('ctab', tab)


def canon_pred(p, seq):
    """integer (character) predicates without free symbols become 256-bit masks"""
    et = seq.et if isinstance(seq, Seq) else seq
    if et and et.get('int') and et.get('lo') == -128 and p.op not in ('cset', 'const'):
        try:
            m = mask_of([[term_cond(p)]])
        except Giveup:
            m = None
        if m is not None:
            return cset(m)
    return p


# ---------------------------------------------------------------- ranges

def as_iter(I, st, v, node):
    """list of (state, iterator value)"""
    out = []
    for s, x in I.rv(st, v, node):
        if isinstance(x, Obj) and x.tag == 'ptr':
            a = x.a[0]
            if a.path and a.path[-1][0] == 'e':
                x = Iter(Addr(a.root, a.path[:-1]), a.path[-1][1], ptr=True)
        out.append((s, x))
    return out


def check_gen(I, st, it, node):
    if it.gen is None:
        return True
    return I.gen_ok(st, it.addr.el(ZERO, it.gen), node)


def rng(I, st, first, last, node):
    """list of (state, Seq, lo, hi, rev): a valid range of a sequence, UB reported otherwise"""
    out = []
    if not (isinstance(first, Iter) and isinstance(last, Iter)):
        I.giveup('range of %r' % (first,), node)
    if first.addr != last.addr or first.rev != last.rev:
        pe = ptr_same(st, first, last)
        if pe is not True:
            I.ub(st, 'range ends belong to different sequences', node)
            return []
    if not check_gen(I, st, first, node) or not check_gen(I, st, last, node):
        return []
    for s, c in I.read(st, first.addr, node):
        if not isinstance(c, Seq):
            I.giveup('range in %r' % (c,), node)
        lo, hi = (last.pos, first.pos) if first.rev else (first.pos, last.pos)
        n = slen(c)
        g, b = s.fork(c_and(c_ge(lo), c_ge(n - hi), c_ge(hi - lo)))
        for x in b:
            if x.decide(c_eq(hi - lo)) is True:
                # empty range built from out-of-range positions still forms invalid iterators
                pass
            I.ub(x, 'range outside the sequence', node)
        for x in g:
            out.append((x, c, x.nl(lo), x.nl(hi), first.rev))
    return out


def ptr_same(st, a, b):
    if a.addr == b.addr and a.rev == b.rev:
        return True
    if a.addr.root == b.addr.root and len(a.addr.path) == len(b.addr.path):
        from .interp import ptr_eq
        c = ptr_eq(st, a.addr, b.addr)
        return st.decide(c)
    return False


def rng_pieces(I, st, first, last, node):
    """list of (state, pieces, et): the elements of a range in iteration order"""
    out = []
    if isinstance(first, Obj) and first.tag == 'mvit':
        for s, ps, et in rng_pieces(I, st, first.a[0], last.a[0], node):
            for s2, c, lo, hi, rev in rng(I, s, first.a[0], last.a[0], node):
                out += [(s3, ps, et) for s3 in set_range(I, s2, first.a[0].addr, lo, hi, moved_pieces(s2, seq_sub1(s2, c.p, lo, hi)), node)]
        return out
    for s, c, lo, hi, rev in rng(I, st, first, last, node):
        for s2, ps in seq_sub(s, c.p, lo, hi):
            out.append((s2, rev_pieces(ps) if rev else ps, c.et))
    return out


def seq_sub1(st, ps, lo, hi):
    r = seq_sub(st, ps, lo, hi)
    if len(r) != 1:
        raise Giveup('ambiguous range')
    return r[0][1]


def moved_pieces(st, ps):
    ps = simp(st, ps)
    n = st.nl(pslen(ps))
    if n.is_const() and n.c == 0:
        return ()
    return (('op', Term('movedseq', Term('seqkey', ps)), n),)


def set_range(I, st, addr, lo, hi, new, node):
    """replace [lo,hi) of the sequence at addr.  list of states"""
    out = []
    for s, c in I.read(st, addr, node):
        for s2, a, b in split(s, c.p, lo):
            for s3, m, d in split(s2, b, s2.nl(L(hi) - L(lo))):
                nv = c.with_p(simp(s3, a + tuple(new) + d))
                out += I.write(s3, addr, nv, node)
    return out


def grow_event(I, st, addr, seqv, newlen=None):
    """iterators and element references of the sequence are no longer valid (unless its known capacity suffices)"""
    cur = st.ver.get(addr, 0)
    soft = False
    if isinstance(cur, tuple):
        cur, soft = cur
    soft = soft or seqv.kind != 'vector'
    cap = st.cap.pop(addr, None)
    if newlen is not None and cap is not None:
        fits = st.decide(c_ge(cap - newlen))
        if fits is True:
            st.cap[addr] = cap
            return
        if fits is None:
            soft = True
    st.ver[addr] = (cur + 1, True) if soft else cur + 1


def capacity(st, addr, n):
    if addr not in st.cap:
        cap = L(fresh('cap'))
        st.add_ge(cap - n)
        st.add_ge(Lin(2**62) - cap)
        st.cap[addr] = cap
    return st.cap[addr]


def gen_of(st, addr):
    g = st.ver.get(addr, 0)
    return g[0] if isinstance(g, tuple) else g


def mkit(st, addr, pos, rev=False, const=False, ptr=False):
    return Iter(addr, pos, rev, const, ptr, gen_of(st, addr))


# ---------------------------------------------------------------- strings

def cstr_pieces(I, st, v, node):
    """list of (state, pieces) of the characters up to the terminating NUL of a char pointer / string / view / char"""
    out = []
    for s, x in I.rv(st, v, node):
        if isinstance(x, Seq):
            if x.kind == 'cstr' or x.kind == 'array':
                x = Iter(I.addr(s, x), ZERO, ptr=True)
            else:
                out.append((s, x.p))
                continue
        if isinstance(x, Lin):
            out.append((s, (('one', x),)))
            continue
        if isinstance(x, Obj) and x.tag == 'ptr':
            x = as_iter(I, s, x, node)[0][1]
        if isinstance(x, Obj) and x.tag == 'null':
            I.ub(s, 'null character pointer', node)
            continue
        if isinstance(x, Unknown):
            I.giveup('unknown string', node)
        if not isinstance(x, Iter):
            I.giveup('string from %r' % (x,), node)
        if not check_gen(I, s, x, node):
            continue
        for s1, c in I.read(s, x.addr, node):
            n = slen(c)
            g, b = s1.fork(c_and(c_ge(x.pos), c_ge(n - x.pos)))
            for y in b:
                I.ub(y, 'character pointer outside the string', node)
            for y in g:
                for y2, l, r in split(y, c.p, x.pos):
                    r = simp(y2, r)
                    if c.kind in ('cstr', 'array'):
                        # up to the first literal NUL
                        acc = []
                        done = False
                        for p in r:
                            if p[0] == 'one' and y2.decide(c_eq(p[1])) is True:
                                done = True
                                break
                            acc.append(p)
                        if not done:
                            I.giveup('unterminated character array', node)
                        out.append((y2, tuple(acc)))
                    elif const_text(y2, r) is not None:
                        out.append((y2, tuple(r[:len(const_text(y2, r).split('\0')[0])])))
                    else:
                        k = seqkey(y2, r)
                        if c.kind == 'cstrz' or not r or all(p[0] == 'one' and y2.decide(c_eq(p[1])) is False for p in r):
                            out.append((y2, r))
                            continue
                        t, f = y2.fork(('atom', Term('hasnul', k)))
                        for z in f:
                            out.append((z, r))
                        for z in t:
                            m = L(Term('cstrlen', k))
                            z.add_ge(m)
                            z.add_ge(z.nl(pslen(r)) - 1 - m)
                            for z2, h, _ in split(z, r, m):
                                out.append((z2, h))
    return out


def const_text(st, ps):
    out = []
    for p in ps:
        if p[0] != 'one' or not isinstance(p[1], Lin):
            return None
        v = st.nl(p[1])
        if not v.is_const():
            return None
        out.append(v.c & 255)
    return bytes(out).decode('latin1')


def new_string(ps):
    return Seq(ps, 'string', CHAR)


def has_sub(st, hay, needle):
    return ('atom', Term('hassub', Term('seqkey', hay), Term('seqkey', needle)))


def strfind(I, st, hay, needle):
    """list of (state, position Lin or None) of the first occurrence of needle in hay"""
    hay, needle = simp(st, hay), simp(st, needle)
    h, d = const_text(st, hay), const_text(st, needle)
    if h is not None and d is not None:
        i = h.find(d)
        return [(st, L(i) if i >= 0 else None)]
    n, m = st.nl(pslen(hay)), st.nl(pslen(needle))
    out = []
    e, ne = st.fork(c_eq(m))
    for s in e:
        out.append((s, ZERO))
    for s in ne:
        hay2, needle2 = simp(s, hay), simp(s, needle)
        fits, no = s.fork(c_ge(n - m))
        for x in no:
            out.append((x, None))
        for x in fits:
            if simp(x, hay2) == simp(x, needle2):
                out.append((x, ZERO))
                continue
            t, f = x.fork(has_sub(x, hay2, needle2))
            for y in f:
                out.append((y, None))
            for y in t:
                p = L(Term('subpos', Term('seqkey', hay2), Term('seqkey', needle2)))
                y.add_ge(p)
                y.add_ge(n - m - p)
                out.append((y, y.nl(p)))
    return out


# ---------------------------------------------------------------- construction

def exc_text(I, st, v, node):
    r = cstr_pieces(I, st, v, node)
    if not r:
        return None
    return const_text(r[0][0], r[0][1])


def construct(I, st, f, args, ti, node):
    t = I.P.strip(ti)
    nm = t.get('name', '')
    if nm.startswith('std::') and nm.endswith('_error') or nm in ('std::exception', 'std::out_of_range', 'std::invalid_argument', 'std::logic_error', 'std::bad_alloc'):
        if f.get('copy') or f.get('move'):
            return I.rv(st, args[0], node)
        if not args:
            return [(st, Exc(nm, ''))]
        out = []
        for s, ps in cstr_pieces(I, st, args[0], node):
            tx = const_text(s, ps)
            out.append((s, Exc(nm, tx if tx is not None else '?')))
        return out
    kind = seq_kind(t)
    if kind in ('vector', 'deque', 'string', 'view', 'init'):
        return construct_seq(I, st, f, args, t, ti, kind, node)
    if nm in ('std::set', 'std::map'):
        from . import sets
        return sets.construct(I, st, f, args, t, ti, node)
    if nm == 'std::pair':
        if f.get('copy') or f.get('move') or len(args) == 1:
            out = []
            for s, v in I.rv(st, args[0], node):
                if f.get('move') and isinstance(args[0], Addr):
                    for s2 in I.write(s, args[0], I.moved_from(v), node):
                        out.append((s2, v))
                else:
                    out.append((s, v))
            return out
        if not args:
            return [(st, I.default_value(ti, node, True))] if False else [(st, Struct('std::pair', {'first': I.default_value(t['args'][0], node, True), 'second': I.default_value(t['args'][1], node, True)}))]
        out = []
        for s, vs in vals(I, st, args, node):
            if len(vs) != 2:
                I.giveup('pair constructor', node)
            # moved arguments
            ss = [s]
            for a, p in zip(args, f.get('ptypes', [])):
                if I.T(p)['k'] == 'rref' and isinstance(a, Addr):
                    nxt = []
                    for x in ss:
                        for x2, v in I.read(x, a, node):
                            nxt += I.write(x2, a, I.moved_from(v), node)
                    ss = nxt
            for x in ss:
                out.append((x, Struct('std::pair', {'first': vs[0], 'second': vs[1]})))
        return out
    if nm.startswith('vt::') or (I.P.rec(ti) is None and not nm.startswith(('std::', '__gnu_cxx::'))):
        if f.get('copy') or f.get('move'):
            out = []
            for s, v in I.rv(st, args[0], node):
                if f.get('move') and isinstance(args[0], Addr):
                    for s2 in I.write(s, args[0], I.moved_from(v), node):
                        out.append((s2, v))
                else:
                    out.append((s, v))
            return out
        if not args:
            return [(st, El(Term('default', t['s'])))]
        I.giveup('constructor of ' + t['s'], node)
    if nm in ('std::basic_ostringstream', 'std::basic_stringstream'):
        return [(st, OStream())] if not args else I.giveup('stream constructor', node)
    # iterators: copies and conversions
    if 'iterator' in nm:
        if nm == 'std::reverse_iterator' and not (f.get('copy') or f.get('move')) and args:
            out = []
            for s, v in I.rv(st, args[0], node):
                if isinstance(v, Iter):
                    out.append((s, v if v.rev else Iter(v.addr, v.pos, True, v.const, v.ptr, v.gen)))
                else:
                    I.giveup('reverse iterator', node)
            return out
        if nm == 'std::ostream_iterator':
            if f.get('copy') or f.get('move'):
                return I.rv(st, args[0], node)
            sep = [(st, ())]
            if len(args) > 1:
                sep = cstr_pieces(I, st, args[1], node)
            return [(s, Obj('osit', I.addr(s, args[0]), ps)) for s, ps in sep]
        if nm in ('std::istreambuf_iterator', 'std::istream_iterator', 'std::ostreambuf_iterator'):
            I.giveup('stream iterator', node)
        if args:
            return I.rv(st, args[0], node)
        return [(st, Obj('std', t['s']))]
    if f.get('copy') or f.get('move'):
        return I.rv(st, args[0], node)
    if nm in ('std::less', 'std::greater', 'std::equal_to', 'std::hash', 'std::allocator', 'std::plus', 'std::multiplies', 'std::identity'):
        return [(st, Obj('std', nm))]
    if nm in ('std::random_device', 'std::mersenne_twister_engine', 'std::linear_congruential_engine', 'std::uniform_int_distribution'):
        out = []
        for s, vs in vals(I, st, args, node):
            out.append((s, Obj('rnd', nm, tuple(vs), tuple(t.get('args', ())))))
        return out
    if nm.startswith('std::__cmp_cat'):
        return [(st, ZERO)]
    if nm in ('std::locale', 'std::basic_istream::sentry'):
        I.giveup('constructor of ' + t['s'], node)
    if nm == 'std::optional' or nm == 'std::unique_ptr' or nm == 'std::function':
        I.giveup('constructor of ' + t['s'], node)
    if not args:
        return [(st, Obj('std', t['s']))]
    I.giveup('constructor of ' + t['s'], node)


def alloc_check(I, st, n, kind, node):
    """states in which a sequence of n elements can be requested; negative/huge sizes throw length_error"""
    g, b = st.fork(c_and(c_ge(n), c_ge(L(VEC_MAX.get(kind, 2**62)) - n)))
    for x in b:
        I.do_throw(x, Exc('std::length_error', ''), node)
    return g


def construct_seq(I, st, f, args, t, ti, kind, node):
    et = I.elem_desc(t['args'][0])
    if kind == 'string' or kind == 'view':
        et = CHAR
    mk = lambda ps: Seq(ps, kind, et)
    # drop allocator / defaulted arguments
    args = [a for a in args if not (isinstance(a, Obj) and a.tag == 'std' and ('allocator' in str(a.a[0])))]
    args2 = []
    for a in args:
        if isinstance(a, Addr) and not a.path and isinstance(st.store.get(a.root), Obj) and st.store[a.root].tag == 'std' and 'allocator' in str(st.store[a.root].a[0]):
            continue
        args2.append(a)
    args = args2
    if not args:
        return [(st, mk(()))]
    if f.get('copy') or f.get('move'):
        out = []
        for s, v in I.rv(st, args[0], node):
            if isinstance(v, Unknown):
                I.giveup('unknown sequence', node)
            v2 = Seq(v.p, kind, v.et or et)
            if f.get('move') and isinstance(args[0], Addr) and kind in ('vector', 'deque', 'string'):
                for s2 in I.write(s, args[0], I.moved_from(v), node):
                    out.append((s2, v2))
            else:
                out.append((s, v2))
        return out
    pk = [I.T(p) for p in f.get('ptypes', [])]
    if len(args) == 1:
        out = []
        for s, v in I.rv(st, args[0], node):
            if isinstance(v, Lin) and kind in ('vector', 'deque'):
                for s2 in alloc_check(I, s, s.nl(v), kind, node):
                    out.append((s2, mk((('fill', default_elem(I, t['args'][0], node), v),))))
            elif isinstance(v, Seq) and v.kind in ('init', 'vector', 'deque', 'string', 'view', 'array') and not (v.kind == 'array' and kind in ('string', 'view')):
                out.append((s, mk(v.p)))
            elif kind in ('string', 'view'):
                for s2, ps in cstr_pieces(I, s, v, node):
                    out.append((s2, mk(ps)))
            else:
                I.giveup('constructor of ' + t['s'], node)
        return out
    out = []
    for s, vs in vals(I, st, args, node):
        a, b = vs[0], vs[1]
        if isinstance(a, (Iter,)) and isinstance(b, Iter):
            for s2, ps, et2 in rng_pieces(I, s, a, b, node):
                out.append((s2, mk(ps)))
        elif isinstance(a, Obj) and isinstance(b, Obj) and a.tag in ('sit', 'mit', 'mvit'):
            for s2, ps, et2 in rng_pieces(I, s, a, b, node):
                out.append((s2, mk(ps)))
        elif isinstance(a, Lin) and (isinstance(b, (El, Lin, Struct, Seq)) or is_cond(b)):
            if is_cond(b):
                I.giveup('fill with condition', node)
            for s2 in alloc_check(I, s, s.nl(a), kind, node):
                out.append((s2, mk((('fill', b, s2.nl(a)),))))
        elif isinstance(a, Iter) and isinstance(b, Lin) and kind in ('string', 'view'):
            # (pointer, count)
            for s2, c in I.read(s, a.addr, node):
                n = slen(c)
                g, bad = s2.fork(c_and(c_ge(a.pos), c_ge(b), c_ge(n - a.pos - b)))
                for x in bad:
                    I.ub(x, 'character range outside the string', node)
                for x in g:
                    for x2, ps in seq_sub(x, c.p, a.pos, x.nl(a.pos + b)):
                        out.append((x2, mk(ps)))
        elif isinstance(a, Seq) and isinstance(b, Lin) and kind in ('string', 'view'):
            cnt_ = vs[2] if len(vs) > 2 else Lin(NPOS)
            out += substr(I, s, a, b, cnt_, kind, node)
        else:
            I.giveup('constructor of %s from %r' % (t['s'], vs), node)
    return out


def default_elem(I, ti, node):
    t = I.P.strip(ti)
    if t['k'] in ('int', 'enum'):
        return ZERO
    if t['k'] == 'rec' and I.P.rec(ti) is None and t['name'].startswith('vt::'):
        return El(Term('default', t['s']))
    return I.default_value(ti, node, True)


def substr(I, st, sq, pos, n, kind, node):
    out = []
    ln = slen(sq)
    g, b = st.fork(c_and(c_ge(pos), c_ge(ln - pos)))
    for x in b:
        I.do_throw(x, Exc('std::out_of_range', 'substr'), node)
    for x in g:
        pos2 = x.nl(pos)
        t, f = x.fork(c_ge(L(n) - (ln - pos2)))
        for y in t:
            for y2, ps in seq_sub(y, sq.p, pos2, ln):
                out.append((y2, Seq(ps, kind, CHAR)))
        for y in f:
            for y2, ps in seq_sub(y, sq.p, pos2, y.nl(pos2 + n)):
                out.append((y2, Seq(ps, kind, CHAR)))
    return out


# ---------------------------------------------------------------- calls

ITER_CLS = ('__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::reverse_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::move_iterator')


def call(I, st, f, obj, args, node):
    qn = f['qn']
    nm = f['name']
    cls = qn.rsplit('::', 1)[0]
    if f.get('method') and not f.get('static'):
        for s_c in (('std::vector', seq_method), ('std::deque', seq_method), ('std::basic_string', seq_method), ('std::__cxx11::basic_string', seq_method),
                    ('std::basic_string_view', seq_method), ('std::initializer_list', seq_method), ('std::array', seq_method)):
            if cls == s_c[0]:
                return s_c[1](I, st, f, obj, args, node)
        if cls in ('std::set', 'std::map'):
            from . import sets
            return sets.method(I, st, f, obj, args, node)
        if cls in ITER_CLS or 'iterator' in cls:
            return iter_method(I, st, f, obj, args, node)
        if cls == 'std::_Node_handle' or cls.startswith('std::_Node_handle') or cls.startswith('std::_Node_insert'):
            from . import sets
            return sets.node_method(I, st, f, obj, args, node)
        if cls.startswith('vt::'):
            return opaque_method(I, st, f, obj, args, node)
        if cls in ('std::basic_istream', 'std::basic_ios', 'std::ios_base', 'std::basic_istringstream', 'std::basic_stringstream'):
            from . import istreams
            if isinstance(obj, Addr) and isinstance(I.rv(st, obj, node)[0][1], istreams.IStream):
                return istreams.method(I, st, f, obj, args, node)
        if cls in ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ios', 'std::ios_base'):
            return ostream_method(I, st, f, obj, args, node)
        if cls in ('std::hash', 'std::__str_hash_base'):
            return hash_call(I, st, f, args, node)
        if cls == 'std::pair' or qn.startswith('std::pair'):
            return pair_method(I, st, f, obj, args, node)
        if cls in ('std::random_device', 'std::mersenne_twister_engine', 'std::uniform_int_distribution', 'std::linear_congruential_engine'):
            return random_call(I, st, f, obj, args, node)
        if cls in ('std::less', 'std::greater', 'std::equal_to', 'std::plus', 'std::minus', 'std::multiplies', 'std::not_equal_to', 'std::less_equal', 'std::greater_equal'):
            out = []
            for s, (a, b) in vals(I, st, args, node):
                op = {'less': '<', 'greater': '>', 'equal_to': '==', 'not_equal_to': '!=', 'less_equal': '<=', 'greater_equal': '>=', 'plus': '+', 'minus': '-', 'multiplies': '*'}[cls[5:]]
                if op in ('+', '-', '*'):
                    I.giveup('functor', node)
                out.append((s, I.compare(s, op, a, b, node)))
            return out
        I.giveup('library call ' + qn, node)
    h = FREE.get(qn)
    if h:
        return split_calls(h, I, st, f, args, node, 0)
    if nm.startswith('operator') and len(args) in (1, 2):
        r = free_operator(I, st, f, args, node)
        if r is not None:
            return r
    if qn.startswith('vt::'):
        return opaque_free(I, st, f, args, node)
    if qn == 'std::numeric_limits::max' or qn == 'std::numeric_limits::min' or qn == 'std::numeric_limits::lowest':
        t = I.T(f['ret'])
        if t['k'] in ('int', 'bool'):
            lo, hi = int_range(t)
            return [(st, Lin(hi if qn.endswith('max') else lo))]
    if qn == 'std::numeric_limits::epsilon':
        return [(st, Fl(2.0**-52))]
    if qn in ('std::numeric_limits::infinity', 'std::numeric_limits::quiet_NaN'):
        return [(st, Fl(math.inf if qn.endswith('infinity') else math.nan))]
    I.giveup('library call ' + qn, node)


def opaque_method(I, st, f, obj, args, node):
    nm = f['name']
    if f.get('copyassign') or f.get('moveassign') or nm == 'operator=':
        out = []
        for s, v in I.rv(st, args[0], node):
            if f.get('moveassign') and isinstance(args[0], Addr) and args[0] != obj:
                for s2 in I.write(s, args[0], I.moved_from(v), node):
                    for s3 in I.write(s2, obj, v, node):
                        out.append((s3, obj))
                continue
            for s2 in I.write(s, obj, v, node):
                out.append((s2, obj))
        return out
    if nm in ('operator==', 'operator<', 'operator<=>'):
        out = []
        for s, a in I.rv(st, obj, node):
            for s2, b in I.rv(s, args[0], node):
                out.append((s2, Obj('ord', a, b) if nm == 'operator<=>' else I.compare(s2, nm[8:], a, b, node)))
        return out
    if nm == 'operator()':
        # user-supplied callable: an uninterpreted, possibly mutating function of the element
        q = f['qn'].rsplit('::', 1)[0]
        if q == 'vt::Pred':
            return I.call_opaque(st, Struct('vt::Pred', {}), args, node)
        out = []
        for s, c in I.rv(st, obj, node):
            out += act_call(I, s, c, args, node)
        return out
    if nm.startswith('~'):
        return [(st, VOID)]
    I.giveup('call ' + f['qn'], node)


def act_call(I, st, c, args, node):
    a = args[0]
    out = []
    for s, v in I.rv(st, a, node):
        if not isinstance(a, Addr) or not isinstance(v, El):
            I.giveup('action', node)
        for s2 in I.write(s, a, El(Term('act', v.t)), node):
            out.append((s2, VOID))
    return out


def opaque_free(I, st, f, args, node):
    if f['qn'] in ('vt::operator==', 'vt::operator<', 'vt::operator<=>'):
        out = []
        for s, (a, b) in vals(I, st, args, node):
            out.append((s, Obj('ord', a, b) if f['name'] == 'operator<=>' else I.compare(s, f['name'][8:], a, b, node)))
        return out
    if f['qn'] == 'vt::operator<<':
        return emit(I, st, args[0], args[1], node)
    I.giveup('call ' + f['qn'], node)


def pair_method(I, st, f, obj, args, node):
    if f['name'] == 'operator=':
        out = []
        for s, v in I.rv(st, args[0], node):
            for s2 in I.write(s, obj, v, node):
                out.append((s2, obj))
        return out
    I.giveup('pair ' + f['name'], node)


def hash_call(I, st, f, args, node):
    out = []
    for s, v in I.rv(st, args[-1], node):
        if isinstance(v, Seq):
            key = seqkey(s, v.p)
        elif isinstance(v, (Lin,)):
            key = Term('val', s.nl(v))
        elif isinstance(v, Fl):
            key = Term('val', v.t if isinstance(v.t, Term) else Term('fl', repr(v.t)))
        else:
            I.giveup('hash of %r' % (v,), node)
        t = L(Term('hash', I.T(f['cls'])['s'] if 'cls' in f and 'str_hash' not in f['qn'] else 'string', key))
        s.add_ge(t)
        s.add_ge(L(2**64 - 1) - t)
        out.append((s, t))
    return out


def random_call(I, st, f, obj, args, node):
    cls = f['qn'].rsplit('::', 1)[0]
    if f['name'] != 'operator()':
        I.giveup('random ' + f['name'], node)
    if I.random is not None:
        return I.random(I, st, f, obj, args, node)
    r = fresh('rnd')
    t = L(r)
    if cls == 'std::uniform_int_distribution':
        out = []
        for s, d in I.rv(st, obj, node):
            lo, hi = (d.a[1] + (ZERO, Lin(INT_MAX)))[:2] if len(d.a[1]) == 2 else (ZERO, Lin(INT_MAX))
            g, b = s.fork(c_ge(hi - lo))
            for x in b:
                I.ub(x, 'empty random range', node)
            for x in g:
                x.add_ge(t - lo)
                x.add_ge(L(hi) - t)
                x.ev = x.ev + (('random', I.loc(node), repr(lo), repr(hi)),)
                out.append((x, t))
        return out
    st.add_ge(t)
    st.add_ge(L(2**32 - 1) - t)
    return [(st, t)]


def gen_deref(I, st, v, node):
    I.giveup('dereference', node)


# ---------------------------------------------------------------- iterators

def iter_binop(I, st, op, a, b, node):
    """value of iterator expression"""
    if op in ('==', '!=', '<', '>', '<=', '>='):
        if isinstance(a, Iter) and isinstance(b, Iter) and a.addr != b.addr:
            if a.rev == b.rev and ptr_same(st, a, b) is True:
                b = Iter(a.addr, b.pos, b.rev, b.const, b.ptr, b.gen)
            else:
                I.giveup('comparison of iterators of different sequences', node)
        return [(st, I.compare(st, op, a, b, node))]
    return I.binop(st, op, a, b, dict(node, t=node.get('t', -1)) if isinstance(node, dict) else {'l': 0, 't': -1})


def iter_method(I, st, f, obj, args, node):
    nm = f['name']
    out = []
    cls = f['qn'].rsplit('::', 1)[0]
    if nm == 'operator=':
        if isinstance(obj, Addr):
            for s, cur in I.read(st, obj, node):
                if isinstance(cur, Obj) and cur.tag == 'inserter_t':
                    I.giveup('assignment through inserter', node)
        for s, v in I.rv(st, args[0], node):
            for s2 in I.write(s, obj, v, node):
                out.append((s2, obj))
        return out
    for s, v in I.rv(st, obj, node):
        if isinstance(v, Unknown):
            I.giveup('unknown iterator', node)
        if isinstance(v, Obj) and v.tag in ('osit', 'inserter', 'backins'):
            I.giveup('manual output iterator', node)
        if not isinstance(v, Iter):
            I.giveup('iterator method on %r' % (v,), node)
        if nm in ('operator++', 'operator--', 'operator[]', 'operator+', 'operator-', 'operator+=', 'operator-='):
            from . import sets
            sets.check_order(I, s, v, node)
        if nm in ('operator++', 'operator--'):
            nv = v.moved(1 if nm == 'operator++' else -1)
            for s2 in I.write(s, obj, nv, node):
                out.append((s2, v if args else obj))
        elif nm == 'operator*':
            out += I.deref(s, v, node)
        elif nm == 'operator->':
            for s2, a in I.deref(s, v, node):
                out.append((s2, Obj('ptr', a)))
        elif nm == 'operator[]':
            for s2, k in I.rv(s, args[0], node):
                out += I.deref(s2, v.moved(k), node)
        elif nm in ('operator+', 'operator-') and args:
            for s2, k in I.rv(s, args[0], node):
                if isinstance(k, Iter):
                    out += I.binop(s2, '-', v, k, {'l': node.get('l'), 't': -1})
                else:
                    out.append((s2, v.moved(k if nm == 'operator+' else -k)))
        elif nm in ('operator+=', 'operator-='):
            for s2, k in I.rv(s, args[0], node):
                nv = v.moved(k if nm == 'operator+=' else -k)
                for s3 in I.write(s2, obj, nv, node):
                    out.append((s3, obj))
        elif nm == 'base':
            if v.rev:
                out.append((s, Iter(v.addr, v.pos, False, v.const, v.ptr, v.gen)))
            else:
                # __normal_iterator::base
                out.append((s, v))
        elif nm in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            for s2, w in I.rv(s, args[0], node):
                out += iter_binop(I, s2, nm[8:], v, w, node)
        else:
            I.giveup('iterator ' + nm, node)
    return out


def free_operator(I, st, f, args, node):
    nm = f['name']
    op = nm[8:]
    qn = f['qn']
    # streams
    if op == '<<' and len(args) == 2:
        for s, v in I.rv(st, args[0], node)[:1]:
            if isinstance(v, OStream):
                return emit(I, st, args[0], args[1], node)
    if op == '>>' and len(args) == 2 and isinstance(args[0], Addr):
        from . import istreams
        if isinstance(I.rv(st, args[0], node)[0][1], istreams.IStream):
            return istreams.extract(I, st, args, node)
    if len(args) == 2:
        out = []
        for s, vs in vals(I, st, args, node):
            a, b = vs
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                return None
            if isinstance(a, (Iter,)) or isinstance(b, Iter) and not (isinstance(a, Seq) or isinstance(b, Seq)):
                if isinstance(a, Seq) or isinstance(b, Seq):
                    pass
                elif op in ('+', '-', '==', '!=', '<', '>', '<=', '>='):
                    out += iter_binop(I, s, op, a, b, node)
                    continue
                elif op == '<=>':
                    out.append((s, Obj('ord', st.nl(a.pos) if not a.rev else -a.pos, b.pos if not b.rev else -b.pos)))
                    continue
            if isinstance(a, Obj) and a.tag == 'ord' and isinstance(b, (Lin, Obj)):
                out.append((s, I.ord_cond(s, op, a, node)))
                continue
            if isinstance(b, Obj) and b.tag == 'ord':
                flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
                out.append((s, I.ord_cond(s, flip[op], b, node)))
                continue
            if isinstance(a, Seq) or isinstance(b, Seq):
                strs = [x for x in (a, b) if isinstance(x, Seq) and x.kind in ('string', 'view')]
                if op == '+' and strs:
                    for s2, pa in cstr_pieces(I, s, a, node):
                        for s3, pb in cstr_pieces(I, s2, b, node):
                            out.append((s3, new_string(simp(s3, pa + pb))))
                    continue
                if strs and (isinstance(a, Iter) or isinstance(b, Iter)):
                    for s2, pa in cstr_pieces(I, s, a, node):
                        for s3, pb in cstr_pieces(I, s2, b, node):
                            out.append((s3, cmp_seq(I, s3, op, new_string(pa), new_string(pb), node)))
                    continue
                if isinstance(a, Seq) and isinstance(b, Seq):
                    out.append((s, cmp_seq(I, s, op, a, b, node)))
                    continue
                return None
            if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == 'std::pair':
                out.append((s, I.compare(s, op, a, b, node)))
                continue
            if isinstance(a, Obj) and a.tag == 'osit':
                return None
            return None
        return out
    return None


def cmp_seq(I, s, op, a, b, node):
    if op == '==':
        return I.eq_values(s, a, b, node)
    if op == '!=':
        return c_not(I.eq_values(s, a, b, node))
    if a.kind in ('set', 'map') or b.kind in ('set', 'map'):
        I.giveup('lexicographic comparison of sets', node)
    if op == '<=>':
        return Obj('ord', a, b)
    return I.ord_cond(s, op, Obj('ord', a, b), node)


# ---------------------------------------------------------------- sequence members

def seq_method(I, st, f, obj, args, node):
    nm = f['name']
    if not isinstance(obj, Addr):
        obj = st.alloc(obj)
    out = []
    if nm in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'crbegin', 'rend', 'crend'):
        for s, c in I.read(st, obj, node):
            if not isinstance(c, Seq):
                I.giveup('sequence method on %r' % (c,), node)
            const = bool(f.get('const')) or nm.startswith('c')
            n = s.nl(slen(c))
            base = nm.lstrip('c')
            pos, rev = {'begin': (ZERO, False), 'end': (n, False), 'rbegin': (n, True), 'rend': (ZERO, True)}[base]
            out.append((s, mkit(s, obj, pos, rev, const)))
        return out
    for s, c in I.read(st, obj, node):
        if isinstance(c, Unknown):
            I.giveup('unknown sequence: ' + c.why, node)
        if not isinstance(c, Seq):
            I.giveup('sequence method on %r' % (c,), node)
        out += seq_method1(I, s, f, nm, obj, c, args, node)
    return out


def put(I, s, obj, c, ps, node, grow=False):
    """write pieces; list of states"""
    r = I.write(s, obj, c.with_p(simp(s, ps)), node)
    if grow:
        for x in r:
            grow_event(I, x, obj, c, x.nl(pslen(ps)))
    return r


def take_arg(I, st, a, f, i, node):
    """value of an element argument; moved-from source updated when the parameter is an rvalue reference"""
    out = []
    p = f.get('ptypes', [])
    isr = i < len(p) and I.T(p[i])['k'] == 'rref'
    for s, v in I.rv(st, a, node):
        if isinstance(v, Unknown):
            I.giveup('unknown element', node)
        if isr and isinstance(a, Addr):
            ti = p[i]
            if I.P.strip(ti)['k'] == 'rec':
                for s2 in I.write(s, a, I.moved_from(v), node):
                    out.append((s2, v))
                continue
        out.append((s, v))
    return out


def bool_val(I, s, v, c, node):
    if is_cond(v) and c.et and c.et.get('int'):
        return I.conv_int(s, v, {'k': 'int', 'bits': 32}, node)
    return [(s, v)]


def seq_method1(I, s, f, nm, obj, c, args, node):
    n = s.nl(slen(c))
    out = []
    isstr = c.kind in ('string', 'view')
    if nm in ('size', 'length'):
        return [(s, n)]
    if nm == 'empty':
        return [(s, c_eq(n))]
    if nm in ('data', 'c_str'):
        return [(s, mkit(s, obj, ZERO, ptr=True))]
    if nm == 'capacity':
        return [(s, capacity(s, obj, n))]
    if nm == 'max_size':
        return [(s, Lin(VEC_MAX.get(c.kind, 2**62)))]
    if nm in ('operator[]', 'at'):
        for s2, i in I.rv(s, args[0], node):
            if isinstance(i, Unknown):
                I.giveup('unknown index', node)
            i = s2.nl(i)
            g, b = s2.fork(c_and(c_ge(i), c_ge(n - i - 1)))
            for x in b:
                if nm == 'at':
                    I.do_throw(x, Exc('std::out_of_range', 'at'), node)
                elif isstr and x.decide(c_eq(i - n)) is True:
                    out.append((x, x.alloc(ZERO)))
                else:
                    for y in (x.assume(c_eq(i - n)) if isstr else []):
                        out.append((y, y.alloc(ZERO)))
                    for y in (x.assume(c_not(c_eq(i - n))) if isstr else [x]):
                        I.ub(y, 'element access outside the sequence', node)
            for x in g:
                out.append((x, obj.el(x.nl(i), gen_of(x, obj))))
        return out
    if nm in ('front', 'back'):
        g, b = s.fork(c_ge(n - 1))
        for x in b:
            I.ub(x, nm + '() of an empty sequence', node)
        for x in g:
            out.append((x, obj.el(ZERO if nm == 'front' else x.nl(n - 1), gen_of(x, obj))))
        return out
    if nm in ('push_back', 'push_front', 'emplace_back', 'emplace_front'):
        if nm.startswith('emplace') and len(args) != 1:
            I.giveup('emplace with several arguments', node)
        for s2, v in take_arg(I, s, args[0], f, 0, node):
            for s2, v in conv_elem(I, s2, v, c, node):
                for s3, cc in I.read(s2, obj, node):
                    ps = cc.p + (('one', v),) if nm.endswith('back') else (('one', v),) + cc.p
                    for s4 in put(I, s3, obj, c, ps, node, True):
                        if nm.startswith('emplace'):
                            pos = n if nm.endswith('back') else ZERO
                            out.append((s4, obj.el(s4.nl(pos), gen_of(s4, obj))))
                        else:
                            out.append((s4, VOID))
        return out
    if nm in ('pop_back', 'pop_front'):
        g, b = s.fork(c_ge(n - 1))
        for x in b:
            I.ub(x, nm + '() on an empty sequence', node)
        for x in g:
            lo, hi = (ZERO, n - 1) if nm == 'pop_back' else (ONE, n)
            for x2, ps in seq_sub(x, c.p, lo, x.nl(hi)):
                out += [(y, VOID) for y in put(I, x2, obj, c, ps, node)]
        return out
    if nm == 'clear':
        return [(x, VOID) for x in put(I, s, obj, c, (), node, True)]
    if nm in ('reserve', 'shrink_to_fit'):
        if nm == 'reserve' and c.kind == 'vector':
            for s2, k in I.rv(s, args[0], node):
                k = s2.nl(k)
                for s3 in alloc_check(I, s2, k, c.kind, node):
                    cap = capacity(s3, obj, n)
                    g, b = s3.fork(c_ge(cap - k))
                    for x in b:
                        grow_event(I, x, obj, c)
                        new = L(fresh('cap'))
                        x.add_ge(new - k)
                        x.cap[obj] = new
                        out.append((x, VOID))
                    out += [(x, VOID) for x in g]
            return out
        cur = s.ver.get(obj, 0)
        cur = cur[0] if isinstance(cur, tuple) else cur
        s.ver[obj] = (cur + 1, True)
        s.cap.pop(obj, None)
        if nm == 'reserve':
            for s2, k in I.rv(s, args[0], node):
                for s3 in alloc_check(I, s2, s2.nl(k), c.kind, node):
                    out.append((s3, VOID))
            return out
        return [(s, VOID)]
    if nm == 'resize':
        for s2, vs in vals(I, s, args, node):
            k = s2.nl(vs[0])
            for s3 in alloc_check(I, s2, k, c.kind, node):
                fillv = vs[1] if len(vs) > 1 else default_elem(I, c.et['ti'] if c.et and 'ti' in c.et else -1, node) if not isstr else ZERO
                t, fl = s3.fork(c_ge(n - k))
                for x in t:
                    for x2, ps in seq_sub(x, c.p, ZERO, x.nl(k)):
                        out += [(y, VOID) for y in put(I, x2, obj, c, ps, node)]
                for x in fl:
                    out += [(y, VOID) for y in put(I, x, obj, c, c.p + (('fill', fillv, x.nl(k - n)),), node, True)]
        return out
    if nm == 'swap':
        o = args[0]
        for s2, v in I.rv(s, o, node):
            for s3 in I.write(s2, obj, v, node):
                for s4 in I.write(s3, o, c, node):
                    grow_event(I, s4, obj, c)
                    out.append((s4, VOID))
        return out
    if nm == 'operator=':
        a = args[0]
        for s2, v in I.rv(s, a, node):
            if isinstance(v, Seq):
                if v.kind == 'cstr' or (v.kind == 'array' and isstr):
                    lst = [(x, new_string(ps)) for x, ps in cstr_pieces(I, s2, a, node)]
                else:
                    lst = [(s2, c.with_p(v.p))]
            elif isstr and isinstance(v, (Iter, Lin)):
                lst = [(x, new_string(ps)) for x, ps in cstr_pieces(I, s2, v, node)]
            else:
                I.giveup('sequence assignment from %r' % (v,), node)
            for s3, nv in lst:
                if f.get('moveassign') and isinstance(a, Addr) and a != obj and c.kind != 'view':
                    for s4 in I.write(s3, a, I.moved_from(v), node):
                        for s5 in I.write(s4, obj, nv, node):
                            grow_event(I, s5, obj, c)
                            out.append((s5, obj))
                else:
                    for s5 in I.write(s3, obj, nv, node):
                        if c.kind != 'view' and a != obj:
                            grow_event(I, s5, obj, c)
                        out.append((s5, obj))
        return out
    if nm == 'assign':
        for s2, ps in list_arg(I, s, f, args, c, node):
            out += [(x, obj) for x in put(I, s2, obj, c, ps, node, True)]
        return out
    if nm in ('operator+=', 'append') and isstr:
        if nm == 'operator+=' or len(args) == 1:
            for s2, ps in cstr_pieces(I, s, args[0], node):
                for x in put(I, s2, obj, c, c.p + tuple(ps), node, True):
                    out.append((x, obj))
            return out
        for s2, ps in list_arg(I, s, f, args, c, node):
            out += [(x, obj) for x in put(I, s2, obj, c, c.p + tuple(ps), node, True)]
        return out
    if nm in ('insert', 'emplace'):
        return seq_insert(I, s, f, obj, c, args, node)
    if nm == 'erase':
        return seq_erase(I, s, f, obj, c, args, node)
    if isstr:
        return str_method(I, s, f, nm, obj, c, n, args, node)
    if nm == 'operator==' or nm == 'operator<=>':
        for s2, v in I.rv(s, args[0], node):
            out.append((s2, cmp_seq(I, s2, nm[8:], c, v, node)))
        return out
    I.giveup('sequence method ' + f['qn'], node)


def conv_elem(I, st, v, c, node):
    if is_cond(v):
        return I.conv_int(st, v, {'k': 'int', 'bits': 32}, node)
    if c.et and c.et.get('int') and isinstance(v, Lin) is False:
        I.giveup('element %r' % (v,), node)
    return [(st, v)]


def list_arg(I, st, f, args, c, node, off=0):
    """pieces denoted by (first,last) / (n,value) / (string,pos,n) / initializer list"""
    out = []
    for s, vs in vals(I, st, args, node):
        vs = vs[off:]
        if len(vs) == 1 and isinstance(vs[0], Seq):
            out.append((s, vs[0].p))
        elif len(vs) == 1 and c.kind == 'string':
            out += cstr_pieces(I, s, vs[0], node)
        elif len(vs) == 2 and isinstance(vs[0], Lin):
            v = vs[1]
            for s2 in alloc_check(I, s, s.nl(vs[0]), c.kind, node):
                out.append((s2, (('fill', v, s2.nl(vs[0])),)))
        elif len(vs) == 2 and isinstance(vs[1], Iter) or (len(vs) == 2 and isinstance(vs[0], Obj)):
            out += [(s2, ps) for s2, ps, et in rng_pieces(I, s, vs[0], vs[1], node)]
        elif len(vs) >= 2 and isinstance(vs[0], Seq) and isinstance(vs[1], Lin):
            out += [(s2, q.p) for s2, q in substr(I, s, vs[0], vs[1], vs[2] if len(vs) > 2 else Lin(NPOS), 'string', node)]
        elif len(vs) == 2 and isinstance(vs[0], Iter) and isinstance(vs[1], Lin):
            it = vs[0]
            last = Iter(it.addr, it.pos + vs[1], it.rev, it.const, it.ptr, it.gen)
            out += [(s2, ps) for s2, ps, et in rng_pieces(I, s, it, last, node)]
        else:
            I.giveup('arguments %r' % (vs,), node)
    return out


def pos_check(I, st, obj, it, n, node, extra=0, what='position outside the sequence'):
    """states where iterator it is a valid position of obj (pos <= n - extra)"""
    if it.addr != obj:
        I.ub(st, 'iterator of another sequence', node)
        return []
    if it.rev:
        I.giveup('reverse position', node)
    if not check_gen(I, st, it, node):
        return []
    g, b = st.fork(c_and(c_ge(it.pos), c_ge(n - it.pos - extra)))
    for x in b:
        I.ub(x, what, node)
    return g


def seq_insert(I, st, f, obj, c, args, node):
    out = []
    n = st.nl(slen(c))
    for s, first in I.rv(st, args[0], node):
        if isinstance(first, Lin):      # string.insert(index, ...)
            g, b = s.fork(c_and(c_ge(first), c_ge(n - first)))
            for x in b:
                I.do_throw(x, Exc('std::out_of_range', 'insert'), node)
            for x in g:
                if len(args) == 3 and isinstance(vals(I, x, args[1:2], node)[0][1][0], Lin):
                    lst = list_arg(I, x, f, args[1:], c, node)
                elif len(args) == 2:
                    lst = cstr_pieces(I, x, args[1], node)
                else:
                    lst = list_arg(I, x, f, args[1:], c, node)
                for x2, ps in lst:
                    for x3, a, b2 in split(x2, c.p, first):
                        out += [(y, obj) for y in put(I, x3, obj, c, a + tuple(ps) + b2, node, True)]
            return out
        if not isinstance(first, Iter):
            I.giveup('insert position', node)
        for s1 in pos_check(I, s, obj, first, n, node):
            pos = s1.nl(first.pos)
            if len(args) == 2:
                if I.T(f['ptypes'][1])['k'] == 'rec' and seq_kind(I.T(f['ptypes'][1])) == 'init':
                    lst = list_arg(I, s1, f, args[1:], c, node)
                else:
                    lst = []
                    for s2, v in take_arg(I, s1, args[1], f, 1, node):
                        if isinstance(v, Seq) and v.kind == 'init':
                            lst.append((s2, v.p))
                        else:
                            lst += [(s3, (('one', w),)) for s3, w in conv_elem(I, s2, v, c, node)]
            else:
                # range/fill insertion: a range into the sequence itself is not allowed
                lst = []
                for s2, vs in vals(I, s1, args[1:], node):
                    if isinstance(vs[0], Iter) and vs[0].addr == obj and len(vs) == 2 and isinstance(vs[1], Iter):
                        e = s2.decide(c_eq(vs[0].pos - vs[1].pos))
                        for x in s2.assume(c_eq(vs[0].pos - vs[1].pos), False):
                            I.ub(x, 'sequence inserted into itself through its own iterators', node)
                        for x in s2.assume(c_eq(vs[0].pos - vs[1].pos)):
                            lst.append((x, ()))
                        continue
                    lst += list_arg(I, s2, f, vs, c, node)
            for s2, ps in lst:
                for s3, cc in I.read(s2, obj, node):
                    for s4, a, b in split(s3, cc.p, pos):
                        for y in put(I, s4, obj, c, a + tuple(ps) + b, node, True):
                            out.append((y, mkit(y, obj, pos)))
    return out


def seq_erase(I, st, f, obj, c, args, node):
    out = []
    n = st.nl(slen(c))
    for s, vs in vals(I, st, args, node):
        if not vs:
            return [(x, obj) for x in put(I, s, obj, c, (), node, True)]
        if isinstance(vs[0], Lin):          # string.erase(pos, count)
            pos = vs[0]
            k = vs[1] if len(vs) > 1 else Lin(NPOS)
            g, b = s.fork(c_and(c_ge(pos), c_ge(n - pos)))
            for x in b:
                I.do_throw(x, Exc('std::out_of_range', 'erase'), node)
            for x in g:
                t, fl = x.fork(c_ge(L(k) - (n - pos)))
                for y, e in [(y, n) for y in t] + [(y, pos + k) for y in fl]:
                    for y2, a, b2 in split(y, c.p, pos):
                        for y3, m, d in split(y2, b2, y2.nl(e - pos)):
                            out += [(z, obj) for z in put(I, y3, obj, c, a + d, node)]
            continue
        if len(vs) == 1:
            for s1 in pos_check(I, s, obj, vs[0], n, node, 1, 'erase position outside the sequence'):
                p = s1.nl(vs[0].pos)
                for s2, a, b in split(s1, c.p, p):
                    for s3, m, d in split(s2, b, ONE):
                        out += [(y, mkit(y, obj, p)) for y in put(I, s3, obj, c, a + d, node)]
            continue
        for s1, cc, lo, hi, rev in rng(I, s, vs[0], vs[1], node):
            if vs[0].addr != obj:
                I.ub(s1, 'iterator of another sequence', node)
                continue
            for s2, a, b in split(s1, cc.p, lo):
                for s3, m, d in split(s2, b, s2.nl(hi - lo)):
                    out += [(y, mkit(y, obj, lo)) for y in put(I, s3, obj, c, a + d, node)]
    return out


def str_method(I, st, f, nm, obj, c, n, args, node):
    out = []
    if nm == 'substr':
        for s, vs in vals(I, st, args, node):
            pos = vs[0] if vs else ZERO
            k = vs[1] if len(vs) > 1 else Lin(NPOS)
            out += substr(I, s, c, s.nl(pos), s.nl(k), c.kind, node)
        return out
    if nm == 'find':
        for s, vs in vals(I, st, args, node):
            pos = s.nl(vs[1]) if len(vs) > 1 else ZERO
            for s2, nd in cstr_pieces(I, s, vs[0], node):
                g, b = s2.fork(c_ge(n - pos))
                for x in b:
                    out.append((x, Lin(NPOS)))
                for x in g:
                    for x2, hay in seq_sub(x, c.p, pos, n):
                        for x3, p in strfind(I, x2, hay, nd):
                            out.append((x3, Lin(NPOS) if p is None else x3.nl(pos + p)))
        return out
    if nm in ('starts_with', 'ends_with'):
        for s, nd in cstr_pieces(I, st, args[0], node):
            m = s.nl(pslen(nd))
            fit, no = s.fork(c_ge(n - m))
            for x in no:
                out.append((x, False))
            for x in fit:
                lo, hi = (ZERO, m) if nm == 'starts_with' else (n - m, n)
                for x2, ps in seq_sub(x, c.p, x.nl(lo), x.nl(hi)):
                    from .interp import seq_eq_cond
                    out.append((x2, seq_eq_cond(x2, new_string(ps), new_string(nd))))
        return out
    if nm == 'contains':
        for s, nd in cstr_pieces(I, st, args[0], node):
            for x, p in strfind(I, s, c.p, nd):
                out.append((x, p is not None))
        return out
    if nm == 'compare' and len(args) == 1:
        for s, nd in cstr_pieces(I, st, args[0], node):
            out.append((s, Obj('ord', new_string(c.p), new_string(nd))))
        return out
    if nm == 'operator basic_string_view' or nm == 'operator conversion' or f.get('conversion') or nm.startswith('operator std::'):
        return [(st, Seq(c.p, 'view', CHAR))]
    if nm == 'remove_prefix' or nm == 'remove_suffix':
        for s, k in I.rv(st, args[0], node):
            g, b = s.fork(c_and(c_ge(k), c_ge(n - k)))
            for x in b:
                I.ub(x, nm + ' beyond the view', node)
            for x in g:
                lo, hi = (k, n) if nm == 'remove_prefix' else (ZERO, n - k)
                for x2, ps in seq_sub(x, c.p, x.nl(lo), x.nl(hi)):
                    out += [(y, VOID) for y in put(I, x2, obj, c, ps, node)]
        return out
    if nm == 'replace' and len(args) == 3:
        for s, vs in vals(I, st, args, node):
            if isinstance(vs[0], Lin):
                g, b = s.fork(c_and(c_ge(vs[0]), c_ge(n - vs[0])))
                for x in b:
                    I.do_throw(x, Exc('std::out_of_range', 'replace'), node)
                for x in g:
                    t, fl = x.fork(c_ge(vs[1] - (n - vs[0])))
                    for y, e in [(y, n) for y in t] + [(y, vs[0] + vs[1]) for y in fl]:
                        for y1, nd in cstr_pieces(I, y, vs[2], node):
                            for y2, a, b2 in split(y1, c.p, vs[0]):
                                for y3, m, d in split(y2, b2, y2.nl(e - vs[0])):
                                    out += [(z, obj) for z in put(I, y3, obj, c, a + tuple(nd) + d, node, True)]
                continue
            I.giveup('string replace', node)
        return out
    if nm in ('operator==', 'operator<=>'):
        for s, nd in cstr_pieces(I, st, args[0], node):
            out.append((s, cmp_seq(I, s, nm[8:], new_string(c.p), new_string(nd), node)))
        return out
    I.giveup('string method ' + f['qn'], node)


# ---------------------------------------------------------------- output

def emit_pieces(I, st, os, ps, node):
    out = []
    for s, v in I.rv(st, os, node):
        if not isinstance(v, OStream):
            I.giveup('output to %r' % (v,), node)
        fl = dict(v.flags)
        ps = tuple(as_number(p) for p in ps)
        if fl.get('setw') is not None and isinstance(fl['setw'], Lin) and s.entails_ge(pslen(tuple(ps)) - fl['setw'] if not any(p[0] == 'one' and isinstance(p[1], Obj) for p in ps) else L(len(ps)) - fl['setw']):
            fl.pop('setw')      # at least that long already
        if fl.get('setw') is not None:
            if all(p[0] == 'one' for p in ps) and len(ps) == 1:
                w = fl.pop('setw')
                ps = (('one', Obj('padded', ps[0][1], w, fl.get('fill', Lin(32)))),)
            else:
                w = fl.pop('setw')
                ps = (('one', Obj('paddedseq', Term('seqkey', tuple(ps)), w, fl.get('fill', Lin(32)))),)
        nv = OStream(simp(s, v.toks + tuple(ps)), tuple(sorted(fl.items())))
        for s2 in I.write(s, os, nv, node):
            out.append((s2, os))
    return out


def as_number(p):
    """the text of an integer is what printing the integer writes"""
    if p[0] == 'op' and p[1].op == 'text' and isinstance(p[1].args[0], Term) and p[1].args[0].op == 'obj':
        a = p[1].args[0].args
        if a[:2] == ('num', 'int') and isinstance(a[2], Term) and a[2].op == 'val':
            return ('one', Obj('num', 'int', L(a[2].args[0])))
    return p


def emit(I, st, os, arg, node, tchar=None):
    out = []
    if not isinstance(os, Addr):
        I.giveup('stream value', node)
    for s, v in I.rv(st, arg, node):
        if isinstance(v, (Iter,)) or (isinstance(v, Seq) and v.kind in ('string', 'view', 'cstr')) or (isinstance(v, Seq) and v.kind == 'array'):
            for s2, ps in cstr_pieces(I, s, arg, node):
                out += emit_pieces(I, s2, os, ps, node)
        elif isinstance(v, Obj) and v.tag == 'manip':
            for s2, o in I.rv(s, os, node):
                fl = dict(o.flags)
                if v.a[0] == 'setw':
                    fl['setw'] = v.a[1]
                elif v.a[0] == 'setfill':
                    fl['fill'] = v.a[1]
                for s3 in I.write(s2, os, OStream(o.toks, tuple(sorted(fl.items()))), node):
                    out.append((s3, os))
        elif isinstance(v, El):
            out += emit_pieces(I, s, os, (('one', v),), node)
        elif isinstance(v, Lin):
            out += emit_pieces(I, s, os, (('one', v),), node)
        else:
            I.giveup('output of %r' % (v,), node)
    return out


def ostream_method(I, st, f, obj, args, node):
    nm = f['name']
    out = []
    if nm == 'operator<<':
        a = args[0]
        for s, v in I.rv(st, a, node):
            t = I.T(f['ptypes'][0])
            if isinstance(v, Fl):
                out += emit_pieces(I, s, obj, (('one', Obj('num', 'double', v)),), node)
            elif isinstance(v, Lin):
                out += emit_pieces(I, s, obj, (('one', Obj('num', 'int', v)),), node)
            elif is_cond(v):
                for s2, w in I.conv_int(s, v, {'k': 'int', 'bits': 32}, node):
                    out += emit_pieces(I, s2, obj, (('one', Obj('num', 'int', w)),), node)
            elif isinstance(v, FnPtr):
                q = v.f['qn']
                if q.endswith('endl'):
                    out += emit_pieces(I, s, obj, (('one', Lin(10)),), node)
                else:
                    I.giveup('manipulator ' + q, node)
            else:
                I.giveup('output of %r' % (v,), node)
        return out
    if nm == 'str' and not args:
        for s, v in I.rv(st, obj, node):
            out.append((s, text_of(I, s, v.toks, node)))
        return out
    if nm == 'put':
        for s, v in I.rv(st, args[0], node):
            out += emit_pieces(I, s, obj, (('one', v),), node)
        return out
    if nm == 'write':
        for s, vs in vals(I, st, args, node):
            it, k = vs
            last = Iter(it.addr, it.pos + k, it.rev, it.const, it.ptr, it.gen)
            for s2, ps, et in rng_pieces(I, s, it, last, node):
                out += emit_pieces(I, s2, obj, ps, node)
        return out
    if nm in ('flush',):
        return [(st, obj)]
    I.giveup('stream method ' + f['qn'], node)


def text_of(I, st, toks, node):
    """string value of emitted tokens: characters stay, other values become their printed text"""
    ps = []
    for p in toks:
        if p[0] == 'one' and not isinstance(p[1], Lin):
            t = Term('text', val_term(st, p[1]))
            ln = L(Term('textlen', t))
            st.add_ge(ln)
            st.add_ge(L(INT_MAX) - ln)
            ps.append(('op', t, st.nl(ln)))
        elif p[0] in ('one', 'sl', 'rv', 'st', 'fill', 'op', 'rep'):
            ps.append(p)
        else:
            I.giveup('text of ' + p[0], node)
    return new_string(simp(st, ps))


def val_term(st, v):
    if isinstance(v, El):
        return v.t
    if isinstance(v, Lin):
        return Term('val', st.nl(v))
    if isinstance(v, Seq):
        return Term('seqkey', simp(st, v.p))
    if isinstance(v, Fl):
        return v.t if isinstance(v.t, Term) else Term('fl', repr(v.t))
    if isinstance(v, Struct):
        return Term('struct', v.cls, *[x for k in sorted(v.f) if k != '__id' for x in (k, val_term(st, v.f[k]))])
    if isinstance(v, Obj):
        return Term('obj', v.tag, *[val_term(st, x) if isinstance(x, (El, Lin, Seq, Fl, Struct, Obj)) else (x if isinstance(x, (Term, str, int, tuple)) else repr(x)) for x in v.a])
    if is_cond(v):
        return cond_term(v)
    return Term('repr', repr(v))


# ---------------------------------------------------------------- free functions

FREE = {}


def free(*names):
    def deco(fn):
        for n in names:
            FREE['std::' + n] = fn
        return fn
    return deco


@free('move', 'forward', 'as_const', 'addressof', '__addressof')
def f_move(I, st, f, args, node):
    if len(args) == 3:
        return copy_alg(I, st, f, args, node, move=True)
    a = args[0]
    if f['name'] in ('addressof', '__addressof'):
        return [(st, Obj('ptr', I.addr(st, a)))]
    return [(st, a)]


@free('swap', 'iter_swap')
def f_swap(I, st, f, args, node):
    out = []
    if f['name'] == 'iter_swap':
        res = []
        for s, vs in vals(I, st, args, node):
            for s1, a in I.deref(s, vs[0], node):
                for s2, b in I.deref(s1, vs[1], node):
                    res.append((s2, a, b))
    else:
        res = [(st, args[0], args[1])]
    for s0, x, y in res:
        for s, a in I.rv(s0, x, node):
            for s2, b in I.rv(s, y, node):
                for s3 in I.write(s2, x, b, node):
                    for s4 in I.write(s3, y, a, node):
                        out.append((s4, VOID))
    return out


@free('exchange')
def f_exchange(I, st, f, args, node):
    out = []
    for s, a in I.rv(st, args[0], node):
        for s2, b in I.rv(s, args[1], node):
            for s3 in I.write(s2, args[0], b, node):
                out.append((s3, a))
    return out


@free('distance')
def f_distance(I, st, f, args, node):
    out = []
    for s, (a, b) in vals(I, st, args, node):
        if isinstance(a, Iter):
            out += I.binop(s, '-', b, a, {'l': node.get('l'), 't': -1})
        else:
            I.giveup('distance', node)
    return out


@free('next', 'prev')
def f_next(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        k = vs[1] if len(vs) > 1 else ONE
        if f['name'] == 'prev':
            k = -k
        if isinstance(vs[0], Iter):
            from . import sets
            sets.check_order(I, s, vs[0], node)
            out.append((s, vs[0].moved(k)))
        else:
            I.giveup(f['name'], node)
    return out


@free('advance')
def f_advance(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        if not isinstance(vs[0], Iter):
            I.giveup('advance', node)
        from . import sets
        sets.check_order(I, s, vs[0], node)
        for s2 in I.write(s, args[0], vs[0].moved(vs[1]), node):
            out.append((s2, VOID))
    return out


@free('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'size', 'ssize', 'empty', 'data')
def f_begin(I, st, f, args, node):
    a = I.addr(st, args[0])
    out = []
    for s, c in I.read(st, a, node):
        if isinstance(c, Seq) and c.kind in ('set', 'map'):
            from . import sets
            out += sets.method(I, s, dict(f, name='size') if f['name'] == 'ssize' else f, a, [], node)
        elif isinstance(c, Seq):
            g = dict(f)
            if f['name'] == 'ssize':
                g['name'] = 'size'
            if c.kind == 'array' and f['name'] in ('begin', 'cbegin', 'end', 'cend'):
                out.append((s, Iter(a, ZERO if 'begin' in f['name'] else slen(c), ptr=True)))
            else:
                out += seq_method(I, s, g, a, [], node)
        elif isinstance(c, Struct) and I.P.find(None, '', all=True) is not None:
            I.giveup('std::begin of a class', node)
        else:
            I.giveup(f['name'], node)
    return out


def range_seq(I, s, first, last, node):
    """list of (state, Seq of the range)"""
    return [(x, Seq(ps, 'vector', et)) for x, ps, et in rng_pieces(I, s, first, last, node)]


def pos_iter(first, k):
    if isinstance(first, Obj) and first.tag == 'mvit':
        return Obj('mvit', pos_iter(first.a[0], k))
    return first.moved(k)


@free('find', 'find_if', 'find_if_not', 'count', 'count_if', 'any_of', 'all_of', 'none_of')
def f_find(I, st, f, args, node):
    out = []
    nm = f['name']
    for s, vs in vals(I, st, args, node):
        for s2, sq in range_seq(I, s, vs[0], vs[1], node):
            p = eq_pred(I, s2, vs[2], sq) if nm in ('find', 'count') else pred_term(I, s2, args[2] if isinstance(args[2], Addr) else vs[2], sq, node)
            if nm == 'find_if_not':
                p = neg_pred(p)
            if nm in ('count', 'count_if'):
                out.append((s2, cnt(I, s2, sq.p, p)))
                continue
            if nm == 'all_of':
                p = neg_pred(p)
            n = s2.nl(slen(sq))
            k = findpos(I, s2, sq.p, p)
            if nm.startswith('find'):
                if isinstance(vs[0], Iter):
                    out.append((s2, vs[0].moved(k)))
                else:
                    I.giveup('find over %r' % (vs[0],), node)
            else:
                c = c_eq(s2.nl(n - k))
                out.append((s2, c_not(c) if nm == 'any_of' else c))
    return out


@free('find_first_of')
def f_first_of(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        if len(vs) != 4 or not isinstance(vs[0], Iter):
            I.giveup('find_first_of', node)
        for s2, a in range_seq(I, s, vs[0], vs[1], node):
            for s3, b in range_seq(I, s2, vs[2], vs[3], node):
                ps = simp(s3, b.p)
                p = Term('mem', Term('seqkey', ps), GEN)
                if not ps:
                    p = Term('const', 0)
                out.append((s3, vs[0].moved(findpos(I, s3, a.p, p))))
    return out


@free('equal', 'lexicographical_compare', 'lexicographical_compare_three_way')
def f_equal(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        if f['name'] == 'equal' and len(vs) == 3 and isinstance(vs[0], Iter) and isinstance(vs[1], Iter) and isinstance(vs[2], Iter):
            n = s.nl(vs[1].pos - vs[0].pos)
            vs = list(vs) + [vs[2].moved(-n if vs[0].rev else n)]
        if len(vs) != 4:
            I.giveup('equal', node)
        for s2, a in range_seq(I, s, vs[0], vs[1], node):
            for s3, b in range_seq(I, s2, vs[2], vs[3], node):
                out.append((s3, cmp_seq(I, s3, {'equal': '==', 'lexicographical_compare': '<'}.get(f['name'], '<=>'), a, b, node)))
    return out


@free('copy', 'copy_n', 'copy_backward', 'move_backward', 'reverse_copy', 'rotate_copy', 'copy_if', 'remove_copy', 'remove_copy_if', 'transform', 'replace_copy', 'set_union', 'set_intersection', 'set_difference',
      'set_symmetric_difference', 'merge')
def copy_alg(I, st, f, args, node, move=False):
    nm = f['name']
    out = []
    for s, vs in vals(I, st, args, node):
        if nm.startswith('set_') or nm == 'merge':
            from . import sets
            out += sets.set_alg(I, s, f, nm, vs, args, node)
            continue
        if nm == 'copy_n':
            it = vs[0]
            if not isinstance(it, Iter):
                I.giveup('copy_n', node)
            vs = [it, it.moved(vs[1])] + vs[2:]
        if nm in ('copy_backward', 'move_backward'):
            for s2, sq in range_seq(I, s, vs[0], vs[1], node):
                n = s2.nl(slen(sq))
                d = vs[2].moved(-n)
                src = vs[0]
                if isinstance(src, Iter) and src.addr == d.addr and s2.decide(c_ge(d.pos - src.pos)) is not True:
                    I.giveup('overlapping backward copy', node)
                out += [(x, d) for x, _ in write_out(I, s2, d, sq.p, n, node)]
            continue
        if nm == 'rotate_copy':
            for s1, c, lo, hi, rev in rng(I, s, vs[0], vs[2], node):
                mid = vs[1].pos
                g, b = s1.fork(c_and(c_ge(mid - lo), c_ge(hi - mid)))
                for x in b:
                    I.ub(x, 'rotation point outside the range', node)
                for x in g:
                    if rev:
                        I.giveup('reverse rotate', node)
                    for x2, a in seq_sub(x, c.p, lo, x.nl(mid)):
                        for x3, b2 in seq_sub(x2, c.p, x2.nl(mid), hi):
                            ps = simp(x3, b2 + a)
                            out += write_out(I, x3, vs[3], ps, x3.nl(pslen(ps)), node)
            continue
        for s2, sq in range_seq(I, s, vs[0], vs[1], node):
            dest = vs[2]
            if nm == 'reverse_copy':
                ps = rev_pieces(sq.p)
            elif nm == 'copy_if':
                ps = filtered(I, s2, sq.p, pred_term(I, s2, vs[3], sq, node))
            elif nm == 'remove_copy_if':
                ps = filtered(I, s2, sq.p, neg_pred(pred_term(I, s2, vs[3], sq, node)))
            elif nm == 'remove_copy':
                ps = filtered(I, s2, sq.p, neg_pred(eq_pred(I, s2, vs[3], sq)))
            elif nm == 'transform':
                if len(vs) != 4:
                    I.giveup('binary transform', node)
                from . import loops
                ps = loops.map_pieces(I, s2, sq, vs[3], node)
            elif nm in ('copy', 'copy_n', 'move'):
                ps = sq.p
            else:
                I.giveup(nm, node)
            n = s2.nl(pslen(ps))
            if isinstance(dest, Iter) and isinstance(vs[0], Iter) and dest.addr == vs[0].addr and nm in ('copy', 'copy_n', 'move', 'copy_if', 'remove_copy', 'remove_copy_if'):
                # forward overlapping copy is fine when the destination does not lie inside (first, last)
                if s2.decide(c_ge(vs[0].pos - dest.pos)) is not True and s2.decide(c_ge(dest.pos - vs[1].pos)) is not True:
                    for x in s2.assume(c_and(c_ge(dest.pos - vs[0].pos - 1), c_ge(vs[1].pos - dest.pos - 1))):
                        I.giveup('overlapping copy', node)
            ss = [s2]
            if move and isinstance(vs[0], Iter):
                if isinstance(dest, Iter) and dest.addr == vs[0].addr:
                    I.giveup('move within a sequence', node)
                ss = []
                for x, c, lo, hi, rev in rng(I, s2, vs[0], vs[1], node):
                    ss += set_range(I, x, vs[0].addr, lo, hi, moved_pieces(x, sq.p), node)
            for x in ss:
                out += write_out(I, x, dest, ps, n, node)
    return out


def write_out(I, st, dest, ps, n, node):
    """write n pieces through an output iterator.  list of (state, end iterator)"""
    out = []
    if isinstance(dest, Iter):
        if dest.rev:
            I.giveup('reverse output', node)
        last = dest.moved(n)
        for s, c, lo, hi, rev in rng(I, st, dest, last, node):
            for s2 in set_range(I, s, dest.addr, lo, hi, ps, node):
                out.append((s2, dest.moved(s2.nl(n))))
        return out
    if isinstance(dest, Obj) and dest.tag == 'backins':
        for s, c in I.read(st, dest.a[0], node):
            if not isinstance(c, Seq):
                I.giveup('back inserter', node)
            new = c.p + tuple(ps) if dest.a[1] == 'back' else rev_pieces(ps) + c.p
            for s2 in put(I, s, dest.a[0], c, new, node, True):
                out.append((s2, dest))
        return out
    if isinstance(dest, Obj) and dest.tag == 'inserter':
        a, it = dest.a
        for s, c in I.read(st, a, node):
            if isinstance(c, Seq) and c.kind not in ('set', 'map'):
                if not isinstance(it, Iter):
                    I.giveup('inserter', node)
                for s2, x, y in split(s, c.p, it.pos):
                    for s3 in put(I, s2, a, c, x + tuple(ps) + y, node, True):
                        out.append((s3, dest))
            else:
                from . import sets
                out += [(s2, dest) for s2 in sets.insert_pieces(I, s, a, c, ps, node)]
        return out
    if isinstance(dest, Obj) and dest.tag == 'osit':
        os, sep = dest.a
        if not sep:
            return [(s, dest) for s, _ in emit_pieces(I, st, os, ps, node)]
        new = []
        for p in ps:
            k = st.nl(plen(p))
            if p[0] == 'one':
                new += [p] + list(sep)
            elif k.is_const() and k.c == 1:
                new += [p] + list(sep)
            else:
                new.append(('op', Term('eachsep', Term('seqkey', (p,)), Term('seqkey', tuple(sep))), k * (1 + pslen(sep))))
        return [(s, dest) for s, _ in emit_pieces(I, st, os, new, node)]
    I.giveup('output iterator %r' % (dest,), node)


@free('back_inserter', 'front_inserter')
def f_backins(I, st, f, args, node):
    return [(st, Obj('backins', I.addr(st, args[0]), f['name'].split('_')[0]))]


@free('inserter')
def f_inserter(I, st, f, args, node):
    out = []
    for s, it in I.rv(st, args[1], node):
        out.append((s, Obj('inserter', I.addr(s, args[0]), it)))
    return out


@free('make_move_iterator')
def f_mmi(I, st, f, args, node):
    return [(s, Obj('mvit', v)) for s, v in I.rv(st, args[0], node)]


@free('make_reverse_iterator')
def f_mri(I, st, f, args, node):
    return [(s, Iter(v.addr, v.pos, True, v.const, v.ptr, v.gen)) for s, v in I.rv(st, args[0], node)]


@free('remove', 'remove_if')
def f_remove(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        for s1, c, lo, hi, rev in rng(I, s, vs[0], vs[1], node):
            if rev:
                I.giveup('reverse remove', node)
            for s2, ps in seq_sub(s1, c.p, lo, hi):
                sq = Seq(ps, 'vector', c.et)
                if f['name'] == 'remove':
                    a = args[2]
                    if isinstance(a, Addr) and a.root == vs[0].addr.root and a.path[:len(vs[0].addr.path)] == vs[0].addr.path and len(a.path) > len(vs[0].addr.path):
                        idx = a.path[len(vs[0].addr.path)][1]
                        # elements moved over the referenced one change the value compared against
                        pe = eq_pred(I, s2, vs[2], sq)
                        fp = findpos(I, s2, ps, pe)
                        bad = s2.assume(c_and(c_ge(idx - lo), c_ge(hi - idx - 2)))
                        for x in bad:
                            x.ev = x.ev + (('alias', I.loc(node), 'std::remove compares against an element it overwrites'),)
                            I.ub(x, 'std::remove given a reference to an element of its own range', node)
                        good = s2.assume(c_and(c_ge(idx - lo), c_ge(hi - idx - 2)), False)
                    else:
                        good = [s2]
                    p = eq_pred(I, s2, vs[2], sq)
                else:
                    good = [s2]
                    if reads_range(I, s2, vs[2], sq, vs[0].addr, node):
                        for x in s2.assume(c_ge(hi - lo - 2)):
                            I.ub(x, 'std::remove_if with a predicate that reads an element of the range it overwrites', node)
                        good = s2.assume(c_not(c_ge(hi - lo - 2)))
                    p = pred_term(I, s2, vs[2], sq, node)
                for x in good:
                    keep = filtered(I, x, ps, neg_pred(p))
                    m = x.nl(pslen(keep))
                    tail = x.nl(hi - lo - m)
                    junk = (('op', Term('removetail', seqkey(x, ps), p), tail),)
                    for y in set_range(I, x, vs[0].addr, lo, hi, keep + junk, node):
                        out.append((y, vs[0].moved(m)))
    return out


@free('erase', 'erase_if')
def f_erase(I, st, f, args, node):
    out = []
    a = args[0]
    for s, c in I.rv(st, a, node):
        if not isinstance(c, Seq):
            I.giveup('std::erase', node)
        for s1, vs in vals(I, s, args[1:], node):
            p = eq_pred(I, s1, vs[0], c) if f['name'] == 'erase' else pred_term(I, s1, vs[0], c, node)
            if f['name'] == 'erase' and isinstance(args[1], Addr) and args[1].root == a.root and len(args[1].path) > len(a.path):
                I.ub(s1, 'std::erase given a reference to an element of its own range', node)
                continue
            n = s1.nl(slen(c))
            keep = filtered(I, s1, c.p, neg_pred(p))
            for y in put(I, s1, a, c, keep, node):
                out.append((y, y.nl(n - pslen(keep))))
    return out


@free('rotate')
def f_rotate(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        for s1, c, lo, hi, rev in rng(I, s, vs[0], vs[2], node):
            mid = vs[1].pos
            g, b = s1.fork(c_and(c_ge(mid - lo), c_ge(hi - mid)))
            for x in b:
                I.ub(x, 'rotation point outside the range', node)
            for x in g:
                for x2, a in seq_sub(x, c.p, lo, x.nl(mid)):
                    for x3, b2 in seq_sub(x2, c.p, x2.nl(mid), hi):
                        for y in set_range(I, x3, vs[0].addr, lo, hi, b2 + a, node):
                            out.append((y, vs[0].moved(y.nl((hi - mid) if not rev else (mid - lo)))))
    return out


@free('reverse')
def f_reverse(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        for s1, c, lo, hi, rev in rng(I, s, vs[0], vs[1], node):
            for s2, ps in seq_sub(s1, c.p, lo, hi):
                for y in set_range(I, s2, vs[0].addr, lo, hi, rev_pieces(simp(s2, ps)), node):
                    out.append((y, VOID))
    return out


@free('fill', 'fill_n')
def f_fill(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        if f['name'] == 'fill_n':
            last = vs[0].moved(vs[1]) if isinstance(vs[0], Iter) else None
            if last is None:
                out += write_out(I, s, vs[0], (('fill', vs[2], vs[1]),), vs[1], node)
                continue
        else:
            last = vs[1]
        for s1, c, lo, hi, rev in rng(I, s, vs[0], last, node):
            for y in set_range(I, s1, vs[0].addr, lo, hi, (('fill', vs[2], s1.nl(hi - lo)),), node):
                out.append((y, last if f['name'] == 'fill_n' else VOID))
    return out


@free('sort', 'stable_sort', 'partial_sort', 'nth_element')
def f_sort(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        if f['name'] not in ('sort', 'stable_sort'):
            I.giveup(f['name'], node)
        for s1, c, lo, hi, rev in rng(I, s, vs[0], vs[1], node):
            cmpf = args[2] if len(args) > 2 else None
            key = Term('natural')
            if cmpf is not None:
                key = cmp_key(I, s1, cmpf, c, node)
            for s2, ps in seq_sub(s1, c.p, lo, hi):
                ps = simp(s2, ps)
                nm = 'stablesort' if f['name'] == 'stable_sort' else 'unstablesort'
                if rev:
                    nm += '_rev'
                n = s2.nl(pslen(ps))
                new = (('op', Term(nm, Term('seqkey', ps), key), n),)
                g, b = s2.fork(c_ge(n - 2))
                for x in b:
                    out.append((x, VOID))
                for x in g:
                    for y in set_range(I, x, vs[0].addr, lo, hi, new, node):
                        out.append((y, VOID))
    return out


@free('partition', 'stable_partition')
def f_partition(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        for s1, c, lo, hi, rev in rng(I, s, vs[0], vs[1], node):
            for s2, ps in seq_sub(s1, c.p, lo, hi):
                if rev:
                    I.giveup('reverse partition', node)
                ps = simp(s2, ps)
                p = pred_term(I, s2, vs[2], Seq(ps, c.kind, c.et), node)
                parts = [filtered(I, s2, ps, p), filtered(I, s2, ps, neg_pred(p))]
                n = s2.nl(pslen(parts[0]))
                if f['name'] == 'partition':
                    # the order within the two groups is unspecified
                    parts = [(('op', Term('shuffled', Term('seqkey', q)), s2.nl(pslen(q))),) if q else () for q in parts]
                for y in set_range(I, s2, vs[0].addr, lo, hi, parts[0] + parts[1], node):
                    out.append((y, vs[0].moved(y.nl(n))))
    return out


def cmp_key(I, st, cmpf, c, node):
    """canonical comparator term on placeholder elements $x, $y"""
    gy = GENY
    s0 = st.copy()
    x = gen_elem(I, c.et)
    y = El(gy) if not (c.et and c.et.get('mk')) else c.et['mk'](gy)
    if c.et and c.et.get('int'):
        y = L(gy)
    for s, v in I.rv(st, cmpf, node):
        if isinstance(v, Obj) and v.tag == 'opaquefn':
            return Term('fn', v.a[0])
        if isinstance(v, El):
            return v.t
    res = []
    for s, v in I.call_closure(s0, cmpf, [s0.alloc(x), s0.alloc(y)], node):
        res += I.rv(s, v, node)
    return cases_to_pred(I, st, res, node)


@free('unique')
def f_unique(I, st, f, args, node):
    out = []
    for s, vs in vals(I, st, args, node):
        for s1, c, lo, hi, rev in rng(I, s, vs[0], vs[1], node):
            for s2, ps in seq_sub(s1, c.p, lo, hi):
                ps = simp(s2, ps)
                n = s2.nl(pslen(ps))
                m = L(Term('adjlen', Term('seqkey', ps)))
                s2.add_ge(m)
                s2.add_ge(n - m)
                new = (('op', Term('adjuniq', Term('seqkey', ps)), m), ('op', Term('uniqtail', Term('seqkey', ps)), s2.nl(n - m)))
                for y in set_range(I, s2, vs[0].addr, lo, hi, new, node):
                    out.append((y, vs[0].moved(y.nl(m))))
    return out


@free('for_each', 'for_each_n')
def f_foreach(I, st, f, args, node):
    from . import loops
    out = []
    for s, vs in vals(I, st, args, node):
        fn = args[2]
        out += [(s2, vs[2]) for s2 in loops.for_each(I, s, vs[0], vs[1], fn, node)]
    return out


@free('accumulate')
def f_accumulate(I, st, f, args, node):
    I.giveup('accumulate', node)


@free('includes')
def f_includes(I, st, f, args, node):
    from . import sets
    out = []
    for s, vs in vals(I, st, args, node):
        out += sets.includes(I, s, vs, node)
    return out


@free('min', 'max')
def f_min(I, st, f, args, node):
    out = []
    if len(args) == 1:
        I.giveup('min/max of a list', node)
    for s, vs in vals(I, st, args[:2], node):
        a, b = vs
        if len(args) > 2:
            I.giveup('min/max with comparator', node)
        c = I.compare(s, '<', b, a, node) if f['name'] == 'min' else I.compare(s, '<', a, b, node)
        t, fl = s.fork(c)
        out += [(x, args[1] if isinstance(args[1], Addr) else b) for x in t] + [(x, args[0] if isinstance(args[0], Addr) else a) for x in fl]
    return out


@free('clamp')
def f_clamp(I, st, f, args, node):
    out = []
    for s, (v, lo, hi) in vals(I, st, args[:3], node):
        t, fl = s.fork(I.compare(s, '<', v, lo, node))
        out += [(x, lo) for x in t]
        for x in fl:
            t2, f2 = x.fork(I.compare(x, '<', hi, v, node))
            out += [(y, hi) for y in t2] + [(y, v) for y in f2]
    return out


@free('min_element', 'max_element', 'minmax_element', 'lower_bound', 'upper_bound', 'binary_search', 'search', 'is_sorted', 'adjacent_find', 'mismatch', 'generate', 'iota')
def f_unmodelled(I, st, f, args, node):
    I.giveup('algorithm ' + f['qn'], node)


@free('gcd', 'lcm')
def f_gcd(I, st, f, args, node):
    out = []
    for s, (a, b) in vals(I, st, args, node):
        a, b = s.nl(a), s.nl(b)
        if f['name'] == 'lcm':
            I.giveup('lcm', node)
        t = I.T(f['ret'])
        z = a if b == ZERO or a == b or a == -b else b if a == ZERO else None
        if z is not None:
            x, y = s.fork(c_ge(z))
            out += [(q, q.nl(z)) for q in x] + [(q, q.nl(-z)) for q in y]
            continue
        g = t_gcd(a, b)
        if not g.is_const():
            s.add_ge(g)
            # gcd(0,0) = 0, otherwise positive and bounded by non-zero arguments
            for x in (a, b):
                if s.decide(c_ge(x - 1)) is True:
                    s.add_ge(g - 1)
                    s.add_ge(x - g)
                elif s.decide(c_ge(-x - 1)) is True:
                    s.add_ge(g - 1)
                    s.add_ge(-x - g)
            if t.get('signed', True) and s.decide(c_and(c_eq(a - INT_MIN), c_eq(b - INT_MIN))) is not False:
                pass
        out.append((s, s.nl(g)))
    return out


@free('abs', 'labs', 'llabs', 'fabs')
def f_abs(I, st, f, args, node):
    out = []
    for s, v in I.rv(st, args[0], node):
        if isinstance(v, Lin):
            t, fl = s.fork(c_ge(v))
            out += [(x, v) for x in t]
            for x in fl:
                out += I.arith(x, '-', ZERO, v, I.T(f['ret']), node)
        elif isinstance(v, Fl):
            if not isinstance(v.t, Term) and not isinstance(v.t, str):
                out.append((s, Fl(abs(v.t))))
            elif isinstance(v.t, Term) and v.t.op == 'i2d':
                t, fl = s.fork(c_ge(v.t.args[0]))
                out += [(x, v) for x in t] + [(x, i2d(-v.t.args[0])) for x in fl]
            else:
                out.append((s, Fl(Term('fabs', v.t))))
        else:
            I.giveup('abs of %r' % (v,), node)
    return out


FABS = FREE['std::abs']
for _n in ('abs', 'labs', 'llabs', 'fabs'):
    FREE[_n] = FABS


def fl1(name):
    def h(I, st, f, args, node):
        out = []
        for s, v in I.rv(st, args[0], node):
            x = v if isinstance(v, Fl) else i2d(v)
            if name in ('ceil', 'floor', 'round', 'trunc') and isinstance(x.t, Term) and x.t.op == 'i2d':
                out.append((s, x))
            elif name in ('ceil', 'floor', 'trunc') and isinstance(x.t, float) and x.t == x.t and abs(x.t) < 1e300:
                import math
                out.append((s, Fl(float(getattr(math, name)(x.t)))))
            elif name in ('log10', 'log2', 'sqrt') and isinstance(x.t, float) and 0 < x.t < 1e300:
                import math
                out.append((s, Fl(getattr(math, name)(x.t))))
            else:
                out.append((s, Fl(Term(name, x.t if isinstance(x.t, Term) else Term('fl', repr(x.t))))))
        return out
    return h


for _n in ('sqrt', 'log', 'log10', 'log2', 'exp', 'sin', 'cos', 'tan', 'ceil', 'floor', 'round', 'trunc', 'cbrt'):
    FREE['std::' + _n] = fl1(_n)
    FREE[_n] = fl1(_n)


def fl2(name):
    def h(I, st, f, args, node):
        out = []
        for s, (a, b) in vals(I, st, args, node):
            x = a if isinstance(a, Fl) else i2d(a)
            y = b if isinstance(b, Fl) else i2d(b)
            if name == 'pow' and isinstance(x.t, float) and isinstance(y.t, float) and not math.isinf(y.t) and y.t == int(y.t) and abs(y.t) < 10 ** 7:
                try:
                    out.append((s, Fl(x.t ** y.t)))
                    continue
                except OverflowError:
                    out.append((s, Fl(math.inf if x.t > 0 or y.t % 2 == 0 else -math.inf)))
                    continue
                except ZeroDivisionError:
                    pass
            tt = lambda v: v.t if isinstance(v.t, Term) else Term('fl', repr(v.t))
            out.append((s, Fl(Term(name, tt(x), tt(y)))))
        return out
    return h


for _n in ('pow', 'hypot', 'atan2', 'fmod', 'copysign', 'fmax', 'fmin'):
    FREE['std::' + _n] = fl2('d' + _n if _n == 'fmod' else _n)
    FREE[_n] = FREE['std::' + _n]


@free('__builtin_inff', '__builtin_inf', '__builtin_huge_val', '__builtin_huge_valf', '__builtin_nanf', '__builtin_nan')
def f_special(I, st, f, args, node):
    return [(st, Fl(math.nan if 'nan' in f['name'] else math.inf))]


for _n in ('__builtin_inff', '__builtin_inf', '__builtin_huge_val', '__builtin_huge_valf', '__builtin_nanf', '__builtin_nan'):
    FREE[_n] = FREE['std::' + _n]


@free('isnan', 'isinf', 'isfinite')
def f_isnan(I, st, f, args, node):
    out = []
    for s, v in I.rv(st, args[0], node):
        if isinstance(v, Fl) and isinstance(v.t, Term):
            out.append((s, ('atom', Term(f['name'], v.t))))
        else:
            I.giveup('isnan', node)
    return out


@free('strlen')
def f_strlen(I, st, f, args, node):
    return [(s, s.nl(pslen(ps))) for s, ps in cstr_pieces(I, st, args[0], node)]


FREE['strlen'] = FREE['std::strlen']


@free('strcmp')
def f_strcmp(I, st, f, args, node):
    out = []
    for s, a in cstr_pieces(I, st, args[0], node):
        for s2, b in cstr_pieces(I, s, args[1], node):
            out.append((s2, Obj('ord', new_string(a), new_string(b))))
    return out


FREE['strcmp'] = FREE['std::strcmp']


def ctype(name, ranges):
    def h(I, st, f, args, node):
        out = []
        for s, v in I.rv(st, args[0], node):
            if is_cond(v):
                I.giveup(name, node)
            # argument must be EOF or an unsigned char value
            g, b = s.fork(c_and(c_ge(v + 1), c_ge(L(255) - v)))
            for x in b:
                # glibc tables extend down to -128: defined in practice for any char
                g2 = x.assume(c_and(c_ge(v + 128), c_ge(L(255) - v)))
                for y in x.assume(c_and(c_ge(v + 128), c_ge(L(255) - v)), False):
                    I.ub(y, name + ' called with a value outside the character range', node)
                for y in g2:
                    out.append((y, ctype_cond(v, ranges)))
            for x in g:
                out.append((x, ctype_cond(v, ranges)))
        return out
    return h


def ctype_cond(v, ranges):
    c = False
    for lo, hi in ranges:
        c = c_or(c, c_and(c_ge(L(v) - lo), c_ge(L(hi) - v)))
    return c


D, UP, LOW = (48, 57), (65, 90), (97, 122)
for _n, _r in {'isdigit': [D], 'isalpha': [UP, LOW], 'isupper': [UP], 'islower': [LOW], 'isalnum': [D, UP, LOW], 'isspace': [(9, 13), (32, 32)], 'isblank': [(9, 9), (32, 32)],
               'iscntrl': [(0, 31), (127, 127)], 'isprint': [(32, 126)], 'isgraph': [(33, 126)], 'ispunct': [(33, 47), (58, 64), (91, 96), (123, 126)], 'isxdigit': [D, (65, 70), (97, 102)]}.items():
    FREE[_n] = ctype(_n, _r)
    FREE['std::' + _n] = FREE[_n]


def tocase(name, lo, hi, d):
    def h(I, st, f, args, node):
        out = []
        for s, v in I.rv(st, args[0], node):
            t, fl = s.fork(c_and(c_ge(v - lo), c_ge(L(hi) - v)))
            out += [(x, x.nl(v + d)) for x in t] + [(x, v) for x in fl]
        return out
    return h


for _n, _a in {'toupper': (97, 122, -32), 'tolower': (65, 90, 32)}.items():
    FREE[_n] = tocase(_n, *_a)
    FREE['std::' + _n] = FREE[_n]


def traits(fn):
    def h(I, st, f, args, node):
        out = [(st, [])]
        for a in args:
            out = [(s1, vs + [v]) for s, vs in out for s1, v in I.rv(s, a, node)]
        r = []
        for s, vs in out:
            if not all(isinstance(v, Lin) for v in vs):
                I.giveup('a character trait of %r' % (vs,), node)
            r += fn(s, *vs)
        return r
    return h


FREE['std::char_traits::eof'] = traits(lambda s: [(s, L(-1))])
FREE['std::char_traits::eq_int_type'] = FREE['std::char_traits::eq'] = traits(lambda s, a, b: [(s, c_eq(a - b))])
FREE['std::char_traits::to_int_type'] = traits(lambda s, a: [(y, a) for y in s.fork(c_ge(a))[0]] + [(y, a + 256) for y in s.fork(c_ge(a))[1]])
FREE['std::char_traits::to_char_type'] = traits(lambda s, a: [(y, a) for y in s.fork(c_ge(L(127) - a))[0]] + [(y, a - 256) for y in s.fork(c_ge(L(127) - a))[1]])
FREE['std::char_traits::not_eof'] = traits(lambda s, a: [(y, a) for y in s.fork(c_eq(a + 1))[1]] + [(y, L(0)) for y in s.fork(c_eq(a + 1))[0]])


@free('getline')
def f_getline(I, st, f, args, node):
    from . import istreams
    return istreams.getline(I, st, args, node)


@free('setw', 'setfill')
def f_setw(I, st, f, args, node):
    return [(s, Obj('manip', f['name'], s.nl(v))) for s, v in I.rv(st, args[0], node)]


@free('to_string')
def f_tostring(I, st, f, args, node):
    out = []
    for s, v in I.rv(st, args[0], node):
        t = Term('text', val_term(s, Obj('num', 'int' if isinstance(v, Lin) else 'double', v)))
        ln = L(Term('textlen', t))
        s.add_ge(ln - 1)
        s.add_ge(L(20) - ln)
        out.append((s, new_string((('op', t, ln),))))
    return out


# ---------------------------------------------------------------- double to integer

def d2i(I, st, v, t, node):
    if isinstance(v, Unknown):
        return [(st, v)]
    lo, hi = int_range(t)
    x = v.t
    l = None
    if isinstance(x, float):
        l = Lin(int(x)) if abs(x) < 1e18 else None
    elif isinstance(x, Term):
        l = fl_as_int(I, st, x)
    if l is None:
        key = x if isinstance(x, Term) else Term('fl', repr(x))
        st.ev = st.ev + (('d2i', I.loc(node)),)
        r = L(Term('d2i', key))
        st.add_ge(r - lo)
        st.add_ge(L(hi) - r)
        return [(st, r)]
    l = st.nl(l)
    g, b = st.fork(c_and(c_ge(l - lo), c_ge(L(hi) - l)))
    for y in b:
        I.ub(y, 'floating value does not fit the integer type', node)
    return [(y, l) for y in g]


def fl_as_int(I, st, x):
    """exact integer denoted by a floating term, when its operands are exactly representable"""
    if x.op == 'i2d':
        return x.args[0]
    if x.op in ('f+', 'f-', 'f*', 'fneg'):
        ls = [fl_exact(st, y) if isinstance(y, Term) and y.op in ('i2d', 'fl') else fl_as_int(I, st, y) if isinstance(y, Term) else None for y in x.args]
        lim = 2**52
        if all(y is not None and st.decide(c_and(c_ge(y + lim), c_ge(lim - y))) is True for y in ls):
            r = -ls[0] if x.op == 'fneg' else ls[0] + ls[1] if x.op == 'f+' else ls[0] - ls[1] if x.op == 'f-' else ls[0] * ls[1]
            if st.decide(c_and(c_ge(r + lim), c_ge(lim - r))) is True:
                return r
        return None
    if x.op in ('floor', 'ceil', 'trunc', 'round'):
        y = x.args[0]
        if y.op == 'i2d':
            return y.args[0]
        if y.op == 'log10' and isinstance(y.args[0], Term) and y.args[0].op == 'i2d' and x.op in ('floor', 'trunc'):
            z = st.nl(y.args[0].args[0])
            for k in range(15):
                if st.decide(c_and(c_ge(z - 10**k), c_ge(L(10**(k + 1) - 1) - z))) is True:
                    return Lin(k)
        if y.op == 'f/' and x.op in ('floor', 'ceil'):
            a, b = fl_exact(st, y.args[0]), fl_exact(st, y.args[1])
            if a is not None and b is not None and st.decide(c_ge(b - 1)) is True:
                lim = 2**31
                if all(st.decide(c_and(c_ge(z + lim), c_ge(lim - z))) is True for z in (a, b)):
                    if x.op == 'floor':
                        q, r = t_fdiv(a, b), t_fmod(a, b)
                        I.divax(st, a, b, r, q)
                        return q
                    q, r = t_fdiv(-a, b), t_fmod(-a, b)
                    I.divax(st, -a, b, r, q)
                    return -q
    return None


def fl_exact(st, x):
    if isinstance(x, Term):
        if x.op == 'i2d':
            return st.nl(x.args[0])
        if x.op == 'fl':
            try:
                v = float(x.args[0])
                return Lin(int(v)) if v == int(v) else None
            except (ValueError, OverflowError):
                return None
    return None
