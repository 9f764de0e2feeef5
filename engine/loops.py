"""Loop summaries.

A loop is never unrolled unless its bounds are constants of the program.  Otherwise its effect is computed from ONE
generic iteration number k: every location the body modifies gets a closed form in k (affine progress, appended or
tiled pieces, element-wise map, filter/count by a predicate of the k-th element), the guards of the generic iteration
give the first exiting iteration, and the summary is the closed form at that iteration.  Loops outside this shape make
the enclosing function undecided.
"""
import os
import re
import sys
from .dom import *
from .interp import int_range
from . import stdlib

CONST_TRIPS = 80
KSYM = Term('sym', '$k')


class NoSummary(Giveup):
    pass


# ---------------------------------------------------------------- drivers

def run(I, st, node, cond, inc, body, do):
    def step(s, first=False):
        """one iteration.  list of (state, kind, value), kind n(continue) x(condition false) b r"""
        env = dict(s.env)
        out = []
        todo = []
        if cond is not None and not (do and first):
            for s1, c in I.ev_rv(s, cond):
                cc = I.to_cond(c, node)
                t, f = s1.fork(cc)
                out += [(x, 'x', None) for x in f]
                todo += t
        else:
            todo = [s]
        for s1 in todo:
            for s2, k, v in I.ex(s1, body):
                if k in ('n', 'c'):
                    if inc is not None:
                        for s3, _ in I.ev(s2, inc):
                            s3.env = dict(env)
                            out.append((s3, 'n', None))
                    else:
                        s2.env = dict(env)
                        out.append((s2, 'n', None))
                else:
                    out.append((s2, k, v))
        for s1, k, v in out:
            if k != 'r':
                s1.env = dict(env)
        return out

    def cond_known(s):
        if cond is None:
            return True
        r = I.ev_rv(s.copy(), cond)
        if len(r) != 1:
            return None
        return r[0][0].decide(I.to_cond(r[0][1], node))

    if I.unroll:
        return unrolled(I, st, step, do, node)
    h = I.loop_hook
    if h:
        r = h(I, st, node, step, cond, inc, body, do)
        if r is not None:
            return r
    if do:
        # first iteration unconditionally, then a while loop
        out = []
        for s, k, v in step(st, True):
            if k == 'n':
                out += loop(I, s, step, cond_known, node)
            else:
                out.append((s, 'n' if k in ('b', 'x') else k, v))
        return out
    return loop(I, st, step, cond_known, node)


class Lasso(Exception):
    """an iteration that leads back to the state it started from, without a new condition: it is repeated for ever"""

    def __init__(self, st, line):
        Exception.__init__(self, 'line %s' % line)
        self.st, self.line = st, line


ROOT = re.compile(r"[^\s&(),\[\]{}'=~<>:]+~\d+")


def state_key(st, skip=()):
    """everything the rest of the loop can depend on, up to the names of temporaries"""
    names, todo = {}, []

    def name(m):
        r = m.group(0)
        if r not in names:
            names[r] = 'r%d' % len(names)
            todo.append(r)
        return names[r]
    parts = [repr(st.this), repr(len(st.ev)), repr(sorted((x for x in st.env.items() if x[0] not in skip), key=lambda x: repr(x[0])))]
    parts += ['%s=%r' % (r, v) for r, v in sorted(st.store.items()) if '~' not in r]
    parts = [ROOT.sub(name, p) for p in parts]
    while todo:
        r = todo.pop(0)
        parts.append('%s=%s' % (names[r], ROOT.sub(name, repr(st.store[r]) if r in st.store else 'unknown %r' % object())))
    return '\n'.join(parts)


COLLECT = {'push_back', 'emplace_back', 'append', 'operator+='}


def accumulators(I, node):
    """variables that an iteration only adds to: nothing in the loop depends on them"""
    if not isinstance(node, dict):
        return ()
    memo = I.__dict__.setdefault('accs', {})
    if id(node) not in memo:
        seen, read = set(), set()

        def walk(n, ok=None):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k == 'var':
                seen.add(n.get('id'))
                if n is not ok:
                    read.add(n.get('id'))
                return
            target = None
            if k == 'expr' and isinstance(n.get('e'), dict):
                e = n['e']
                while e.get('k') == 'cast' and isinstance(e.get('e'), dict):
                    e = e['e']
                if e.get('k') == 'un' and e.get('op') in ('++', '--'):
                    target = e.get('e')
                elif e.get('k') == 'opassign':
                    target = e.get('a')
                elif e.get('k') == 'call' and (e.get('f') or {}).get('name') in COLLECT:
                    target = e.get('obj') or (e.get('args') or [None])[0]
            if isinstance(target, dict) and target.get('k') == 'var' and target.get('t') == target.get('vt'):
                seen.add(target.get('id'))

                def inner(x):
                    if x is target:
                        return
                    if isinstance(x, list):
                        for y in x:
                            inner(y)
                    elif isinstance(x, dict):
                        if x.get('k') == 'var':
                            seen.add(x.get('id'))
                            read.add(x.get('id'))
                        else:
                            for y in x.values():
                                inner(y)
                inner(n['e'])
                return
            for x in n.values():
                if isinstance(x, (dict, list)):
                    walk(x)
        walk([n for q, n in node.items() if q != 'init'])
        memo[id(node)] = seen - read
    return memo[id(node)]


def chained(I, chain, st, node):
    """states on the way to this one; an equal one is a lasso"""
    if not I.lasso:
        return chain
    k = state_key(st, accumulators(I, node))
    if k in chain and not st.empty():
        raise Lasso(st, node.get('l') if isinstance(node, dict) else None)
    return chain + (k,)


def unrolled(I, st, step, do, node=None):
    """every path of at most I.unroll iterations"""
    out = []
    work = [(st, 0, chained(I, (), st, node))]
    while work:
        s, n, chain = work.pop()
        if s.empty():
            continue
        if n > I.unroll or len(out) + len(work) > 1500:
            I.partial = True
            continue
        for s2, k, v in step(s, n == 0):
            if k == 'n':
                work.append((s2, n + 1, chained(I, chain, s2, node)))
            else:
                out.append((s2, 'n' if k in ('b', 'x') else k, v))
    return out


def loop(I, st, step, cond_known, node):
    if I.unroll:
        return unrolled(I, st, lambda s, first: step(s), False, node)
    if I.fill_hook is not None:
        try:
            with Capture(I) as cap:
                r = I.fill_hook(I, st, step, node)
                cap.commit()
                return r
        except Giveup as e:
            if os.environ.get('VT_FILL'):
                print('fill:', e)
    return accel_forked(I, st, step, cond_known, node, 0)


def accel_forked(I, st, step, cond_known, node, depth):
    """products of unknowns: retry with the sign of a factor decided"""
    r = const_loop(I, st, step, cond_known, node)
    if r is not None:
        return r
    if I.digit_domain and depth == 0:
        from . import digits
        known = I.strategy.get(id(node))
        if known == 'digits':
            # the strategy that summarised this loop before is tried first
            with Capture(I) as cap:
                r = digits.accelerate(I, st, step, node)
                if r is not None:
                    cap.commit()
                    return r
        if known != 'plain':
            r = digits.exact(I, st, step, node)
            if r is not None:
                return r
    try:
        with Capture(I) as cap:
            r = accelerate(I, st, step, node)
            cap.commit()
            if I.digit_domain and depth == 0:
                I.strategy[id(node)] = 'plain'
            return r
    except Giveup as e:
        if not isinstance(e, NoSummary) and not I.digit_domain or depth >= 4:
            raise
        if depth == 0 and I.digit_domain:
            from . import digits
            with Capture(I) as cap:
                r = digits.accelerate(I, st, step, node)
                if r is not None:
                    I.strategy[id(node)] = 'digits'
                    cap.commit()
                    return r
        if I.strategy.get(id(node)) == 'plain':
            del I.strategy[id(node)]
            return accel_forked(I, st, step, cond_known, node, depth)
        for c in st.cons:
            for m, _ in c.t:
                if m.op == '*':
                    for f in sorted(m.args * 2, key=lambda f: f.op != 'sym'):
                        g = c_eq(L(f))
                        if st.decide(g) is False:
                            g = c_eq(L(f) - 1)
                        if st.decide(g) is None:
                            out = []
                            for want in (True, False):
                                for x in st.assume(g, want):
                                    out += accel_forked(I, x, step, cond_known, node, depth + 1)
                            return out
        raise


def const_loop(I, st, step, cond_known, node):
    """loops whose trip count is a program constant"""
    try:
        if cond_known(st) is None:
            return None
    except Giveup:
        return None
    with Capture(I) as cap:
        out = []
        work = [(st.copy(), 0, chained(I, (), st, node))]
        ok = True
        while work:
            s, n, chain = work.pop()
            if n > (3 if I.digit_domain else CONST_TRIPS):
                ok = False
                break
            ck = cond_known(s)
            if ck is None:
                ok = False
                break
            if ck is True and trivially_true(I, s, cond_known) and n > 3 and len(work) + len(out) > 8:
                ok = False
                break
            try:
                res = step(s)
            except Giveup:
                if n == 0:
                    raise
                ok = False
                break
            for s2, k, v in res:
                if k == 'n':
                    work.append((s2, n + 1, chained(I, chain, s2, node)))
                else:
                    out.append((s2, 'n' if k in ('b', 'x') else k, v))
            if len(out) + len(work) > 400:
                ok = False
                break
        if ok:
            cap.commit()
            note(I, node, 'constant trip count')
            return out
    return None


def trivially_true(I, s, ck):
    return False


class Capture:
    """collect throw/UB outcomes produced by a trial; merged into the analysis only on commit"""

    def __init__(self, I):
        self.I = I

    def __enter__(self):
        self.saved_ubs = self.I.ubs
        self.I.ubs = []
        self.I.throws.append([])
        self.done = False
        return self

    def commit(self):
        self.done = True

    def __exit__(self, *a):
        th = self.I.throws.pop()
        ub = self.I.ubs
        self.I.ubs = self.saved_ubs
        if self.done and a[0] is None:
            self.I.throws[-1].extend(th)
            self.I.ubs.extend(ub)
        return False


def note(I, node, how):
    I.loops_seen.append(I.loc(node) + (how,))


# ---------------------------------------------------------------- locations

def diff_paths(a, b, path=()):
    """paths at which two values differ"""
    if a is b or a == b:
        return []
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        out = []
        for k in sorted(set(a.f) | set(b.f), key=str):
            if k == '__id':
                continue
            out += diff_paths(a.f.get(k), b.f.get(k), path + (('f', k),))
        return out
    return [path]


def get_path(v, path):
    for c in path:
        v = v.f[c[1]]
    return v


def set_path(v, path, x):
    if not path:
        return x
    d = dict(v.f)
    d[path[0][1]] = set_path(d[path[0][1]], path[1:], x)
    d.pop('__id', None)
    return Struct(v.cls, d)


def loc_range(I, lc, st):
    """value range of the C++ type stored at a location"""
    ti = None
    if not lc.path:
        m = re.search(r'@(\d+)~', lc.root)
        if m:
            ti = int(m.group(1))
    else:
        v = st.store[lc.root]
        for c in lc.path[:-1]:
            v = v.f[c[1]]
        for r in I.P.records.values():
            if r['name'] == v.cls:
                for f in r['fields']:
                    if f['name'] == lc.path[-1][1]:
                        ti = f['type']
    if ti is None:
        return None
    t = I.P.strip(ti)
    if t['k'] in ('int', 'bool', 'enum'):
        return int_range(t)
    return None


class Loc:
    def __init__(self, root, path, v0):
        self.root, self.path, self.v0 = root, path, v0
        self.kind = None

    def get(self, st):
        return get_path(st.store[self.root], self.path)

    def put(self, st, v):
        st.store[self.root] = set_path(st.store[self.root], self.path, v)

    def __repr__(self):
        return '%s%s' % (self.root, ''.join('.' + c[1] for c in self.path))


def entry_diff(st0, s):
    out = []
    for r, v in st0.store.items():
        if r in s.store and not (s.store[r] is v):
            out += [(r, p) for p in diff_paths(v, s.store[r])]
    return out


def seq_pieces(v):
    return v.toks if isinstance(v, OStream) else v.p


def seq_with(v, ps):
    return OStream(ps, v.flags) if isinstance(v, OStream) else v.with_p(ps)


def mentions(x, syms):
    ts = set()
    subterms_val(x, ts)
    return bool(ts & syms)


def subterms_val(x, out):
    if isinstance(x, (Lin, Term, tuple)):
        if isinstance(x, tuple):
            for a in x:
                subterms_val(a, out)
        else:
            subterms(x, out)
    elif isinstance(x, (El, Fl)):
        if isinstance(x.t, Term):
            subterms(x.t, out)
    elif isinstance(x, Seq):
        subterms_val(x.p, out)
    elif isinstance(x, OStream):
        subterms_val(x.toks, out)
    elif isinstance(x, Struct):
        for v in x.f.values():
            subterms_val(v, out)
    elif isinstance(x, Iter):
        subterms_val(x.pos, out)
        subterms_val(x.addr.path, out)
    elif isinstance(x, Obj):
        for v in x.a:
            subterms_val(v, out)


def subst_val(x, m):
    if isinstance(x, (Lin, Term)):
        return subst_any(x, m)
    if isinstance(x, tuple):
        return tuple(subst_val(a, m) for a in x)
    if isinstance(x, El):
        t = subst_any(x.t, m)
        return El(t) if isinstance(t, Term) else El(Term('lin', t))
    if isinstance(x, Fl):
        return Fl(subst_any(x.t, m)) if isinstance(x.t, Term) else x
    if isinstance(x, Seq):
        return x.with_p(subst_val(x.p, m))
    if isinstance(x, OStream):
        return OStream(subst_val(x.toks, m), x.flags)
    if isinstance(x, Struct):
        return Struct(x.cls, {k: subst_val(v, m) for k, v in x.f.items()})
    if isinstance(x, Iter):
        return Iter(Addr(x.addr.root, tuple(subst_val(c, m) if c[0] == 'e' else c for c in x.addr.path)), subst_any(x.pos, m), x.rev, x.const, x.ptr, x.gen)
    if isinstance(x, Obj):
        return Obj(x.tag, *[subst_val(v, m) for v in x.a])
    return x


# ---------------------------------------------------------------- acceleration

def accelerate(I, st0, step, node, depth=0, peeled=0):
    if depth > 8:
        raise NoSummary('loop with too many invariant conditions at %s:%s' % I.loc(node)[:2])
    mods, paths = discover(I, st0, step, node)
    locs = []
    for (r, p) in sorted(mods, key=repr):
        locs.append(Loc(r, p, get_path(st0.store[r], p)))
    # ---- closed forms from a havocked iteration
    hs, hsyms, hmap = havoc(I, st0, locs, {})
    with Capture(I):
        res = step(hs)
    conts = [s for s, k, v in res if k == 'n']
    if not conts:
        # the body always leaves the loop: execute it once
        with Capture(I) as cap:
            cap.commit()
            out = [(s, 'n' if k in ('b', 'x') else k, v) for s, k, v in step(st0.copy())]
        if any(k == 'n' and kk == 'n' for (s, kk, v), (_, k, _) in zip(out, [])):
            raise NoSummary('loop')
        note(I, node, 'at most one iteration')
        return out
    need_len = False
    for lc in sorted(locs, key=lambda lc: isinstance(lc.v0, (Seq, OStream))):
        classify(I, lc, hs, conts, hsyms, hmap, locs)
    k0 = None
    if any(lc.kind == 'unknown' for lc in locs) and any(lc.kind in ('lin', 'iter') for lc in locs):
        # second round: affine variables carry their closed form, so that their range is known
        k0 = fresh('k')
        hs, hsyms, hmap = havoc(I, st0, locs, {}, L(k0))
        with Capture(I):
            res = step(hs)
        conts = [s for s, k, v in res if k == 'n']
        for lc in locs:
            if lc.kind == 'unknown':
                classify(I, lc, hs, conts, hsyms, hmap, locs, k0)
                if os.environ.get('VT_DEBUG') and lc.kind == 'unknown':
                    for s in conts:
                        print('unknown', lc, lc.v0, '->', lc.get(s), s.cons, file=sys.stderr)
    bad = [lc for lc in locs if lc.kind == 'const']
    if bad and peeled < 1:
        # constant after the first iteration: execute the first iteration separately
        out = []
        with Capture(I) as cap:
            for s, k, v in step(st0.copy()):
                if k == 'n':
                    out += accelerate(I, s, step, node, depth, peeled + 1)
                else:
                    out.append((s, 'n' if k in ('b', 'x') else k, v))
            cap.commit()
        return out
    for lc in locs:
        if lc.kind in ('const', 'unknown'):
            if os.environ.get('VT_DEBUG'):
                for x in conts:
                    print('NOFORM', lc, lc.kind, lc.v0, '->', lc.get(x), x.cons, x.sub, file=sys.stderr)
            raise NoSummary('no closed form for %r in the loop at %s:%s' % ((lc,) + I.loc(node)[:2]))
    # ---- generic iteration k
    k = fresh('k')
    K = L(k)
    sk = st0.copy()
    sk.add_ge(K)
    m = {}
    if k0 is not None:
        m[k0] = K
    for lc in locs:
        if lc.kind in ('lin', 'iter'):
            m[lc.h] = (lc.v0 if lc.kind == 'lin' else lc.v0.pos) + lc.delta * K
    for lc in locs:
        if lc.kind == 'cnt':
            lc.accsym = fresh('acc')
            sk.add_ge(L(lc.accsym))
            sk.add_ge(K - L(lc.accsym))
            m[lc.h] = (lc.v0 if isinstance(lc.v0, Lin) else lc.v0.pos) + L(lc.accsym)
    sk2 = sk
    for lc in locs:
        if lc.kind in ('lin', 'cnt') and isinstance(lc.v0, Lin):
            lc.put(sk2, m[lc.h])
            rg = loc_range(I, lc, sk2)
            if rg:
                sk2.add_ge(m[lc.h] - rg[0])
                sk2.add_ge(L(rg[1]) - m[lc.h])
        elif lc.kind in ('iter', 'cnt'):
            lc.put(sk2, Iter(lc.v0.addr, m[lc.h], lc.v0.rev, lc.v0.const, lc.v0.ptr, lc.v0.gen))
    states = [sk2]
    for lc in locs:
        if lc.kind == 'append':
            lc.acc = Term('acc', k, repr(lc))
            lc.acclen = L(Term('acclen', k, repr(lc)))
            for s in states:
                s.add_ge(lc.acclen)
                ps = (('op', lc.acc, lc.acclen),)
                lc.put(s, seq_with(lc.v0, seq_pieces(lc.v0) + ps if lc.back else ps + seq_pieces(lc.v0)))
        elif lc.kind == 'tile':
            lc.acc = Term('acc', k, repr(lc))
            lo = subst_lin(lc.lo, m)
            hi = subst_lin(lc.hi, m)
            lo0 = subst_any(lo, {k: ZERO})
            nxt = subst_any(lo, {k: K + 1})
            lc.lok, lc.hik, lc.lo0 = lo, hi, L(lo0)
            if not sk.entails_eq(L(nxt) - hi):
                raise NoSummary('overlapping writes in the loop at %s:%s' % I.loc(node)[:2] + (' %r %r %r' % (lo, hi, nxt)))
            n = slen(lc.v0)
            lc.rest = Term('rest', lc.acc)
            for s in states:
                if not s.entails_ge(lc.lo0) or not s.entails_ge(n - lc.lo0):
                    raise NoSummary('tile start outside the sequence at %s:%s' % I.loc(node)[:2])
                head = split(s, lc.v0.p, lc.lo0)
                if len(head) != 1:
                    raise NoSummary('tile start at %s:%s' % I.loc(node)[:2])
                lc.head = head[0][1]
                tail = (('op', lc.rest, s.nl(n - lo)),)
                lc.direct = False
                if len(head[0][2]) == 1 and head[0][2][0][0] in ('sl', 'rv', 'st', 'fill'):
                    lc.direct = True
                    d = s.nl(lo - lc.lo0)
                    tail = (cut(s, head[0][2][0], d)[1],)
                lc.put(s, lc.v0.with_p(lc.head + (('op', lc.acc, s.nl(lo - lc.lo0)),) + tail))
    out = []
    for s in states:
        out += summarise(I, st0, s, k, locs, step, node, depth, peeled)
    return out


def discover(I, st0, step, node):
    """fixpoint of the set of locations modified by an iteration"""
    mods = set()
    for rnd in range(6):
        locs = [Loc(r, p, get_path(st0.store[r], p)) for r, p in mods]
        hs, _, _ = havoc(I, st0, locs, {})
        ref = hs.copy()
        with Capture(I):
            res = step(hs)
        new = set(mods)
        for s, k, v in res:
            if k == 'n':
                for r, p in entry_diff(ref, s):
                    # values equal modulo normalisation are not modifications
                    if (r, p) not in new and not any(r == r2 and p[:len(p2)] == p2 for r2, p2 in new):
                        a, b = get_path(ref.store[r], p), get_path(s.store[r], p)
                        if isinstance(a, Lin) and isinstance(b, Lin) and s.nl(a - b) == ZERO:
                            continue
                        new.add((r, p))
        if new == mods:
            return mods, res
        mods = new
    raise NoSummary('modified locations do not stabilise at %s:%s' % I.loc(node)[:2])


def havoc(I, st0, locs, opts, K=None):
    s = st0.copy()
    syms = set()
    hmap = {}
    if K is not None:
        s.add_ge(K)
    for lc in locs:
        v = lc.v0
        if K is not None and lc.kind == 'lin':
            lc.put(s, v + lc.delta * K)
            rg = loc_range(I, lc, s)
            if rg:
                s.add_ge(v + lc.delta * K - rg[0])
                s.add_ge(L(rg[1]) - v - lc.delta * K)
            continue
        if K is not None and lc.kind == 'iter':
            lc.put(s, Iter(v.addr, v.pos + lc.delta * K, v.rev, v.const, v.ptr, v.gen))
            continue
        h = fresh('h')
        lc.h = h
        syms.add(h)
        if isinstance(v, Lin):
            lc.put(s, L(h))
            rg = loc_range(I, lc, s)
            if rg:
                s.add_ge(L(h) - rg[0])
                s.add_ge(L(rg[1]) - L(h))
        elif isinstance(v, Iter):
            lc.put(s, Iter(v.addr, L(h), v.rev, v.const, v.ptr, v.gen))
        elif isinstance(v, (Seq, OStream)):
            b = Term('base', h)
            n = pslen(seq_pieces(v))
            if opts.get((lc.root, lc.path)) == 'len' or isinstance(v, OStream):
                n = L(Term('len', b))
                s.add_ge(n)
                syms.add(Term('len', b))
            lc.put(s, seq_with(v, (('sl', b, ZERO, n),)))
            syms.add(b)
            lc.hn = n
        elif isinstance(v, El):
            lc.put(s, El(h))
        elif isinstance(v, Fl):
            lc.put(s, Fl(h))
        elif is_cond(v):
            lc.put(s, ('atom', h))
        elif isinstance(v, Unknown):
            # assigned in the body before use, or a genuinely uninitialised read
            lc.put(s, Unknown(v.why))
        else:
            lc.put(s, Unknown('loop-modified %s' % (getattr(v, 'tag', type(v).__name__))))
    return s, syms, hmap


def classify(I, lc, hs, conts, hsyms, hmap, locs, k0=None):
    shift = {x.h: L(x.h) + x.delta for x in locs if x.kind in ('lin', 'iter')}
    if k0 is not None:
        shift[k0] = L(k0) + 1
    v0 = lc.v0
    news = [lc.get(s) for s in conts]
    if isinstance(v0, Lin) or isinstance(v0, Iter):
        ds = []
        for s, n in zip(conts, news):
            if isinstance(v0, Iter):
                if not isinstance(n, Iter) or n.addr != v0.addr or n.rev != v0.rev:
                    lc.kind = 'unknown'
                    return
                n = n.pos
            if not isinstance(n, Lin):
                lc.kind = 'unknown'
                return
            d = n - L(lc.h)
            if mentions(d, hsyms):
                d2 = s.nl(d)
                d = d2
            ds.append((s, n, d))
        if all(not mentions(d, hsyms) and d == ds[0][2] for s, n, d in ds):
            lc.kind = 'lin' if isinstance(v0, Lin) else 'iter'
            lc.delta = ds[0][2]
            return
        vals_ = {d for s, n, d in ds}
        if all(d.is_const() for d in vals_) and vals_ <= {ZERO, ONE}:
            lc.kind = 'cnt'
            lc.paths = [(s, d) for s, n, d in ds]
            return
        if all(not mentions(n, hsyms) for s, n, d in ds) and len({n for s, n, d in ds}) == 1:
            lc.kind = 'const'
            return
        lc.kind = 'unknown'
        return
    if isinstance(v0, (Seq, OStream)):
        b = Term('base', lc.h)
        kinds = []
        for s, n in zip(conts, news):
            if not isinstance(n, (Seq, OStream)) or (isinstance(n, OStream) and n.flags != v0.flags):
                # (formatting state set in the first iteration: the loop is entered with it after peeling)
                lc.kind = 'const' if isinstance(n, OStream) else 'unknown'
                return
            ps = simp(s, seq_pieces(n))
            kinds.append(shape(s, ps, b, s.nl(lc.hn)))
        if any(k is None for k in kinds):
            lc.kind = 'unknown'
            return
        tags = {k[0] for k in kinds if k[0] != 'same'}
        if not tags:
            lc.kind = 'append'
            lc.back = True
            return
        if tags == {'append'} or tags == {'prepend'}:
            lc.kind = 'append'
            lc.back = tags == {'append'}
            return
        cands = []
        for kd in kinds:
            if kd[0] == 'tile' and kd[1:3] not in cands:
                cands.append(kd[1:3])
        cands.sort(key=lambda c: -len(c[0].t) - len(c[1].t))
        for lo, hi in cands:
            if not hs.entails_eq(L(subst_any(lo, shift)) - hi):
                continue
            try:
                ok = all(tile_ok(s, seq_pieces(n), b, s.nl(lc.hn), lo, hi) for s, n in zip(conts, news))
            except Giveup:
                ok = False
            if ok:
                lc.kind = 'tile'
                lc.lo, lc.hi = lo, hi
                return
        lc.kind = 'unknown'
        return
    if len({repr(n) for n in news}) == 1 and not mentions(news[0], hsyms):
        lc.kind = 'const'
        return
    lc.kind = 'unknown'


def tile_ok(s, ps, b, n, lo, hi):
    """outside [lo, hi) the sequence keeps its previous content sl(b,0,n)"""
    if s.decide(c_eq(pslen(ps) - n)) is not True or s.decide(c_ge(lo)) is not True or s.decide(c_ge(hi - lo)) is not True or s.decide(c_ge(n - hi)) is not True:
        return False
    for a, z, lim in ((ZERO, lo, lo), (hi, n, n)):
        for s2, sub in seq_sub(s, ps, s.nl(a), s.nl(z)):
            if s2.empty():
                continue
            if not all(r for _, r in seq_cmp(s2, sub, (('sl', b, s2.nl(a), s2.nl(z)),))):
                return False
    return True


def shape(s, ps, b, n):
    """how a sequence changed relative to its previous content sl(b,0,n)"""
    hp = [i for i, p in enumerate(ps) if p[0] in ('sl', 'rv', 'st') and p[1] is b]
    if len(ps) == 1 and hp and ps[0][0] == 'sl' and s.nl(ps[0][2]) == ZERO and s.nl(ps[0][3] - n) == ZERO:
        return ('same',)
    if not hp:
        if s.decide(c_eq(n)) is True:
            return ('append', ps)
        if s.entails_eq(pslen(ps) - n):
            return ('tile', ZERO, n)
        return None
    if len(hp) == 1 and ps[hp[0]][0] == 'sl' and s.nl(ps[hp[0]][2]) == ZERO and s.nl(ps[hp[0]][3] - n) == ZERO:
        if hp[0] == 0:
            return ('append', ps[1:])
        if hp[0] == len(ps) - 1:
            return ('prepend', ps[:-1])
        return None
    # tiled write: prefix and suffix of the old content stay in place
    lo, hi = ZERO, n
    mid = list(ps)
    if mid and mid[0][0] == 'sl' and mid[0][1] is b and s.nl(mid[0][2]) == ZERO:
        lo = mid[0][3]
        mid = mid[1:]
    if mid and mid[-1][0] == 'sl' and mid[-1][1] is b and s.nl(mid[-1][3] - n) == ZERO:
        hi = mid[-1][2]
        mid = mid[:-1]
    if s.entails_eq(pslen(mid) - (hi - lo)):
        return ('tile', s.nl(lo), s.nl(hi))
    return None


class Path:
    pass


def guards(ref, s):
    out = []
    rc = set(ref.cons)
    for t, v in s.sub.items():
        if t not in ref.sub:
            out.append(('eq', L(t) - v))
    new = [l for l in s.cons if l not in rc]
    for l in new:
        if not entails([c for c in ref.cons], l):
            out.append(('ge', l))
    for a, b in s.atoms.items():
        if ref.atoms.get(a) != b:
            out.append(('atom', a) if b else ('not', ('atom', a)))
    return out


def gterm(g):
    return gterm(g[1]) if g[0] == 'not' else g[1]


def elem_terms(x, k):
    """'at' terms whose index depends on k"""
    ts = set()
    subterms(gterm(x) if isinstance(x, tuple) else x, ts)
    return {t for t in ts if t.op == 'at' and occurs(k, t.args[1])}


def classify_guard(g, k):
    t = gterm(g)
    if not occurs(k, t):
        return 'inv'
    if isinstance(t, Lin):
        direct = any(m is k or (m.op == '*' and k in m.args) for m, _ in t.t)
        ets = elem_terms(g, k)
        if ets:
            return 'pred' if not direct else 'mixed'
        return 'bound' if direct else 'other'
    return 'pred' if elem_terms(g, k) or True else 'other'


def coef_of(l, k):
    """l = A + B*k with B a Lin without k; None when not affine in k"""
    A, B = Lin(l.c), ZERO
    for m, v in l.t:
        if m is k:
            B = B + v
        elif m.op == '*' and k in m.args:
            fs = list(m.args)
            fs.remove(k)
            if k in fs:
                return None
            B = B + (Lin(0, ((fs[0], v),)) if len(fs) == 1 else Lin(0, ((Term('*', *fs), v),)))
        elif occurs(k, m):
            return None
        else:
            A = A + Lin(0, ((m, v),))
    return A, B


def summarise(I, st0, sk, k, locs, step, node, depth, peeled):
    K = L(k)
    I.throws.append([])
    saved_ubs, I.ubs = I.ubs, []
    try:
        res = step(sk.copy())
    finally:
        th = I.throws.pop()
        ubs = I.ubs
        I.ubs = saved_ubs
    paths = []
    for s, kind, v in res:
        p = Path()
        p.s, p.kind, p.v = s, kind, v
        p.g = guards(sk, s)
        paths.append(p)
    for s, e, l in th:
        p = Path()
        p.s, p.kind, p.v, p.l = s, 'throw', e, l
        p.g = guards(sk, s)
        paths.append(p)
    for s, w, l in ubs:
        p = Path()
        p.s, p.kind, p.v, p.l = s, 'ub', w, l
        p.g = guards(sk, s)
        paths.append(p)
    # at most m elements appended per iteration: the accumulated length is at most m*k
    again = False
    for lc in locs:
        if lc.kind != 'append' or lc.__dict__.get('bounded') or not any(p.kind == 'n' for p in paths):
            continue
        lc.bounded = True
        m_ = 0
        for p in paths:
            if p.kind != 'n':
                continue
            v = lc.get(p.s)
            if not isinstance(v, (Seq, OStream)):
                m_ = None
                break
            d = p.s.nl(pslen(seq_pieces(v)) - pslen(seq_pieces(lc.v0)) - lc.acclen)
            if not d.is_const() or d.c < 0:
                m_ = None
                break
            m_ = max(m_, d.c)
        if m_ is not None and not sk.entails_ge(K * m_ - lc.acclen):
            sk.add_ge(K * m_ - lc.acclen)
            again = True
    if again:
        return summarise(I, st0, sk, k, locs, step, node, depth, peeled)
    # loop-invariant conditions: analyse the loop separately under each value
    accs = {lc.acc for lc in locs if lc.kind in ('append', 'tile')} | {t for lc in locs if lc.kind == 'append' for t in lc.acclen.syms()} | {lc.accsym for lc in locs if lc.kind == 'cnt'}
    for p in paths:
        if p.kind == 'ub':
            continue
        for g in p.g:
            if classify_guard(g, k) == 'inv' and not mentions(gterm(g), accs) and not any(t.op in ('acc', 'acclen') for t in sub_of(gterm(g))) and not mentions(gterm(g), locals_of(p.s, st0, g)):
                if st0.decide(g) is None and closed(st0, g):
                    a, b = st0.copy().fork(g)
                    out = []
                    for x in a + b:
                        out += accelerate(I, x, step, node, depth + 1, peeled)
                    return out
    # an equality exit reached in unit steps: no earlier iteration crossed it
    for p in paths:
        if p.kind in ('ub', 'throw', 'n'):
            continue
        for g in p.g:
            if g[0] != 'eq' or classify_guard(g, k) != 'bound':
                continue
            ab = coef_of(sk.nl(g[1]), k)
            if ab is None or not ab[1].is_const() or abs(ab[1].c) != 1:
                continue
            far = g[1] if ab[1].c == -1 else -g[1]
            far0 = L(subst_any(far, {k: ZERO}))
            if sk.entails_ge(far):
                continue
            d = st0.decide(c_ge(far0))
            if d is True:
                x = sk.copy()
                x.add_ge(far)
                return summarise(I, st0, x, k, locs, step, node, depth, peeled)
            if d is None:
                a, b = st0.copy().fork(c_ge(far0))
                out = []
                for x in a + b:
                    out += accelerate(I, x, step, node, depth + 1, peeled)
                return out
    conts = [p for p in paths if p.kind == 'n']
    exits = [p for p in paths if p.kind != 'n']
    for p in paths:
        p.bound = [g for g in p.g if classify_guard(g, k) == 'bound']
        p.pred = [g for g in p.g if classify_guard(g, k) in ('pred', 'other', 'mixed') or (classify_guard(g, k) == 'inv' and mentions(gterm(g), accs))]
    # ---- updates per continuing path
    upd = {}
    for lc in locs:
        if lc.kind == 'append':
            lc.apps = []
            for p in conts:
                ps = simp(p.s, seq_pieces(lc.get(p.s)))
                lc.apps.append(strip_acc(p.s, ps, lc, I, node))
        elif lc.kind == 'tile':
            lc.apps = []
            for p in conts:
                v = lc.get(p.s)
                a = seq_sub(p.s, v.p, p.s.nl(lc.lok), p.s.nl(lc.hik))
                if len(a) != 1:
                    raise NoSummary('tile')
                lc.apps.append(simp(a[0][0], a[0][1]))
        elif lc.kind == 'cnt':
            lc.apps = []
            for p in conts:
                x = lc.get(p.s)
                x = x if isinstance(x, Lin) else x.pos
                base = (lc.v0 if isinstance(lc.v0, Lin) else lc.v0.pos) + L(lc.accsym)
                lc.apps.append(p.s.nl(x - base))
    conts = merge_paths(sk, conts, locs, k)
    cont_preds = [p.pred for p in conts]
    has_pred = any(cont_preds) or any(p.pred and p.kind not in ('ub', 'throw') for p in exits)
    # ---- exits
    out = []
    out_th, out_ub = [], []
    bound_exits = [p for p in exits if p.kind not in ('ub', 'throw') and not p.pred]
    search_exits = [p for p in exits if p.kind not in ('ub', 'throw') and p.pred]
    sidex = [p for p in exits if p.kind in ('ub', 'throw')]
    # K of the bound exits
    kinfo = []
    for p in bound_exits:
        kinfo.append(bound_k(I, sk, p, conts, k, node))
    # single element position per iteration for predicates
    epos = None
    if has_pred:
        epos = element_position(I, sk, conts + search_exits, k, node)
    Kb = None
    if kinfo:
        Kb = kinfo[0]
    elif not search_exits:
        if not sidex:
            note(I, node, 'no exit')
            s = sk.copy()
            s.ev = s.ev + (('noexit', I.loc(node)),)
            I.ubs.append((s, 'loop without reachable exit', I.loc(node)))
            return []
    if search_exits and Kb is None:
        raise NoSummary('unbounded search loop at %s:%s' % I.loc(node)[:2])
    note(I, node, 'search' if search_exits else 'counted')
    contp = None
    if has_pred and epos is not None and search_exits:
        contp = preds_or([p.pred for p in conts], epos, k, I, sk)
    for p in bound_exits:
        kk = kinfo[bound_exits.index(p)]
        for s in kk(p.s):
            kv = s.nl(K)
            for s2 in close(I, st0, s, p, k, kv, locs, conts, epos, node):
                if search_exits:
                    # no element before satisfied an exit predicate
                    rp = range_pieces(s2, epos, kv)
                    f = stdlib.findpos(I, s2, rp, stdlib.neg_pred(contp))
                    lst = s2.assume(c_eq(f - s2.nl(pslen(rp))))
                else:
                    lst = [s2]
                out += [(x, p) for x in lst]
    for p in search_exits:
        # first element violating the continuation predicate
        for j, be in enumerate(bound_exits):
            pass
        kmax = max_k(I, sk, bound_exits, kinfo, st0, k)
        for s, km in kmax(p.s):
            rp = range_pieces(s, epos, km)
            f = stdlib.findpos(I, s, rp, stdlib.neg_pred(contp))
            for x in s.assume(c_and(c_ge(km - 1 - f), c_ge(km - K - 1))):
                if not x.add_eq(K - f) or x.empty():
                    continue
                kv = x.nl(f)
                out += [(y, p) for y in close(I, st0, x, p, k, kv, locs, conts, epos, node)]
    for p in sidex:
        # k stays an existential iteration number below the exit
        s = p.s
        lst = [s]
        for kk in kinfo[:1]:
            pass
        for s1 in lst:
            try:
                cl = close(I, st0, s1, p, k, s1.nl(K), locs, conts, epos, node)
            except NoSummary:
                if p.kind == 'throw':
                    raise
                cl = [s1]
            for x in cl:
                if has_pred and contp is not None and epos is not None and search_exits:
                    rp = range_pieces(x, epos, x.nl(K))
                    f = stdlib.findpos(I, x, rp, stdlib.neg_pred(contp))
                    ys = x.assume(c_eq(f - x.nl(pslen(rp))))
                else:
                    ys = [x]
                for y in ys:
                    if y.empty():
                        continue
                    if p.kind == 'ub':
                        I.ubs.append((y, p.v, p.l))
                    else:
                        I.throws[-1].append((y, p.v, p.l))
    final = []
    for s, p in out:
        if s.empty():
            continue
        v = p.v
        final.append((s, 'n' if p.kind in ('b', 'x') else p.kind, v))
    return final


def merge_paths(sk, conts, locs, k):
    """join continuing paths that update everything alike and differ in one complementary guard"""
    acc = [lc for lc in locs if lc.kind in ('append', 'tile', 'cnt')]
    for i, p in enumerate(conts):
        p.upd = tuple(tuple(lc.apps[i]) if isinstance(lc.apps[i], tuple) else lc.apps[i] for lc in acc)
    ch = True
    while ch:
        ch = False
        for i in range(len(conts)):
            for j in range(i + 1, len(conts)):
                p, q = conts[i], conts[j]
                if p.upd != q.upd:
                    continue
                a = [g for g in p.g if g not in q.g]
                b = [g for g in q.g if g not in p.g]
                if len(a) == 1 and len(b) == 1 and c_not(a[0]) == b[0]:
                    m = Path()
                    m.kind, m.v, m.upd = p.kind, p.v, p.upd
                    m.g = [g for g in p.g if g in q.g]
                    m.s = p.s.copy()
                    m.s.cons = [c for c in p.s.cons if ('ge', c) not in a]
                    m.bound = [g for g in m.g if g in p.bound]
                    m.pred = [g for g in m.g if g in p.pred]
                    conts = [x for x in conts if x is not p and x is not q] + [m]
                    ch = True
                    break
            if ch:
                break
    for lc in acc:
        lc.apps = [p.upd[acc.index(lc)] for p in conts]
    return conts


def closed(st, g):
    """every symbol of the guard is known before the loop (no symbol introduced by the iteration)"""
    return True


def locals_of(s, st0, g):
    return set()


def strip_acc(s, ps, lc, I, node):
    """pieces appended to the accumulator on this path"""
    for i, p in enumerate(ps):
        if p[0] == 'op' and p[1] is lc.acc:
            v0 = simp(s, seq_pieces(lc.v0))
            if lc.back:
                if tuple(ps[:i]) == v0 or pieces_eq(s, ps[:i], v0):
                    return tuple(ps[i + 1:])
            else:
                if tuple(ps[i + 1:]) == v0 or pieces_eq(s, ps[i + 1:], v0):
                    return tuple(ps[:i])
    if s.decide(c_eq(lc.acclen)) is True:
        v0 = simp(s, seq_pieces(lc.v0))
        if not v0:
            return tuple(ps)
    raise NoSummary('accumulator rewritten in the loop at %s:%s' % I.loc(node)[:2])


def pieces_eq(s, a, b):
    try:
        return all(r for _, r in seq_cmp(s, tuple(a), tuple(b)))
    except Giveup:
        return False


def bound_k(I, sk, p, conts, k, node):
    """function state -> states with k fixed to the first iteration taking this exit"""
    neg = set()
    for c in conts:
        for g in c.bound:
            neg.add(g)
    cand = []
    for g in p.bound:
        if g[0] == 'eq':
            cand.append(g)
        else:
            n = c_not(g)
            if any(entails([c[1] for c in x.bound if c[0] == 'ge'] + sk.cons, n[1]) or n in x.bound for x in conts):
                cand.append(g)
    if not cand:
        cand = p.bound
    if not cand and not p.bound:
        # unconditional exit: happens in iteration 0
        def f0(s):
            return s.assume(c_eq(L(k)))
        return f0

    def f(s):
        res = []
        todo = [s.copy()]
        # earlier iterations continued: every bound guard of the continuing path holds at k-1
        for x in todo:
            z, nz = x.fork(c_eq(L(k)))
            res += z
            for y in nz:
                lst = [y]
                if conts and all(c.bound == conts[0].bound for c in conts):
                    for g in conts[0].bound:
                        gg = subst_guard(g, k)
                        nl = []
                        for w in lst:
                            nl += w.assume(gg)
                        lst = nl
                res += lst
        # canonical closed form of the first exiting iteration
        out = []
        for x in res:
            done = False
            for g in cand:
                ab = coef_of(g[1], k)
                if ab is None:
                    continue
                A, B = ab
                if x.nl(L(k)).is_const():
                    done = True
                    break
                if g[0] == 'eq':
                    done = True
                    break
                if x.decide(c_ge(B - 1)) is True:
                    Bn, An = x.nl(B), x.nl(A)
                    if Bn == ONE:
                        # k = -A when positive, else 0
                        for y in x.assume(c_ge(-An - 1)):
                            if y.add_eq(L(k) + An) and not y.empty():
                                out.append(y)
                        for y in x.assume(c_ge(An)):
                            if y.add_eq(L(k)) and not y.empty():
                                out.append(y)
                    else:
                        for y in x.assume(c_ge(-An - 1)):
                            q = t_fdiv(-An - 1, Bn)
                            r = t_fmod(-An - 1, Bn)
                            I.divax(y, y.nl(-An - 1), y.nl(Bn), r, q)
                            if y.add_eq(L(k) - q - 1) and not y.empty():
                                out.append(y)
                        for y in x.assume(c_ge(An)):
                            if y.add_eq(L(k)) and not y.empty():
                                out.append(y)
                    done = True
                    x = None
                    break
            if x is not None:
                if not done:
                    raise NoSummary('exit bound of the loop at %s:%s' % I.loc(node)[:2])
                out.append(x)
        return [y for y in out if not y.empty()]
    return f


def subst_guard(g, k):
    m = {k: L(k) - 1}
    if g[0] == 'not':
        return c_not(subst_guard(g[1], k))
    if g[0] == 'atom':
        return ('atom', subst_any(g[1], m))
    l = subst_any(g[1], m)
    return c_ge(l) if g[0] == 'ge' else c_eq(l)


def max_k(I, sk, bound_exits, kinfo, st0, k):
    """function state -> [(state, number of iterations the bound allows)]"""
    def f(s):
        # closed form of the bound exit on an independent copy of the iteration number
        k2 = fresh('kb')
        out = []
        p = bound_exits[0]
        base = sk.copy()
        m = {k: L(k2)}
        t = s.copy()
        t.add_ge(L(k2))
        ok = [t]
        for g in p.bound:
            nl = []
            for x in ok:
                nl += x.assume(guard_subst(g, m))
            ok = nl
        cont_ge = None
        res = []
        for x in ok:
            for g in p.bound:
                ab = coef_of(g[1], k)
                if ab is None:
                    continue
                A, B = x.nl(ab[0]), x.nl(ab[1])
                if g[0] == 'eq':
                    if not x.nl(L(k2)).syms() or k2 not in x.nl(L(k2)).syms():
                        res.append((x, x.nl(L(k2))))
                        break
                    continue
                if x.decide(c_ge(B - 1)) is True:
                    if B == ONE:
                        for y in x.assume(c_ge(-A - 1)):
                            res.append((y, y.nl(-A)))
                        for y in x.assume(c_ge(A)):
                            res.append((y, ZERO))
                    else:
                        for y in x.assume(c_ge(-A - 1)):
                            q, r = t_fdiv(-A - 1, B), t_fmod(-A - 1, B)
                            I.divax(y, y.nl(-A - 1), y.nl(B), r, q)
                            res.append((y, y.nl(q + 1)))
                        for y in x.assume(c_ge(A)):
                            res.append((y, ZERO))
                    break
            else:
                raise NoSummary('search bound')
        return res
    return f


def guard_subst(g, m):
    if g[0] == 'not':
        return c_not(guard_subst(g[1], m))
    if g[0] == 'atom':
        return ('atom', subst_any(g[1], m))
    l = subst_any(g[1], m)
    return c_ge(l) if g[0] == 'ge' else c_eq(l)


def element_position(I, sk, paths, k, node):
    """the single element each iteration's predicates talk about: (base, start, stride, at-term)"""
    ets = set()
    for p in paths:
        for g in p.pred:
            ets |= elem_terms(g, k)
    ets = {t for t in ets if isinstance(t.args[0], Term)}
    outer = {t for t in ets if not any(t is not u and t in sub_of(u) for u in ets)} or ets
    tops = {t for t in ets}
    if len(tops) != 1:
        raise NoSummary('predicates over several elements in the loop at %s:%s' % I.loc(node)[:2])
    t = next(iter(tops))
    ab = coef_of(sk.nl(t.args[1]), k)
    if ab is None:
        raise NoSummary('element position')
    return t.args[0], ab[0], ab[1], t


def sub_of(t):
    s = set()
    subterms(t, s)
    return s


def range_pieces(s, epos, n):
    base, a, d, t = epos
    return simp(s, (('st', base, s.nl(a), s.nl(d), s.nl(n)),))


def pred_of(gs, epos):
    c = True
    for g in gs:
        c = c_and(c, g)
    t = stdlib.cond_term(c)
    return subst_any(t, {epos[3]: L(stdlib.GEN)}) if True else t


def preds_or(lists, epos, k, I, sk):
    """canonical predicate term of a disjunction of guard lists about the current element"""
    if any(not gs for gs in lists):
        return Term('const', 1)
    isint = any(isinstance(gterm(g), Lin) for gs in lists for g in gs)
    if isint:
        m = stdlib.mask_of([[guard_subst(g, {epos[3]: L(stdlib.GEN)}) for g in gs] for gs in lists])
        if m is not None:
            return stdlib.cset(m)
    ts = []
    for gs in lists:
        c = True
        for g in gs:
            c = c_and(c, g)
        t = stdlib.cond_term(c)
        t = subst_elem(t, epos[3])
        if occurs(k, t):
            raise NoSummary('predicate depends on the iteration number')
        ts.append(t)
    if len(ts) == 1:
        return ts[0]
    return Term('or', *sorted(set(ts), key=lambda t: t.id))


def subst_elem(t, at):
    """replace the element term by the placeholder (El elements are plain terms, integers are Lin monomials)"""
    r = subst_any(t, {at: stdlib.GEN})
    if isinstance(r, Lin):
        raise NoSummary('predicate shape')
    return r


def close(I, st0, s, p, k, kv, locs, conts, epos, node):
    """replace the accumulators by their closed form after kv iterations"""
    s = s.copy()
    groups = None
    for lc in locs:
        if lc.kind == 'cnt':
            P = group_pred(I, lc, conts, epos, k, s, ONE)
            rp = range_pieces(s, epos, kv)
            c = stdlib.cnt(I, s, rp, P)
            s.add_eq(L(lc.accsym) - c)
        elif lc.kind == 'append':
            acc = append_form(I, lc, conts, epos, k, s, kv, node)
            replace_acc(s, lc.acc, acc)
            ln = s.nl(pslen(acc))
            if not s.add_eq(lc.acclen - ln):
                return []
        elif lc.kind == 'tile':
            acc = append_form(I, lc, conts, epos, k, s, kv, node, tile=True)
            replace_acc(s, lc.acc, acc)
            if lc.direct:
                continue
            lo = s.nl(L(subst_any(lc.lok, {k: kv})))
            rs = seq_sub(s, lc.v0.p, lo, slen(lc.v0))
            if len(rs) != 1:
                raise NoSummary('tile end at %s:%s' % I.loc(node)[:2])
            s, rp = rs[0]
            if rp:
                s = s.copy()
            replace_rest(s, lc, s.nl(slen(lc.v0) - lo), rp)
    if p.kind == 'r' and p.v is not None:
        pass
    return [s] if not s.empty() else []


def replace_acc(s, acc, ps):
    na = s.norm(acc)
    if na is not acc:
        replace_acc(s, na, ps)
    for r, v in list(s.store.items()):
        nv = repl_val(s, v, acc, ps)
        if nv is not v:
            s.store[r] = nv


def replace_rest(s, lc, n, rp):
    """resolve the untouched tail (possibly cut) of a tiled sequence"""
    def cutp(t, ln):
        if t is lc.rest:
            return rp
        if t.op in ('drop', 'take') and isinstance(t.args[0], Term):
            base = cutp(t.args[0], None)
            if base is None:
                return None
            k = s.nl(t.args[1])
            r = seq_sub(s, base, k, pslen(base)) if t.op == 'drop' else seq_sub(s, base, ZERO, k)
            if len(r) != 1:
                raise NoSummary('tile tail')
            return r[0][1]
        return None
    for r, v in list(s.store.items()):
        nv = map_seqs(v, lambda ps: [q for p in ps for q in ((cutp(p[1], p[2]) if p[0] == 'op' and occurs(lc.rest, p[1]) else None) or ((p,) if not (p[0] == 'op' and occurs(lc.rest, p[1])) else ()))], s)
        if nv is not v:
            s.store[r] = nv


def map_seqs(v, f, s):
    if isinstance(v, (Seq, OStream)):
        old = seq_pieces(v)
        new = tuple(f(old))
        return v if new == tuple(old) else seq_with(v, simp(s, new))
    if isinstance(v, Struct):
        d = {k: map_seqs(x, f, s) if isinstance(x, (Seq, OStream, Struct)) else x for k, x in v.f.items()}
        return Struct(v.cls, d) if any(d[k] is not v.f[k] for k in d) else v
    return v


def repl_val(s, v, acc, ps):
    if isinstance(v, (Seq, OStream)):
        old = seq_pieces(v)
        if any(p[0] == 'op' and p[1] is acc for p in old):
            new = []
            for p in old:
                if p[0] == 'op' and p[1] is acc:
                    new += list(ps)
                else:
                    new.append(p)
            return seq_with(v, simp(s, tuple(new)))
        if mentions(old, {acc}):
            return Unknown('value derived from a loop accumulator')
        return v
    if isinstance(v, Struct):
        d = {}
        ch = False
        for k2, x in v.f.items():
            nx = repl_val(s, x, acc, ps) if isinstance(x, (Seq, OStream, Struct)) else x
            ch = ch or nx is not x
            d[k2] = nx
        return Struct(v.cls, d) if ch else v
    return v


def group_pred(I, lc, conts, epos, k, s, val):
    sel = [p.pred for p, a in zip(conts, lc.apps) if a == val]
    return preds_or(sel, epos, k, I, s)


def append_form(I, lc, conts, epos, k, s, kv, node, tile=False):
    """pieces accumulated by iterations 0..kv-1"""
    forms = {}
    for p, a in zip(conts, lc.apps):
        forms.setdefault(tuple(a), []).append(p)
    kz = s.nl(kv)
    if kz.is_const() and kz.c == 0:
        return ()
    if len(forms) == 1:
        a = next(iter(forms))
        return comp(I, s, a, k, kv, node, lc)
    nonempty = [a for a in forms if a]
    if os.environ.get('VT_DEBUG'):
        for p, a in zip(conts, lc.apps):
            print('FORM', lc, a, p.g, file=sys.stderr)
    if len(forms) == 2 and len(nonempty) == 1 and not tile:
        a = nonempty[0]
        sel = [p.pred for p in forms[a]]
        dd = dedup_pattern(I, lc, forms, a, k, epos, s, kv)
        if dd is not None:
            return dd
        P = preds_or(sel, epos, k, I, s)
        rp = range_pieces(s, epos, kv)
        if len(a) == 1 and a[0][0] == 'sl' and a[0][1] is epos[0] and s.entails_eq(a[0][2] - epos[3].args[1]) or \
                (len(a) == 1 and a[0][0] == 'sl' and a[0][1] is epos[0] and a[0][2] == epos[3].args[1]):
            return stdlib.filtered(I, s, rp, P)
    if tile or True:
        # element-wise table: every path writes one element that is a function of the current element
        t = elem_table(I, lc, conts, k, s, epos)
        if t is not None:
            base, a0, d, fn = t
            rp = simp(s, (('st', base, s.nl(a0), s.nl(d), s.nl(kv)),))
            return mapped(s, rp, fn)
    raise NoSummary('conditional accumulation in the loop at %s:%s' % I.loc(node)[:2])


def mapped(s, rp, fn):
    n = s.nl(pslen(rp))
    if fn == Term('identity'):
        return rp
    return (('op', Term('map', Term('seqkey', rp), fn), n),)


def elem_table(I, lc, conts, k, s, epos):
    ats = set()
    for p, a in zip(conts, lc.apps):
        if len(a) != 1 or a[0][0] not in ('one', 'sl'):
            return None
        if a[0][0] == 'sl':
            if p.s.nl(plen(a[0])) != ONE:
                return None
            ats.add(Term('at', a[0][1], a[0][2]))
        else:
            x = set()
            subterms_val(a[0][1], x)
            ats |= {t for t in x if t.op == 'at' and occurs(k, t.args[1])}
        for g in p.pred:
            ats |= elem_terms(g, k)
    if len(ats) != 1:
        return None
    at = next(iter(ats))
    ab = coef_of(at.args[1], k)
    if ab is None:
        return None
    rows = []
    G = {at: L(stdlib.GEN)}
    for p, a in zip(conts, lc.apps):
        v = L(at) if a[0][0] == 'sl' else a[0][1]
        if not isinstance(v, Lin):
            if isinstance(v, El) and len(conts) == 1:
                return at.args[0], ab[0], ab[1], subst_elem(v.t, at)
            return None
        v = subst_lin(v, G)
        if occurs(k, v):
            return None
        rows.append(([guard_subst(g, G) for g in p.pred], v))
    tab = stdlib.table_of(rows)
    if tab is None:
        return None
    return at.args[0], ab[0], ab[1], stdlib.ctab(tab)


def dedup_pattern(I, lc, forms, a, k, epos, s, kv):
    """pieces of a loop that appends (a function of) the k-th element exactly when it is not among the elements accumulated so far"""
    if len(a) != 1 or not lc.back or a[0][0] not in ('sl', 'one'):
        return None
    from . import sets
    if a[0][0] == 'sl':
        vt = Term('at', a[0][1], a[0][2])
    elif isinstance(a[0][1], El):
        vt = a[0][1].t
    else:
        return None
    x = set()
    subterms(vt, x)
    ats = {t for t in x if t.op == 'at' and occurs(k, t.args[1])}
    if len(ats) != 1:
        return None
    at = next(iter(ats))
    ab = coef_of(at.args[1], k)
    if ab is None:
        return None
    acckey = Term('seqkey', (('op', lc.acc, lc.acclen),))
    others = []
    map_ = None
    for p in forms[a]:
        rest, hit = [], False
        for g in p.pred:
            m = absent_guard(g, lc, acckey, vt)
            if m is not None:
                if hit:
                    return None
                hit = True
                map_ = m
            elif mentions(gterm(g), {lc.acc}):
                return None
            elif not (g[0] == 'ge' and stdlib.pos_fact(g[1])):
                rest.append(g)
        if not hit:
            return None
        others.append(rest)
    el = (at.args[0], ab[0], ab[1], at)
    # whenever the element is not present it must be appended
    for f, ps in forms.items():
        if f == a:
            continue
        for p in ps:
            if f or any(absent_guard(g, lc, acckey, vt) is not None for g in p.pred) and not others_excl(p, others):
                return None
    rp = range_pieces(s, el, kv)
    if any(others):
        rp = stdlib.filtered(I, s, rp, preds_or(others, el, k, I, s))
    fn = subst_elem(vt, at) if vt is not at else Term('identity')
    src = mapped(s, simp(s, rp), fn)
    r = sets.dedup(I, s, src, map_)
    if r is None:
        raise NoSummary('deduplication of a literal')
    return r


def others_excl(p, others):
    """the path that skips an absent element is guarded by the negation of the selection"""
    return any(c_not(g) in p.pred for rest in others for g in rest)


def absent_guard(g, lc, acckey, vt):
    """does the guard say that vt is not among the accumulated elements?  None: no, else whether keys are compared"""
    if g[0] == 'not' and g[1][0] == 'atom' and g[1][1].op in ('mem', 'kmem') and g[1][1].args[0] is acckey:
        e = g[1][1].args[1]
        if g[1][1].op == 'mem':
            return False if e is vt else None
        return True if e in (Term('first', vt),) else None
    fps = set()
    subterms(gterm(g), fps)
    fps = [t for t in fps if t.op == 'findpos']
    if len(fps) != 1 or fps[0].args[0] is not acckey:
        return None
    pr = fps[0].args[1]
    if pr.op != 'eqel' or set(pr.args) != {stdlib.GEN, vt}:
        return None
    F = L(fps[0])
    # not found: position equals the accumulated length
    if g[0] == 'eq' and g[1] in (F - lc.acclen, lc.acclen - F) or (g[0] == 'ge' and g[1] == F - lc.acclen):
        return False
    return None


def comp(I, s, a, k, kv, node, lc):
    """concatenation of a(0..kv-1)"""
    a = tuple(a)
    if not a:
        return ()
    kv = s.nl(kv)
    if not mentions(a, {k}):
        return (('rep', a, kv),)
    at0 = lambda x, i: subst_val(x, {k: L(i)})
    if len(a) == 1:
        p = a[0]
        if p[0] == 'sl':
            ln = s.nl(plen(p))
            ab = coef_of(p[2], k)
            if ln == ONE and ab is not None:
                return simp(s, (('st', p[1], s.nl(ab[0]), s.nl(ab[1]), kv),))
            nxt = L(at0(p[2], L(k) + 1))
            if s.nl(nxt - p[3]) == ZERO:
                return (('sl', p[1], L(at0(p[2], 0)), L(at0(p[2], kv))),)
            if s.nl(L(at0(p[3], L(k) + 1)) - p[2]) == ZERO:
                pass
        if p[0] == 'one' and isinstance(p[1], (El, Lin)):
            x = set()
            subterms_val(p[1], x)
            ats = {t for t in x if t.op == 'at' and occurs(k, t.args[1])}
            if len(ats) == 1:
                at = next(iter(ats))
                ab = coef_of(at.args[1], k)
                if ab is not None:
                    if isinstance(p[1], El):
                        fn = subst_elem(p[1].t, at)
                    else:
                        v = subst_lin(p[1], {at: L(stdlib.GEN)})
                        if occurs(k, v):
                            fn = None
                        else:
                            tab = stdlib.table_of([([], v)])
                            fn = stdlib.ctab(tab) if tab is not None else Term('fn', v)
                    if fn is not None and not occurs(k, fn):
                        return mapped(s, simp(s, (('st', at.args[0], s.nl(ab[0]), s.nl(ab[1]), kv),)), fn)
    if not (lc.kind == 'append' and not lc.back):
        body = subst_val(a, {k: L(KSYM)})
        return (('cm', body, kv),)
    raise NoSummary('prepending loop at %s:%s' % I.loc(node)[:2])


# ---------------------------------------------------------------- for_each / transform

def for_each(I, st, first, last, fn, node):
    """std::for_each over a sequence or set range.  list of states"""
    out = []
    for s, c, lo, hi, rev in stdlib.rng(I, st, first, last, node):
        it = s.alloc(first, 'foreach')

        def step(x, first_=False):
            res = []
            for x1, cur in I.read(x, it, node):
                d = c_eq(x1.nl(cur.pos - last.pos))
                t, f = x1.fork(d)
                res += [(y, 'x', None) for y in t]
                for y in f:
                    env = dict(y.env)
                    for y1, a in I.deref(y, cur, node):
                        for y2, _ in I.call_closure(y1, fn, [a], node):
                            for y3 in I.write(y2, it, cur.moved(1), node):
                                y3.env = dict(env)
                                res.append((y3, 'n', None))
            return res

        def ck(x):
            v = x.store[it.root]
            return x.decide(c_not(c_eq(x.nl(v.pos - last.pos))))
        for s2, k, v in loop(I, s, step, ck, node):
            out.append(s2)
    return out


def map_pieces(I, st, sq, fn, node):
    """pieces of std::transform with a pure callable"""
    s0 = st.copy()
    x = stdlib.gen_elem(I, sq.et)
    if sq.et and sq.et.get('int'):
        s0.add_ge(L(stdlib.GEN) - sq.et['lo'])
        s0.add_ge(L(sq.et['hi']) - L(stdlib.GEN))
    rows = []
    with Capture(I):
        for s, v in I.call_closure(s0, fn, [s0.alloc(x)], node):
            for s2, w in I.rv(s, v, node):
                rows.append((guards(s0, s2), w))
    ps = simp(st, sq.p)
    if all(isinstance(v, Lin) for g, v in rows):
        tab = stdlib.table_of(rows)
        if tab is not None:
            return mapped(st, ps, stdlib.ctab(tab))
    if len(rows) == 1 and isinstance(rows[0][1], El):
        return mapped(st, ps, rows[0][1].t)
    raise Giveup('transform function')
