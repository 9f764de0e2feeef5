"""Abstract interpreter over the exported, type-checked program (trace-partitioned states, library calls inlined)."""
import json
import sys
from .dom import *

sys.setrecursionlimit(20000)
MAX_STATES = 600


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = {f['fid']: f for f in d['functions']}
        self.records = {r['rid']: r for r in d['records']}
        self.analysed = set()

    def T(self, i):
        return self.types[i] if i is not None and i >= 0 else {'k': 'none', 's': '?'}

    def strip(self, i):
        t = self.T(i)
        while t['k'] in ('ref', 'rref'):
            i = t['to']
            t = self.T(i)
        return t

    def rec(self, i):
        t = self.strip(i)
        return self.records.get(t.get('rid')) if t['k'] == 'rec' else None

    def find(self, cls, name, ptypes=None, const=None, all=False):
        """functions by enclosing class display prefix and name"""
        out = []
        for f in self.fns.values():
            if f['name'] != name and not (f.get('ctor') and name == 'ctor') and not (f.get('conversion') and name == 'conversion'):
                continue
            if cls is not None:
                c = self.T(f.get('cls', -1))['s'] if 'cls' in f else None
                if c != cls:
                    continue
            elif 'cls' in f:
                continue
            if ptypes is not None and [self.T(p['t'])['s'] for p in f['params']] != ptypes:
                continue
            if const is not None and bool(f.get('const')) != const:
                continue
            out.append(f)
        return out


class Outcome:
    __slots__ = ('st', 'kind', 'val', 'line', 'file')

    def __init__(self, st, kind, val, line=None, file=None):
        self.st, self.kind, self.val, self.line, self.file = st, kind, val, line, file


def int_range(t):
    if t['k'] == 'bool':
        return 0, 1
    b = t.get('bits', 32)
    if t.get('signed', True):
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << b) - 1


ORDERINGS = {'less': Lin(-1), 'equal': ZERO, 'equivalent': ZERO, 'greater': Lin(1)}


class Interp:
    def __init__(self, prog, contracts=None):
        self.P = prog
        self.throws = []
        self.ubs = []
        self.stack = []
        self.contracts = contracts or {}
        self.maxdepth = 40
        self.undecided = []
        self.calls_seen = set()
        self.loop_hook = None
        # every path with at most this many iterations of each loop (0: loops are summarised)
        self.unroll = 0
        # look for iterations that change nothing (with unroll, or in loops over constants)
        self.lasso = False
        self.random = None
        self.fill_hook = None
        self.partial = False
        self.memo_pure = None
        self.digit_domain = False
        self.linear_memo = {}
        self.strategy = {}
        self.nsteps = 0
        self.budget = 60000
        self.events = []
        self.loops_seen = []

    # ------------------------------------------------------------ helpers
    def T(self, i):
        return self.P.T(i)

    def loc(self, node):
        f = self.stack[-1] if self.stack else None
        return (f['file'].split('/')[-1] if f else '?', node.get('l') if isinstance(node, dict) else node, f['disp'] if f else '?')

    def ub(self, st, what, node):
        """undefined behaviour / hard error reached in state st"""
        if self.digit_domain:
            from . import digits, bignum
            st = st.copy()
            if not digits.tight(st):
                return
            bignum.products(st)
        if not st.empty():
            self.ubs.append((st, what, self.loc(node)))

    def do_throw(self, st, exc, node):
        self.throws[-1].append((st, exc, self.loc(node)))

    def giveup(self, why, node=None):
        raise Giveup('%s at %s:%s' % ((why,) + self.loc(node or {})[:2]))

    def elem_desc(self, ti):
        """descriptor for a container element type"""
        t = self.P.strip(ti)
        if t['k'] in ('int', 'enum', 'bool'):
            lo, hi = int_range(t)
            return {'int': True, 'lo': lo, 'hi': hi, 'ti': ti, 's': t['s']}
        r = self.P.rec(ti)
        if r is not None:
            def mk(term, r=r):
                return self.mk_record(r, term)
            return {'mk': mk, 'ti': ti, 's': t['s']}
        if t['k'] == 'rec' and t['name'] == 'std::pair':
            a, b = t['args'][0], t['args'][1]
            da, db = self.elem_desc(a), self.elem_desc(b)

            def mkp(term):
                def one(d, nm):
                    tt = Term(nm, term)
                    if d.get('int'):
                        return L(tt)
                    return d['mk'](tt) if d.get('mk') else El(tt)
                return Struct('std::pair', {'first': one(da, 'first'), 'second': one(db, 'second'), '__id': term})
            return {'mk': mkp, 'ti': ti, 's': t['s']}
        return {'ti': ti, 's': t['s']}

    def mk_record(self, r, term):
        """generic value of a library record identified by a term"""
        f = {'__id': term}
        for fd in r['fields']:
            f[fd['name']] = self.mk_generic(fd['type'], Term('fld', term, fd['name']))
        for i, b in enumerate(r.get('bases', [])):
            br = self.P.rec(b)
            if br:
                f['__base'] = self.mk_record(br, Term('fld', term, '__base'))
        return Struct(r['name'], f)

    def mk_generic(self, ti, term):
        t = self.P.strip(ti)
        if t['k'] in ('int', 'enum'):
            return L(term)
        if t['k'] == 'bool':
            return ('atom', term)
        if t['k'] == 'double':
            return Fl(term)
        r = self.P.rec(ti)
        if r is not None:
            return self.mk_record(r, term)
        if t['k'] == 'rec':
            kind = seq_kind(t)
            if kind:
                base = Term('base', term)
                et = self.elem_desc(t['args'][0])
                return Seq((('sl', base, ZERO, t_len(base)),), kind, et)
            if t['name'] in ('std::set', 'std::map'):
                from . import sets
                return sets.generic(t['name'], term, self, t)
            if t['name'] == 'vt::Act':
                return Obj('vtact', term)
            return El(term)
        return El(term)

    def default_value(self, ti, node=None, zero=False):
        """value-initialised object of a type (zero=False: default-initialised, scalars indeterminate)"""
        t = self.P.strip(ti)
        k = t['k']
        if k in ('int', 'enum'):
            return ZERO if zero else Unknown('uninitialised variable')
        if k == 'bool':
            return False if zero else Unknown('uninitialised variable')
        if k == 'double':
            return Fl(0.0) if zero else Unknown('uninitialised variable')
        if k == 'ptr':
            return Obj('null') if zero else Unknown('uninitialised pointer')
        if k == 'arr':
            return Seq((('one', self.default_value(t['of'], node, zero)),) * t.get('n', 0), 'array', self.elem_desc(t['of']))
        if k == 'rec':
            kind = seq_kind(t)
            if kind:
                return Seq((), kind, self.elem_desc(t['args'][0]))
            nm = t['name']
            if nm in ('std::set', 'std::map'):
                from . import sets
                return sets.empty(nm, self, t)
            if nm in ('std::basic_ostringstream', 'std::basic_stringstream'):
                return OStream()
            r = self.P.rec(ti)
            if r is not None:
                return self.default_record(r, zero)
            if nm.startswith('vt::'):
                return El(Term('default', t['s']))
            return Obj('std', t['s'])
        self.giveup('default value of ' + t['s'], node)

    def default_record(self, r, zero=False):
        f = {}
        for fd in r['fields']:
            f[fd['name']] = self.default_value(fd['type'], None, zero)
        for b in r.get('bases', []):
            br = self.P.rec(b)
            if br:
                f['__base'] = self.default_record(br, zero)
        return Struct(r['name'], f)

    # ------------------------------------------------------------ memory
    def read(self, st, a, node=None):
        """list of (state, value)"""
        if a.root not in st.store:
            self.giveup('read of unknown root %s' % a.root, node)
        if not self.gen_ok(st, a, node):
            return []
        res = [(st, st.store[a.root])]
        for comp in a.path:
            nxt = []
            for s, v in res:
                nxt += self.read_comp(s, v, comp, node)
            res = nxt
        return res

    def gen_ok(self, st, a, node):
        for i, comp in enumerate(a.path):
            if comp[0] == 'e' and len(comp) > 2:
                cur = st.ver.get(Addr(a.root, a.path[:i]), 0)
                if isinstance(cur, tuple):
                    cur, soft = cur
                else:
                    soft = False
                if cur != comp[2]:
                    if soft:
                        self.giveup('element reference kept across a growing operation', node)
                    self.ub(st, 'element reference or iterator used after the sequence was modified', node)
                    return False
        return True

    def read_comp(self, s, v, comp, node):
        if isinstance(v, Unknown):
            return [(s, v)]
        k = comp[0]
        if k == 'f':
            if isinstance(v, Struct) and comp[1] in v.f:
                return [(s, v.f[comp[1]])]
            if isinstance(v, El):
                return [(s, El(Term('fld', v.t, comp[1])))]
            self.giveup('field %s of %r' % (comp[1], v), node)
        if k == 'e':
            if isinstance(v, Seq):
                out = []
                idx = comp[1]
                n = slen(v)
                good, bad = s.fork(c_and(c_ge(idx), c_ge(n - idx - 1)))
                for b in bad:
                    if v.kind in ('string', 'cstr') and b.decide(c_eq(idx - n)) is True:
                        out.append((b, ZERO))      # str[size()] is NUL
                    else:
                        self.ub(b, 'element access outside the sequence', node)
                for g in good:
                    out += seq_get(g, v, idx)
                return out
            self.giveup('element of %r' % (v,), node)
        self.giveup('path %r' % (comp,), node)

    def write(self, st, a, val, node=None):
        """list of states"""
        if not a.path:
            st.store[a.root] = val
            return [st]
        if not self.gen_ok(st, a, node):
            return []
        out = []
        for s, newv in self.write_into(st, st.store[a.root], a.path, val, node):
            s.store[a.root] = newv
            out.append(s)
        return out

    def write_into(self, s, v, path, val, node):
        if not path:
            return [(s, val)]
        comp = path[0]
        if comp[0] == 'f':
            if not isinstance(v, Struct):
                self.giveup('write field of %r' % (v,), node)
            out = []
            for s2, nv in self.write_into(s, v.f.get(comp[1]), path[1:], val, node):
                d = dict(v.f)
                d[comp[1]] = nv
                d.pop('__id', None)
                out.append((s2, Struct(v.cls, d)))
            return out
        if comp[0] == 'e':
            if not isinstance(v, Seq):
                self.giveup('write element of %r' % (v,), node)
            idx = comp[1]
            n = slen(v)
            good, bad = s.fork(c_and(c_ge(idx), c_ge(n - idx - 1)))
            for b in bad:
                self.ub(b, 'element write outside the sequence', node)
            out = []
            for g in good:
                if len(path) == 1:
                    out += seq_set(g, v, idx, val)
                else:
                    for s2, ov in seq_get(g, v, idx):
                        for s3, nv in self.write_into(s2, ov, path[1:], val, node):
                            out += seq_set(s3, v, idx, nv)
            return out
        self.giveup('write path %r' % (comp,), node)

    def rv(self, st, v, node=None):
        """rvalue of a glvalue or value: list of (state, value)"""
        if isinstance(v, Addr):
            return self.read(st, v, node)
        return [(st, v)]

    def addr(self, st, v):
        if isinstance(v, Addr):
            return v
        return st.alloc(v)

    def mark_write(self, st, a, node):
        pass

    # ------------------------------------------------------------ calls
    def call_fn(self, st, fid, this, args, node):
        """args: values or Addrs as evaluated; binds to the parameters of fid.  list of (state, value)"""
        f = self.P.fns.get(fid)
        if f is None or ('body' not in f and not f.get('defaulted')):
            self.giveup('call of unknown function %s' % fid, node)
        self.P.analysed.add(fid)
        h = self.contracts.get(fid)
        if h is not None and self.stack:
            return h(self, st, f, this, args, node)
        if 'body' not in f and not f.get('ctor'):
            return self.defaulted(st, f, this, args, node)
        if 'body' not in f:
            r = self.P.rec(f['cls'])
            if not f['params']:
                return [(s, VOID) for s in self.write(st, this, self.default_record(r), node)]
            pt = self.T(f['params'][0]['t'])
            if len(f['params']) == 1 and pt['k'] in ('ref', 'rref'):
                out = []
                for s, v in self.rv(st, args[0], node):
                    if pt['k'] == 'rref' and isinstance(args[0], Addr):
                        res = self.move_out(s, args[0], v, r, node)
                    else:
                        res = [(s, v)]
                    for s2, v2 in res:
                        out += [(s3, VOID) for s3 in self.write(s2, this, v2, node)]
                return out
        if len(self.stack) > self.maxdepth:
            self.giveup('inlining depth', node)
        if sum(1 for g in self.stack if g is f) >= 3:
            self.giveup('recursion of ' + f['disp'], node)
        saved_env, saved_this = st.env, st.this
        st.env = {}
        st.this = this
        for p, a in zip(f['params'], args):
            t = self.T(p['t'])
            if t['k'] in ('ref', 'rref'):
                st.env[p['id']] = self.addr(st, a)
            else:
                if isinstance(a, Addr):
                    vs = self.read(st, a, node)
                    if len(vs) != 1:
                        out = []
                        for s, v in vs:
                            s.env, s.this = saved_env, saved_this
                            na = [v if x is a else x for x in args]
                            out += self.call_fn(s, fid, this, na, node)
                        return out
                    st, a = vs[0]
                st.env[p['id']] = st.alloc(a, '%s@%d' % (p['name'] or 'arg', p['t']))
        memo = None
        if self.memo_pure is not None and this is None and not f.get('ctor') and f['params'] and self.stack:
            memo = (fid, tuple(st.nl(st.store[a.root]) if isinstance(a, Addr) and isinstance(st.store.get(a.root), Lin) and self.T(p['t'])['k'] == 'int' else None for p in f['params'] for a in [st.env[p['id']]]))
            if any(x is None or not x.is_const() for x in memo[1]):
                memo = None
            elif memo in self.memo_pure:
                st.env, st.this = saved_env, saved_this
                return [(st, self.memo_pure[memo])]
            else:
                before, nthrow, nub = dict(st.store), len(self.throws[-1]), len(self.ubs)
        self.stack.append(f)
        try:
            states = [st]
            if f.get('ctor'):
                states = []
                for s in self.ctor_inits(st, f, this):
                    states.append(s)
            out = []
            for s0 in states:
                if 'body' not in f:
                    self.giveup('defaulted function ' + f['disp'], node)
                for s, k, v in self.ex(s0, f['body']):
                    if k == 'r':
                        out.append((s, v))
                    elif k == 'n':
                        out.append((s, VOID))
                    else:
                        self.giveup('control flow', node)
        finally:
            self.stack.pop()
        for s, v in out:
            s.env = dict(saved_env)
            s.this = saved_this
        if memo and len(out) == 1 and len(self.throws[-1]) == nthrow and len(self.ubs) == nub:
            # a function of constants only, without effect on the state
            s, v = out[0]
            if (isinstance(v, bool) or isinstance(v, Lin) and s.nl(v).is_const()) and not s.taint and all(s.store.get(r) is x for r, x in before.items()):
                self.memo_pure[memo] = v if isinstance(v, bool) else s.nl(v)
        return out

    def ctor_inits(self, st, f, this):
        states = [st]
        r = self.P.rec(f['cls'])
        for s in states:
            pass
        seen = set()
        inits = f.get('inits', [])
        if any(i.get('delegating') for i in inits):
            for i in inits:
                nxt = []
                for s in states:
                    for s2, v in self.ev(s, i['e']):
                        for s3, vv in self.rv(s2, v):
                            nxt += self.write(s3, this, vv)
                states = nxt
            return states
        for i in inits:
            nxt = []
            for s in states:
                for s2, v in self.ev(s, i['e']):
                    if 'field' in i:
                        t = self.T(i['ft'])
                        if t['k'] in ('ref', 'rref'):
                            nxt += self.write(s2, this.fld(i['field']), Obj('ptr', self.addr(s2, v)))
                        else:
                            for s3, vv in self.rv(s2, v):
                                nxt += self.write(s3, this.fld(i['field']), vv)
                    else:
                        for s3, vv in self.rv(s2, v):
                            nxt += self.write(s3, this.fld('__base'), vv)
            states = nxt
            if 'field' in i:
                seen.add(i['field'])
        return states

    def construct(self, st, f, args, ti, node):
        """value of a newly constructed object.  list of (state, value)"""
        t = self.P.strip(ti)
        fid = f['fid']
        fn = self.P.fns.get(fid)
        r = self.P.rec(ti)
        if r is not None and fn is not None and 'body' in fn:
            c = self.contracts.get(f['qn'])
            if c:
                res = c(self, st, None, args, f, node)
                if res is not None:
                    return res
            a = st.alloc(self.default_record(r), 'obj')
            out = []
            for s, _ in self.call_fn(st, fid, a, args, node):
                out.append((s, s.store[a.root]))
            return out
        if r is not None:
            if r.get('name', '').startswith('std::__cmp_cat') or t['s'].startswith('std::__cmp_cat'):
                return [(st, ZERO)]
            if f.get('default') or not args:
                return self.default_construct(st, r, node)
            if f.get('copy') or f.get('move'):
                out = []
                for s, v in self.rv(st, args[0], node):
                    if f.get('move') and isinstance(args[0], Addr):
                        out += self.move_out(s, args[0], v, r, node)
                    else:
                        out.append((s, v))
                return out
            self.giveup('constructor of ' + t['s'], node)
        from . import stdlib
        return stdlib.construct(self, st, f, args, ti, node)

    def default_construct(self, st, r, node):
        res = [(st, {})]
        for fd in r['fields']:
            nxt = []
            for s, d in res:
                if 'init' in fd:
                    for s2, v in self.ev(s, fd['init']):
                        for s3, vv in self.rv(s2, v):
                            nxt.append((s3, dict(d, **{fd['name']: vv})))
                else:
                    nxt.append((s, dict(d, **{fd['name']: self.default_value(fd['type'])})))
            res = nxt
        out = []
        for s, d in res:
            for b in r.get('bases', []):
                br = self.P.rec(b)
                if br:
                    d['__base'] = self.default_record(br)
            out.append((s, Struct(r['name'], d)))
        return out

    def move_out(self, st, a, v, r, node):
        """implicit move of a record: scalars copied, containers emptied.  list of (state, moved value)"""
        nv = self.moved_from(v)
        if isinstance(nv, Struct) and r is not None:
            for fd in r['fields']:
                if self.T(fd['type'])['s'].startswith('const ') and fd['name'] in nv.f:      # a const member is copied
                    nv = Struct(nv.cls, dict(nv.f, **{fd['name']: v.f[fd['name']]}))
        return [(s, v) for s in self.write(st, a, nv, node)]

    def moved_from(self, v):
        if isinstance(v, Seq):
            if v.kind in ('vector', 'deque', 'string', 'set', 'map'):
                return v.with_p(())
            return v
        if isinstance(v, El):
            return v if v.t.op == 'moved' else El(Term('moved', v.t))
        if isinstance(v, Struct):
            return Struct(v.cls, {k: (self.moved_from(x)) for k, x in v.f.items() if k != '__id'})
        return v

    # ------------------------------------------------------------ numbers
    def conv_int(self, st, v, t, node):
        """convert integer value to integer type t.  list of (state, value)"""
        if isinstance(v, Unknown):
            return [(st, v)]
        if is_cond(v):
            out = []
            a, b = st.fork(v)
            return [(x, ONE) for x in a] + [(x, ZERO) for x in b]
        if t['k'] == 'bool':
            return [(st, c_not(c_eq(v)))]
        lo, hi = int_range(t)
        v = st.nl(v)
        out = []
        g, b = st.fork(c_and(c_ge(v - lo), c_ge(L(hi) - v)))
        out += [(x, v) for x in g]
        w = hi - lo + 1
        for x in b:
            xs = [(y, v - w) for y in x.assume(c_ge(v - hi - 1))] + [(y, v + w) for y in x.assume(c_ge(L(lo) - v - 1))]
            for y, nv in xs:
                if y.decide(c_and(c_ge(nv - lo), c_ge(L(hi) - nv))) is True:
                    y.ev = y.ev + (('narrow', self.loc(node), t['s']),)
                    out.append((y, nv))
                else:
                    y.ev = y.ev + (('narrow', self.loc(node), t['s']),)
                    m = t_fmod(nv - lo, L(w)) + lo
                    y.add_ge(m - lo)
                    y.add_ge(L(hi) - m)
                    out.append((y, m))
        return out

    def arith(self, st, op, a, b, t, node):
        """integer arithmetic in type t.  list of (state, value)"""
        for x in (a, b):
            if isinstance(x, Unknown):
                return [(st, x)]
        if is_cond(a) or is_cond(b):
            out = []
            for s, x in self.conv_int(st, a, {'k': 'int', 'bits': 32, 'signed': True}, node):
                for s2, y in self.conv_int(s, b, {'k': 'int', 'bits': 32, 'signed': True}, node):
                    out += self.arith(s2, op, x, y, t, node)
            return out
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            self.giveup('arith %s on %r %r' % (op, a, b), node)
        a, b = st.nl(a), st.nl(b)
        if op == '+':
            return self.wrap(st, a + b, t, node)
        if op == '-':
            return self.wrap(st, a - b, t, node)
        if op == '*':
            return self.wrap(st, a * b, t, node)
        if op in ('/', '%'):
            if gcd_divides(a, b) and st.decide(c_ge(b - 1)) is True:
                # the exact quotient is no larger in magnitude than the dividend
                return [(s2, q if op == '/' else r) for s2, q, r in self.tdivmod(st, a, b)]
            out = []
            z, nz = st.fork(c_eq(b))
            for s in z:
                self.ub(s, 'division by zero', node)
            for s in nz:
                for s2, q, r in self.tdivmod(s, a, b):
                    if op == '/':
                        out += self.wrap(s2, q, t, node)
                    else:
                        lo, hi = int_range(t)
                        if t.get('signed', True) and s2.decide(c_not(c_and(c_eq(a - lo), c_eq(b + 1)))) is None:
                            for s3 in s2.assume(c_and(c_eq(a - lo), c_eq(b + 1))):
                                self.ub(s3, 'signed overflow', node)
                            for s3 in s2.assume(c_and(c_eq(a - lo), c_eq(b + 1)), False):
                                out.append((s3, s3.nl(r)))
                        else:
                            out.append((s2, r))
            return out
        if op in ('&', '|', '^', '<<', '>>'):
            f = {'&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y, '<<': lambda x, y: x << y, '>>': lambda x, y: x >> y}[op]
            if a.is_const() and b.is_const():
                return self.wrap(st, Lin(f(a.c, b.c)), t, node)
            if op == '&' and b.is_const() and b.c == 1:
                m = t_fmod(a, Lin(2))
                st.add_ge(m)
                st.add_ge(1 - m)
                return [(st, m)]
            r = L(Term('bit', op, a, b))
            lo, hi = int_range(t)
            if op == '&' and b.is_const() and b.c >= 0:
                st.add_ge(r)
                st.add_ge(b - r)
            elif op == '>>' and b.is_const() and b.c >= 0:
                m = t_fdiv(a, Lin(1 << b.c))
                rr = a - m.scale(1 << b.c)
                st.add_ge(rr)
                st.add_ge((1 << b.c) - 1 - rr)
                return [(st, m)]
            else:
                st.add_ge(r - lo)
                st.add_ge(hi - r)
            return [(st, r)]
        self.giveup('operator ' + op, node)

    def tdivmod(self, st, a, b):
        """truncated division; b != 0.  list of (state, q, r)"""
        out = []
        if a.is_const() and b.is_const():
            q = abs(a.c) // abs(b.c) * (1 if (a.c < 0) == (b.c < 0) else -1)
            return [(st, Lin(q), Lin(a.c - q * b.c))]
        if gcd_divides(a, b):
            q = t_exq(a, b)
            out = []
            pos, neg = st.fork(c_ge(a))
            for ss, x, y in ((pos, a, q), (neg, -a, -q)):
                for s in ss:
                    s = s.copy()
                    low = 1 if s.decide(c_ge(x - 1)) is True else 0
                    s.add_ge(y - low)
                    s.add_ge(x - y)
                    out.append((s, q, ZERO))
            return out
        pos, neg = st.fork(c_ge(b - 1))
        for s, bb, sg in [(x, b, 1) for x in pos] + [(x, -b, -1) for x in neg]:
            ap, an = s.fork(c_ge(a))
            for s2 in ap:
                bb2, a2 = s2.nl(bb), s2.nl(a)
                F, Q = t_fmod(a2, bb2), t_fdiv(a2, bb2)
                self.divax(s2, a2, bb2, F, Q)
                out.append((s2, Q.scale(sg), F))
            for s2 in an:
                bb2, a2 = s2.nl(bb), s2.nl(a)
                F, Q = t_fmod(a2, bb2), t_fdiv(a2, bb2)
                self.divax(s2, a2, bb2, F, Q)
                z, nz = s2.fork(c_eq(F))
                for s3 in z:
                    out.append((s3, Q.scale(sg), ZERO))
                for s3 in nz:
                    out.append((s3, (Q + 1).scale(sg), F - bb2))
        return out

    def divax(self, s, a, b, F, Q):
        s.add_ge(F)
        s.add_ge(b - 1 - F)
        d = b * Q + F - a
        s.add_ge(d)
        s.add_ge(-d)
        if s.decide(c_ge(a)) is True:
            s.add_ge(Q)
            s.add_ge(a - F)
            s.add_ge(a - Q)
            if s.decide(c_ge(b - 1 - a)) is True:
                s.add_eq(F - a)
                s.add_eq(Q)
        elif s.decide(c_ge(-a - 1)) is True:
            s.add_ge(-Q - 1)
            s.add_ge(Q - a)

    def wrap(self, st, v, t, node):
        lo, hi = int_range(t)
        v = st.nl(v)
        if v.is_const() and lo <= v.c <= hi:
            return [(st, v)]
        g, b = st.fork(c_and(c_ge(v - lo), c_ge(L(hi) - v)))
        out = [(x, v) for x in g]
        if t.get('signed', True):
            for x in b:
                self.ub(x, 'signed overflow', node)
            return out
        w = hi - lo + 1
        for x in b:
            for y, nv in [(y, v - w) for y in x.assume(c_ge(v - hi - 1))] + [(y, v + w) for y in x.assume(c_ge(-v - 1))]:
                y.ev = y.ev + (('wrap', self.loc(node)),)
                if y.decide(c_and(c_ge(nv), c_ge(L(hi) - nv))) is True:
                    out.append((y, nv))
                else:
                    m = t_fmod(v, L(w))
                    y.add_ge(m)
                    y.add_ge(L(hi) - m)
                    out.append((y, m))
        return out

    def to_cond(self, v, node=None):
        if is_cond(v) or isinstance(v, Unknown):
            return v
        if isinstance(v, Lin):
            return c_not(c_eq(v))
        if isinstance(v, Obj) and v.tag == 'null':
            return False
        if isinstance(v, Obj) and v.tag == 'ptr':
            return True
        self.giveup('condition %r' % (v,), node)

    # ------------------------------------------------------------ expressions
    def ev(self, st, e):
        self.nsteps += 1
        if self.nsteps > self.budget:
            self.giveup('analysis budget', e)
        return getattr(self, 'e_' + e['k'])(st, e)

    def evs(self, st, es):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(s, e):
                    nxt.append((s2, vs + [v]))
            res = nxt
            if len(res) > MAX_STATES:
                self.giveup('too many states')
        return res

    def ev_rv(self, st, e):
        out = []
        for s, v in self.ev(st, e):
            out += self.rv(s, v, e)
        return out

    def e_int(self, st, e):
        return [(st, Lin(e['v']))]

    def e_bool(self, st, e):
        return [(st, bool(e['v']))]

    def e_float(self, st, e):
        return [(st, Fl(e['v'] if isinstance(e['v'], str) else float(e['v'])))]

    def e_str(self, st, e):
        ps = [('one', Lin(c if c < 128 else c - 256)) for c in e['v']] + [('one', ZERO)]
        a = Addr('lit:%r' % (tuple(e['v']),))
        st.store[a.root] = Seq(ps, 'cstr', CHAR)
        return [(st, a)]

    def e_nullptr(self, st, e):
        return [(st, Obj('null'))]

    def e_this(self, st, e):
        return [(st, Obj('ptr', st.this))]

    def e_zeroinit(self, st, e):
        return [(st, self.default_value(e['t'], e, True))]

    def e_var(self, st, e):
        if 'const' in e:
            return [(st, Lin(e['const']))]
        if e['id'] in st.env:
            return [(st, st.env[e['id']])]
        if 'fconst' in e:
            return [(st, Fl(e['fconst']))]
        if e.get('global'):
            r = 'global:' + e.get('qn', e['name'])
            if r in st.store:
                return [(st, Addr(r))]
            qn = e.get('qn', '')
            if qn.endswith('npos'):
                return [(st, Lin(2**64 - 1))]
            t = self.P.strip(e['t'])
            if t['k'] == 'rec' and t['name'] in ('std::strong_ordering', 'std::weak_ordering', 'std::partial_ordering') and e['name'] in ORDERINGS:
                st.store[r] = Obj('ord', ORDERINGS[e['name']], ZERO)
                return [(st, Addr(r))]
            if t['k'] == 'rec' and t['name'].startswith('std::'):
                st.store[r] = Obj('std', t['s'])
                return [(st, Addr(r))]
        self.giveup('variable ' + e['name'], e)

    def e_fn(self, st, e):
        return [(st, FnPtr(e['f']))]

    def deref(self, st, v, node):
        """list of (state, Addr) the pointer/iterator refers to"""
        if isinstance(v, Addr):
            out = []
            for s, x in self.read(st, v, node):
                out += self.deref(s, x, node)
            return out
        if isinstance(v, Obj) and v.tag == 'ptr':
            return [(st, v.a[0])]
        if isinstance(v, Iter):
            idx = v.index()
            out = []
            for s, c in self.read(st, v.addr, node):
                if not isinstance(c, Seq):
                    self.giveup('iterator into %r' % (c,), node)
                n = slen(c)
                g, b = s.fork(c_and(c_ge(idx), c_ge(n - idx - 1)))
                for x in b:
                    if c.kind in ('string', 'cstr') and v.ptr and x.decide(c_eq(idx - n)) is True:
                        out.append((x, x.alloc(ZERO)))
                        continue
                    self.ub(x, 'iterator dereferenced outside the sequence', node)
                for x in g:
                    out.append((x, v.addr.el(x.nl(idx), v.gen)))
            return out
        if isinstance(v, Obj) and v.tag == 'null':
            self.ub(st, 'null pointer dereferenced', node)
            return []
        if isinstance(v, Obj) and v.tag == 'gen':
            from . import stdlib
            return stdlib.gen_deref(self, st, v, node)
        if isinstance(v, Unknown):
            s = st.tainted(v.why)
            return [(s, s.alloc(v))]
        self.giveup('dereference of %r' % (v,), node)

    def e_field(self, st, e):
        out = []
        for s, v in self.ev(st, e['e']):
            if e.get('arrow'):
                lst = self.deref(s, v, e) if not isinstance(v, Addr) else [x for s2, p in self.read(s, v, e) for x in self.deref(s2, p, e)]
            elif isinstance(v, Addr):
                lst = [(s, v)]
            else:
                lst = [(s, s.alloc(v))]
            for s2, a in lst:
                fa = a.fld(e['name'])
                ft = self.T(e['ft'])
                if ft['k'] in ('ref', 'rref'):
                    for s3, p in self.read(s2, fa, e):
                        out.append((s3, p.a[0]))
                else:
                    out.append((s2, fa))
        return out

    def e_temp(self, st, e):
        out = []
        for s, v in self.ev(st, e['e']):
            out.append((s, v if isinstance(v, Addr) else s.alloc(v)))
        return out

    def e_stdinit(self, st, e):
        out = []
        t = self.P.strip(e['t'])
        for s, v in self.ev(st, e['e']):
            for s2, x in self.rv(s, v, e):
                if isinstance(x, Seq):
                    out.append((s2, Seq(x.p, 'init', self.elem_desc(t['args'][0]))))
                else:
                    self.giveup('initializer list', e)
        return out

    def e_initlist(self, st, e):
        t = self.P.strip(e['t'])
        out = []
        for s, vs in self.evs(st, e['args']):
            for s2, xs in self.rvs(s, vs, e):
                if t['k'] == 'arr':
                    n = t.get('n', len(xs))
                    ps = [('one', x) for x in xs]
                    while len(ps) < n:
                        ps.append(('one', self.default_value(t['of'], e, True)))
                    out.append((s2, Seq(ps, 'array', self.elem_desc(t['of']))))
                elif t['k'] in ('int', 'double', 'bool', 'enum', 'ptr'):
                    out.append((s2, xs[0] if xs else self.default_value(e['t'], e, True)))
                elif t['k'] == 'rec':
                    r = self.P.rec(e['t'])
                    if t['name'] == 'std::pair' or r is None:
                        names = ['first', 'second']
                        out.append((s2, Struct(t['name'], dict(zip(names, xs)))))
                    else:
                        f = self.default_record(r, True).f
                        for fd, x in zip(r['fields'], xs):
                            f[fd['name']] = x
                        out.append((s2, Struct(r['name'], f)))
                else:
                    self.giveup('init list for ' + t['s'], e)
        return out

    def rvs(self, st, vs, node):
        res = [(st, [])]
        for v in vs:
            nxt = []
            for s, xs in res:
                for s2, x in self.rv(s, v, node):
                    nxt.append((s2, xs + [x]))
            res = nxt
        return res

    def e_lambda(self, st, e):
        res = [(st, {})]
        for c in e['caps']:
            nxt = []
            for s, d in res:
                if c.get('this'):
                    nxt.append((s, d))
                elif c['byref']:
                    if 'id' in c and c['id'] in s.env:
                        nxt.append((s, dict(d, **{c['id']: s.env[c['id']]})) if False else (s, {**d, c['id']: s.env[c['id']]}))
                    else:
                        self.giveup('capture', e)
                else:
                    for s2, v in self.ev(s, c['init']):
                        for s3, x in self.rv(s2, v, e):
                            nxt.append((s3, {**d, c['id']: ('val', x)}))
            res = nxt
        return [(s, Closure(e['rid'], e['ops'], d, s.this)) for s, d in res]

    def call_closure(self, st, c, args, node):
        """call a callable value.  list of (state, value)"""
        if isinstance(c, Addr):
            out = []
            for s, v in self.read(st, c, node):
                out += self.call_closure(s, v, args, node)
            return out
        if isinstance(c, Obj) and c.tag == 'ptr':
            return self.call_closure(st, c.a[0], args, node)
        if isinstance(c, Closure):
            fid = None
            for o in c.ops:
                if o in self.P.fns and len(self.P.fns[o]['params']) == len(args):
                    fid = o
            if fid is None:
                self.giveup('lambda body not found', node)
            saved_env, saved_this = st.env, st.this
            f = self.P.fns[fid]
            self.P.analysed.add(fid)
            st.env = {}
            for k, v in c.caps.items():
                st.env[k] = v if isinstance(v, Addr) else st.alloc(v[1])
            st.this = c.this
            for p, a in zip(f['params'], args):
                t = self.T(p['t'])
                if t['k'] in ('ref', 'rref'):
                    st.env[p['id']] = self.addr(st, a)
                else:
                    vs = self.rv(st, a, node)
                    if len(vs) != 1:
                        self.giveup('closure argument', node)
                    st, a = vs[0]
                    st.env[p['id']] = st.alloc(a)
            self.stack.append(f)
            try:
                out = []
                for s, k, v in self.ex(st, f['body']):
                    out.append((s, v if k == 'r' else VOID))
            finally:
                self.stack.pop()
            for s, v in out:
                s.env = dict(saved_env)
                s.this = saved_this
            return out
        if isinstance(c, FnPtr):
            return self.dispatch(st, c.f, None, args, node)
        if isinstance(c, (El, Struct)) or (isinstance(c, Obj) and c.tag in ('std', 'opaquefn')):
            return self.call_opaque(st, c, args, node)
        if isinstance(c, Obj) and c.tag == 'vtact':
            from . import stdlib
            return stdlib.act_call(self, st, c, args, node)
        if isinstance(c, Unknown):
            return [(st.tainted(c.why), c)]
        self.giveup('call of %r' % (c,), node)

    def call_opaque(self, st, c, args, node):
        """user-supplied callable: predicate value is an uninterpreted function of the element identities"""
        res = []
        for s, vs in self.rvs(st, args, node):
            key = c.t if isinstance(c, El) else (Term('fn', c.cls) if isinstance(c, Struct) else Term('fn', repr(c)))
            ts = []
            for v in vs:
                ts.append(v.t if isinstance(v, El) else (v if isinstance(v, (Lin,)) else Term('val', repr(v))))
            res.append((s, ('atom', Term('pred', key, *ts))))
        return res

    def e_call(self, st, e):
        if 'f' not in e:
            out = []
            for s, cv in self.ev(st, e['callee']):
                for s2, vs in self.evs(s, e['args']):
                    out += self.call_closure(s2, cv, vs, e)
            return out
        res = [(st, None)]
        if 'obj' in e:
            res = []
            for s, v in self.ev(st, e['obj']):
                if e.get('arrow'):
                    if isinstance(v, Addr):
                        for s2, p in self.read(s, v, e):
                            res += self.deref(s2, p, e)
                    else:
                        res += self.deref(s, v, e)
                else:
                    res.append((s, v))
        out = []
        f = e['f']
        for s, o in res:
            for s2, vs in self.evs(s, e['args']):
                out += self.dispatch(s2, f, o, vs, e)
        return out

    def dispatch(self, st, f, obj, args, node):
        self.calls_seen.add(f['qn'])
        fn = self.P.fns.get(f['fid'])
        if f.get('deleted'):
            self.giveup('deleted function', node)
        c = self.contracts.get(f['qn'])
        if c:
            r = c(self, st, obj, args, f, node)
            if r is not None:
                return r
        if fn is not None and 'body' in fn:
            if fn.get('lambda'):
                if isinstance(obj, Addr):
                    for s, v in self.read(st, obj, node):
                        return self.call_closure(s, v, args, node)
                return self.call_closure(st, obj, args, node)
            this = None
            if f.get('method') and not f.get('static'):
                this = obj if isinstance(obj, Addr) else st.alloc(obj)
            return self.call_fn(st, f['fid'], this, args, node)
        if f.get('method') and self.P.rec(f['cls']) is not None:
            return self.defaulted(st, f, obj, args, node)
        from . import stdlib
        return stdlib.call(self, st, f, obj, args, node)

    def defaulted(self, st, f, obj, args, node):
        r = self.P.rec(f['cls'])
        if r.get('lambda'):
            self.giveup('lambda special member', node)
        if f.get('copyassign') or f.get('moveassign'):
            out = []
            for s, v in self.rv(st, args[0], node):
                v2 = v
                src = args[0]
                if f.get('moveassign') and isinstance(src, Addr) and src != obj:
                    for s2, v3 in self.move_out(s, src, v, r, node):
                        for s3 in self.write(s2, obj, v3, node):
                            out.append((s3, obj))
                    continue
                for s3 in self.write(s, obj, v2, node):
                    out.append((s3, obj))
            return out
        if f['name'] == 'operator==':
            out = []
            for s, a in self.rv(st, obj, node):
                for s2, b in self.rv(s, args[0], node):
                    c = True
                    for fd in r['fields']:
                        c = c_and(c, self.eq_values(s2, a.f[fd['name']], b.f[fd['name']], node))
                    out.append((s2, c))
            return out
        if f['name'] == 'operator<=>':
            out = []
            for s, a in self.rv(st, obj, node):
                for s2, b in self.rv(s, args[0], node):
                    if len(r['fields']) == 1:
                        n = r['fields'][0]['name']
                        out.append((s2, Obj('ord', a.f[n], b.f[n])))
                    else:
                        self.giveup('defaulted <=>', node)
            return out
        self.giveup('defaulted ' + f['qn'], node)

    def eq_values(self, st, a, b, node):
        """condition under which two values compare equal with =="""
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if isinstance(a, Lin) and isinstance(b, Lin):
            return c_eq(st.nl(a - b))
        if is_cond(a) and is_cond(b):
            return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
        if isinstance(a, El) and isinstance(b, El):
            x, y = sorted((st.norm(a.t), st.norm(b.t)), key=lambda t: t.id)
            if x is y:
                return True
            r = sets_order(st, x, y)
            if r is not None:
                return r[0]
            return ('atom', Term('eqel', x, y))
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.kind in ('set', 'map') or b.kind in ('set', 'map'):
                from . import sets
                if a.kind != b.kind:
                    self.giveup('comparison of different containers', node)
                return sets.eq_cond(self, st, a, b, node)
            return seq_eq_cond(st, a, b)
        if isinstance(a, Struct) and isinstance(b, Struct):
            c = True
            for k in a.f:
                if k != '__id':
                    c = c_and(c, self.eq_values(st, a.f[k], b.f[k], node))
            return c
        if isinstance(a, Fl) and isinstance(b, Fl):
            if not isinstance(a.t, Term) and not isinstance(b.t, Term):
                return a.t == b.t
            p, q = self.whole_number(a), self.whole_number(b)
            if p is not None and q is not None:
                return c_eq(st.nl(p - q))
            r = signs_apart(a, b)
            if r:
                return False
            if a == b:
                return True
            ta = a.t if isinstance(a.t, Term) else Term('fl', repr(a.t))
            tb = b.t if isinstance(b.t, Term) else Term('fl', repr(b.t))
            x, y = sorted((ta, tb), key=lambda t: t.id)
            return ('atom', Term('feq', x, y))
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.addr != b.addr:
                return False
            return c_eq(st.nl(a.pos - b.pos))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a == b:
                return True
            if {a.tag, b.tag} == {'ptr', 'null'}:
                return False
            if a.tag == 'ptr' and b.tag == 'ptr':
                return ptr_eq(st, a.a[0], b.a[0])
        if isinstance(a, Fl) and isinstance(b, Lin):
            return self.eq_values(st, a, i2d(b), node)
        if isinstance(b, Fl) and isinstance(a, Lin):
            return self.eq_values(st, i2d(a), b, node)
        self.giveup('comparison of %r and %r' % (a, b), node)

    def e_ctor(self, st, e):
        out = []
        f = e['f']
        for s, vs in self.evs(st, e['args']):
            if e.get('zero') and not vs and not (f['fid'] in self.P.fns and 'body' in self.P.fns[f['fid']]):
                out.append((s, self.default_value(e['t'], e, True)))
                continue
            out += self.construct(s, f, vs, e['t'], e)
        return out

    def e_cast(self, st, e):
        ck = e['ck']
        t = self.T(e['t'])
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'Dependent', 'BitCast'):
            if ck == 'BitCast':
                self.giveup('bit cast', e)
            return self.ev(st, e['e'])
        if ck == 'LValueToRValue':
            return self.ev_rv(st, e['e'])
        if ck == 'ArrayToPointerDecay':
            out = []
            for s, v in self.ev(st, e['e']):
                a = self.addr(s, v)
                out.append((s, Iter(a, ZERO, ptr=True)))
            return out
        if ck == 'ToVoid':
            return [(s, VOID) for s, v in self.ev(st, e['e'])]
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            out = []
            tt = self.P.strip(e['t'])
            lib = self.P.rec(e['t']) is not None or (t['k'] == 'ptr' and self.P.rec(t['to']) is not None)
            src = e['e']['t']
            for s, v in self.ev(st, e['e']):
                if not lib:
                    out.append((s, v))
                    continue
                hops = self.base_hops(src, e['t'])
                if isinstance(v, Addr):
                    for _ in range(hops):
                        v = v.fld('__base')
                    out.append((s, v))
                elif isinstance(v, Obj) and v.tag == 'ptr':
                    a = v.a[0]
                    for _ in range(hops):
                        a = a.fld('__base')
                    out.append((s, Obj('ptr', a)))
                else:
                    a = s.alloc(v)
                    for _ in range(hops):
                        a = a.fld('__base')
                    out.append((s, a))
            return out
        res = []
        for s, v in self.ev_rv(st, e['e']):
            if isinstance(v, Unknown):
                res.append((s, v))
            elif ck == 'IntegralCast':
                src = self.P.strip(e['e']['t'])
                res += self.conv_int(s, v, t, e)
            elif ck == 'IntegralToBoolean' or ck == 'PointerToBoolean':
                res.append((s, self.to_cond(v, e)))
            elif ck == 'IntegralToFloating':
                if is_cond(v):
                    for s2, x in self.conv_int(s, v, {'k': 'int', 'bits': 32}, e):
                        res.append((s2, i2d(x)))
                else:
                    res.append((s, i2d(s.nl(v))))
            elif ck == 'FloatingToIntegral':
                from . import stdlib
                res += stdlib.d2i(self, s, v, t, e)
            elif ck == 'FloatingCast':
                res.append((s, v))
            elif ck == 'FloatingToBoolean':
                res.append((s, c_not(self.eq_values(s, v, Fl(0.0), e))))
            elif ck == 'NullToPointer':
                res.append((s, Obj('null')))
            else:
                self.giveup('cast ' + ck, e)
        return res

    def base_hops(self, src, dst):
        def name(i):
            t = self.P.strip(i)
            if t['k'] == 'ptr':
                t = self.P.strip(t['to'])
            return t
        a, b = name(src), name(dst)
        n = 0
        cur = a
        while cur.get('rid') != b.get('rid') and n < 10:
            r = self.P.records.get(cur.get('rid'))
            if not r or not r['bases']:
                return 1
            cur = self.P.strip(r['bases'][0])
            n += 1
        return n

    def e_un(self, st, e):
        op = e['op']
        out = []
        if op in ('++', '--'):
            for s, a in self.ev(st, e['e']):
                for s2, v in self.rv(s, a, e):
                    if isinstance(v, Iter):
                        nv = v.moved(1 if op == '++' else -1)
                        res = [(s2, nv)]
                    elif isinstance(v, Unknown):
                        res = [(s2, v)]
                    else:
                        t = self.P.strip(e['e']['t'])
                        res = []
                        at = t if t.get('bits', 32) >= 32 else {'k': 'int', 'bits': 32, 'signed': True}
                        for s3, x in self.arith(s2, '+' if op == '++' else '-', v, ONE, at, e):
                            res += self.conv_int(s3, x, t, e) if at is not t else [(s3, x)]
                    for s3, nv in res:
                        for s4 in self.write(s3, a, nv, e):
                            out.append((s4, v if e.get('post') else a))
            return out
        if op == '*':
            for s, v in self.ev_rv(st, e['e']):
                out += self.deref(s, v, e)
            return out
        if op == '&':
            for s, v in self.ev(st, e['e']):
                a = self.addr(s, v)
                if isinstance(v, FnPtr):
                    out.append((s, v))
                elif a.path and a.path[-1][0] == 'e':
                    last = a.path[-1]
                    out.append((s, Iter(Addr(a.root, a.path[:-1]), last[1], ptr=True, gen=last[2] if len(last) > 2 else None)))
                else:
                    out.append((s, Obj('ptr', a)))
            return out
        for s, v in self.ev_rv(st, e['e']):
            if op == '!':
                out.append((s, c_not(self.to_cond(v, e))))
            elif op == '-':
                if isinstance(v, Fl):
                    out.append((s, fl_op('neg', v)))
                else:
                    out += self.arith(s, '-', ZERO, v, self.T(e['t']), e)
            elif op == '+':
                out.append((s, v))
            elif op == '~':
                out += self.arith(s, '-', Lin(-1), v, self.T(e['t']), e)
            elif op in ('__extension__',):
                out.append((s, v))
            else:
                self.giveup('unary ' + op, e)
        return out

    def e_opassign(self, st, e):
        out = []
        op = e['op']
        for s, a in self.ev(st, e['a']):
            for s1, b in self.ev_rv(s, e['b']):
                for s2, v in self.rv(s1, a, e):
                    t = self.P.strip(e['a']['t'])
                    if isinstance(v, Iter):
                        res = [(s2, v.moved(b if op == '+' else -b))]
                    elif isinstance(v, Fl) or isinstance(b, Fl):
                        x = v if isinstance(v, Fl) else i2d(v)
                        y = b if isinstance(b, Fl) else i2d(b)
                        res = [(s2, fl_op(op, x, y))]
                        if t['k'] in ('int',):
                            from . import stdlib
                            res = stdlib.d2i(self, s2, res[0][1], t, e)
                    else:
                        ct = self.T(e['lt'])
                        res = []
                        if is_cond(v) and op in ('|', '&', '^') and is_cond(b):
                            res = [(s2, c_or(v, b) if op == '|' else c_and(v, b) if op == '&' else c_or(c_and(v, c_not(b)), c_and(c_not(v), b)))]
                        else:
                            for s3, vv in self.conv_int(s2, v, ct, e):
                                for s4, x in self.arith(s3, op, vv, b, self.T(e['ct']), e):
                                    res += self.conv_int(s4, x, t, e)
                    for s3, nv in res:
                        for s4 in self.write(s3, a, nv, e):
                            out.append((s4, a))
        return out

    def e_bin(self, st, e):
        op = e['op']
        out = []
        if op == ',':
            for s, _ in self.ev(st, e['a']):
                out += self.ev(s, e['b'])
            return out
        if op in ('&&', '||'):
            for s, a in self.ev_rv(st, e['a']):
                c = self.to_cond(a, e)
                t, f = s.fork(c)
                if isinstance(c, Unknown):
                    pass
                go, stop = (t, f) if op == '&&' else (f, t)
                for x in stop:
                    out.append((x, op == '||'))
                for x in go:
                    for s2, b in self.ev_rv(x, e['b']):
                        out.append((s2, self.to_cond(b, e)))
            return out
        if op == '=':
            for s, b in self.ev_rv(st, e['b']):
                for s1, a in self.ev(s, e['a']):
                    for s2 in self.write(s1, a, b, e):
                        out.append((s2, a))
            return out
        for s, a in self.ev_rv(st, e['a']):
            for s2, b in self.ev_rv(s, e['b']):
                out += self.binop(s2, op, a, b, e)
        return out

    def binop(self, st, op, a, b, e):
        if isinstance(a, Unknown):
            return [(st, a)]
        if isinstance(b, Unknown):
            return [(st, b)]
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return [(st, self.compare(st, op, a, b, e))]
        if op == '<=>':
            return [(st, a if isinstance(a, Obj) and a.tag == 'ord' and b == ZERO else Obj('ord', a, b))]
        if isinstance(a, Iter):
            if isinstance(b, Iter) and op == '-':
                if a.addr != b.addr:
                    self.ub(st, 'pointer difference between sequences', e)
                    return []
                return [(st, st.nl(a.pos - b.pos) if not a.rev else st.nl(b.pos - a.pos))]
            return [(st, a.moved(b if op == '+' else -b))]
        if isinstance(b, Iter) and op == '+':
            return [(st, b.moved(a))]
        if isinstance(a, Fl) or isinstance(b, Fl):
            x = a if isinstance(a, Fl) else i2d(a)
            y = b if isinstance(b, Fl) else i2d(b)
            return [(st, fl_op(op, x, y))]
        t = self.T(e['t'])
        if op in ('|', '&', '^') and is_cond(a) and is_cond(b):
            pass
        return self.arith(st, op, a, b, t, e)

    def compare(self, st, op, a, b, e):
        if isinstance(a, Obj) and a.tag == 'ord' and isinstance(b, Lin) and b == ZERO:
            return self.ord_cond(st, op, a, e)
        if op == '==':
            return self.eq_values(st, a, b, e)
        if op == '!=':
            return c_not(self.eq_values(st, a, b, e))
        if is_cond(a) and isinstance(b, Lin):
            pass
        if isinstance(a, Iter) and isinstance(b, Iter):
            d = a.pos - b.pos
            if a.rev:
                d = -d
            a, b = st.nl(d), ZERO
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = st.nl(a - b)
            return {'<': c_ge(-d - 1), '>': c_ge(d - 1), '<=': c_ge(-d), '>=': c_ge(d)}[op]
        if isinstance(a, Fl) or isinstance(b, Fl):
            x = a if isinstance(a, Fl) else i2d(a)
            y = b if isinstance(b, Fl) else i2d(b)
            p, q = self.whole_number(x), self.whole_number(y)
            if p is not None and q is not None:
                return self.compare(st, op, p, q, e)
            if not isinstance(x.t, Term) and not isinstance(y.t, Term):
                return {'<': x.t < y.t, '>': x.t > y.t, '<=': x.t <= y.t, '>=': x.t >= y.t}[op]
            r = signs_apart(x, y)
            if r:
                return (r < 0) == (op in ('<', '<='))
            tx = x.t if isinstance(x.t, Term) else Term('fl', repr(x.t))
            ty = y.t if isinstance(y.t, Term) else Term('fl', repr(y.t))
            if op in ('>', '>='):
                tx, ty = ty, tx
                op = {'>': '<', '>=': '<='}[op]
            return ('atom', Term('flt' if op == '<' else 'fle', tx, ty))
        if isinstance(a, El) and isinstance(b, El):
            x, y = st.norm(a.t), st.norm(b.t)
            r = sets_order(st, x, y)
            if r is not None:
                return {'<': r[1], '>': r[2], '<=': c_not(r[2]), '>=': c_not(r[1])}[op]
            lt = lambda p, q: False if p is q else ('atom', Term('ltel', p, q))
            return {'<': lt(x, y), '>': lt(y, x), '<=': c_not(lt(y, x)), '>=': c_not(lt(x, y))}[op]
        self.giveup('comparison %s of %r and %r' % (op, a, b), e)

    def whole_number(self, x):
        """the integer a floating value was converted from (text conversion: arithmetic on reals)"""
        if self.memo_pure is None:
            return None
        if isinstance(x.t, Term):
            return L(x.t.args[0]) if x.t.op == 'i2d' else None
        return L(int(x.t)) if isinstance(x.t, float) and abs(x.t) < 2.0 ** 53 and x.t == int(x.t) else None

    def ord_cond(self, st, op, o, e):
        a, b = o.a
        if op in ('==', '!='):
            r = self.eq_values(st, a, b, e)
            return r if op == '==' else c_not(r)
        if isinstance(a, Seq):
            k1, k2 = Term('seqkey', simp(st, a.p)), Term('seqkey', simp(st, b.p))
            lt = lambda p, q: False if p is q else ('atom', Term('lexlt', p, q))
            return {'<': lt(k1, k2), '>': lt(k2, k1), '<=': c_not(lt(k2, k1)), '>=': c_not(lt(k1, k2))}[op]
        return self.compare(st, op, a, b, e)

    def e_cond(self, st, e):
        out = []
        for s, c in self.ev_rv(st, e['c']):
            t, f = s.fork(self.to_cond(c, e))
            for x in t:
                x.trace = x.trace + ((self.loc(e)[0], e['l'], True),)
                out += self.ev(x, e['a'])
            for x in f:
                x.trace = x.trace + ((self.loc(e)[0], e['l'], False),)
                out += self.ev(x, e['b'])
        return out

    def e_index(self, st, e):
        out = []
        for s, a in self.ev_rv(st, e['a']):
            for s2, b in self.ev_rv(s, e['b']):
                if isinstance(b, Iter):
                    a, b = b, a
                if isinstance(a, Iter):
                    out += self.deref(s2, a.moved(b), e)
                else:
                    self.giveup('subscript of %r' % (a,), e)
        return out

    def e_throw(self, st, e):
        if e.get('e') is None:
            self.giveup('rethrow', e)
        for s, v in self.ev_rv(st, e['e']):
            if isinstance(v, Exc):
                exc = v
            else:
                exc = Exc(self.T(e['et'])['s'], repr(v))
            self.do_throw(s, exc, e)
        return []

    def e_new(self, st, e):
        self.giveup('new expression', e)

    e_delete = e_new

    def e_unk(self, st, e):
        self.giveup('unmodelled expression ' + str(e.get('cls')), e)

    # ------------------------------------------------------------ statements
    def ex(self, st, s):
        if s is None:
            return [(st, 'n', None)]
        if self.unroll:
            # a path that cannot be followed is left out
            try:
                return getattr(self, 's_' + s['k'])(st, s)
            except Giveup:
                self.partial = True
                return []
        return getattr(self, 's_' + s['k'])(st, s)

    def s_block(self, st, b):
        res = [(st, 'n', None)]
        for c in b['body']:
            nxt = []
            for s, k, v in res:
                if k == 'n':
                    nxt += self.ex(s, c)
                else:
                    nxt.append((s, k, v))
            res = nxt
            if len(res) > MAX_STATES:
                self.giveup('too many states', c)
        return res

    def s_expr(self, st, s):
        return [(x, 'n', None) for x, _ in self.ev(st, s['e'])]

    def s_null(self, st, s):
        return [(st, 'n', None)]

    def s_decl(self, st, s):
        states = [st]
        for v in s['vars']:
            nxt = []
            for x in states:
                nxt += self.declare(x, v)
            states = nxt
        return [(x, 'n', None) for x in states]

    def declare(self, st, v):
        t = self.T(v['t'])
        out = []
        if v.get('static'):
            key = 'static:%s' % v['name']
        if 'init' not in v:
            st.env[v['id']] = st.alloc(self.default_value(v['t']), '%s@%d' % (v['name'], v['t']))
            return [st]
        for s, x in self.ev(st, v['init']):
            if t['k'] in ('ref', 'rref'):
                s.env[v['id']] = self.addr(s, x)
                out.append(s)
            else:
                for s2, y in self.rv(s, x, v):
                    s2.env[v['id']] = s2.alloc(y, '%s@%d' % (v['name'], v['t']))
                    out.append(s2)
        if 'bindings' in v:
            for s in out:
                for b in v['bindings']:
                    if 'holding' in b:
                        self.giveup('tuple-like binding', v)
        return out

    def s_return(self, st, s):
        if s.get('e') is None:
            return [(st, 'r', VOID)]
        out = []
        rt = self.T(self.stack[-1]['ret']) if self.stack else None
        for x, v in self.ev(st, s['e']):
            if rt is not None and rt['k'] not in ('ref', 'rref') and isinstance(v, Addr):
                for y, w in self.rv(x, v, s):
                    out.append((y, 'r', w))
            else:
                out.append((x, 'r', v))
        return out

    def s_if(self, st, s):
        states = [st]
        for pre in ('init', 'cvar'):
            if s.get(pre):
                nxt = []
                for x in states:
                    nxt += [y for y, k, _ in self.ex(x, s[pre])]
                states = nxt
        out = []
        for x in states:
            for y, c in self.ev_rv(x, s['c']):
                t, f = y.fork(self.to_cond(c, s))
                for z in t:
                    z.trace = z.trace + ((self.loc(s)[0], s['l'], True),)
                    out += self.ex(z, s['a'])
                for z in f:
                    z.trace = z.trace + ((self.loc(s)[0], s['l'], False),)
                    out += self.ex(z, s['b'])
        return out

    def s_break(self, st, s):
        return [(st, 'b', None)]

    def s_continue(self, st, s):
        return [(st, 'c', None)]

    def s_try(self, st, s):
        self.giveup('try block', s)

    def s_unk(self, st, s):
        self.giveup('unmodelled statement ' + str(s.get('cls')), s)

    def s_switch(self, st, s):
        states = [st]
        if s.get('init'):
            states = [y for y, k, _ in self.ex(st, s['init'])]
        # flatten body into a list of (labels, statement)
        items = []

        def add(n):
            labels = []
            while n is not None and n['k'] in ('case', 'default'):
                labels.append('default' if n['k'] == 'default' else (n['v'], n.get('hi', n['v'])))
                n = n['body']
            items.append((labels, n))
        for n in s['body']['body']:
            add(n)
        out = []
        for x in states:
            for y, v in self.ev_rv(x, s['c']):
                if isinstance(v, Unknown):
                    self.giveup('switch on unknown', s)
                if is_cond(v):
                    alts = self.conv_int(y, v, {'k': 'int', 'bits': 32}, s)
                else:
                    alts = [(y, v)]
                for y2, v2 in alts:
                    rest = [y2]
                    starts = []
                    for i, (labels, n) in enumerate(items):
                        for lb in labels:
                            if lb == 'default':
                                continue
                            nxt = []
                            for z in rest:
                                c = c_eq(z.nl(v2) - lb[0]) if lb[0] == lb[1] else c_and(c_ge(v2 - lb[0]), c_ge(L(lb[1]) - v2))
                                t, f = z.fork(c)
                                starts += [(w, i) for w in t]
                                nxt += f
                            rest = nxt
                    di = [i for i, (lb, n) in enumerate(items) if 'default' in lb]
                    for z in rest:
                        if di:
                            starts.append((z, di[0]))
                        else:
                            out.append((z, 'n', None))
                    for z, i in starts:
                        res = [(z, 'n', None)]
                        for _, n in items[i:]:
                            nxt = []
                            for w, k, val in res:
                                if k == 'n':
                                    nxt += self.ex(w, n)
                                else:
                                    nxt.append((w, k, val))
                            res = nxt
                        for w, k, val in res:
                            out.append((w, 'n' if k == 'b' else k, None if k == 'b' else val))
        return out

    # loops: normalised to (init, cond, inc, body, do-while flag)
    def s_for(self, st, s):
        out = []
        inits = self.ex(st, s['init']) if s.get('init') else [(st, 'n', None)]
        for x, k, v in inits:
            out += self.loop(x, s, s.get('c'), s.get('inc'), s['body'])
        return out

    def s_while(self, st, s):
        if s.get('cvar'):
            self.giveup('condition variable', s)
        return self.loop(st, s, s['c'], None, s['body'])

    def s_do(self, st, s):
        return self.loop(st, s, s['c'], None, s['body'], do=True)

    def s_rangefor(self, st, s):
        out = []
        states = [st]
        for i in s['inits']:
            nxt = []
            for x in states:
                nxt += [y for y, k, _ in self.ex(x, i)]
            states = nxt
        body = {'k': 'block', 'l': s['l'], 'body': [s['var'], s['body']]}
        for x in states:
            out += self.loop(x, s, s['c'], s['inc'], body)
        return out

    def loop(self, st, node, cond, inc, body, do=False):
        from . import loops
        return loops.run(self, st, node, cond, inc, body, do)

    # ------------------------------------------------------------ entry
    def run(self, st, fid, this, args):
        """all outcomes of calling fid"""
        self.throws.append([])
        self.ubs = []
        self.nsteps = 0
        node = {'l': self.P.fns[fid]['line']}
        try:
            res = self.call_fn(st, fid, this, args, node)
        finally:
            th = self.throws.pop()
        outs = [Outcome(s, 'ret', v) for s, v in res]
        outs += [Outcome(s, 'throw', e, l[1], l[0]) for s, e, l in th]
        outs += [Outcome(s, 'ub', w, l[1], l[0]) for s, w, l in self.ubs]
        return outs


def sets_order(st, x, y):
    from . import sets
    return sets.order(st, x, y)


CHAR = {'int': True, 'lo': -128, 'hi': 127, 's': 'char'}


def seq_kind(t):
    return {'std::vector': 'vector', 'std::deque': 'deque', 'std::basic_string': 'string', 'std::basic_string_view': 'view',
            'std::initializer_list': 'init', 'std::array': 'array'}.get(t.get('name'))


def ptr_eq(st, a, b):
    if a == b:
        return True
    if a.root != b.root or len(a.path) != len(b.path):
        return False
    c = True
    for x, y in zip(a.path, b.path):
        if x[0] != y[0]:
            return False
        if x[0] == 'e':
            c = c_and(c, c_eq(st.nl(x[1] - y[1])))
        elif x[1] != y[1]:
            return False
    return c


def i2d(l):
    l = L(l)
    if l.is_const():
        return Fl(float(l.c))
    return Fl(Term('i2d', l))


def _num(x):
    return not isinstance(x.t, Term)


def signs_apart(x, y):
    """-1 or 1 when the signs alone order two floating values ('fnz': a value known by its sign only)"""
    g = lambda v: v.t.args[0] if isinstance(v.t, Term) and v.t.op == 'fnz' else (v.t > 0) - (v.t < 0) if isinstance(v.t, float) and v.t == v.t else None
    p, q = g(x), g(y)
    return 0 if p is None or q is None or p == q else -1 if p < q else 1


def fl_op(op, a, b=None):
    """floating operation, kept as a term (constants folded; multiplicative/additive identities only)"""
    if op == 'neg':
        if _num(a):
            return Fl(-a.t) if not isinstance(a.t, str) else Fl('-' + a.t)
        return Fl(Term('fneg', a.t))
    if _num(a) and _num(b) and not isinstance(a.t, str) and not isinstance(b.t, str):
        try:
            return Fl({'+': lambda: a.t + b.t, '-': lambda: a.t - b.t, '*': lambda: a.t * b.t, '/': lambda: a.t / b.t}[op]())
        except (ZeroDivisionError, OverflowError, KeyError):
            pass
    if op == '/' and _num(b) and b.t == 1.0:
        return a
    if op == '*' and _num(b) and b.t == 1.0:
        return a
    ta = a.t if isinstance(a.t, Term) else Term('fl', repr(a.t))
    tb = b.t if isinstance(b.t, Term) else Term('fl', repr(b.t))
    return Fl(Term('f' + op, ta, tb))


WHOLE = [None]     # a sequence whose comparison with constants is kept as one atom


def seq_eq_cond(st, a, b):
    pa, pb = simp(st, a.p), simp(st, b.p)
    if pa == pb:
        return True
    if WHOLE[0] is not None:
        for x, y in ((pa, pb), (pb, pa)):
            if len(x) == 1 and x[0][0] == 'sl' and x[0][1] is WHOLE[0] and all(p[0] == 'one' and isinstance(p[1], Lin) and st.nl(p[1]).is_const() for p in y):
                return ('atom', Term('isword', tuple(st.nl(p[1]).c for p in y)))
    la, lb = st.nl(pslen(pa)), st.nl(pslen(pb))
    if st.decide(c_eq(la - lb)) is False:
        return False
    if la.is_const() and lb.is_const() and la == lb and all(p[0] == 'one' or (p[0] == 'sl' and st.nl(plen(p)).is_const()) for p in pa + pb) and la.c <= 16 and (a.et or {}).get('int'):
        # element-wise
        c = True
        for i in range(la.c):
            (sa, va), = seq_get(st, a.with_p(pa), Lin(i))[:1]
            (sb, vb), = seq_get(st, b.with_p(pb), Lin(i))[:1]
            c = c_and(c, c_eq(st.nl(va - vb)))
        return c
    k1, k2 = Term('seqkey', pa), Term('seqkey', pb)
    x, y = sorted((k1, k2), key=lambda t: t.id)
    e = ('atom', Term('eqseq', x, y))
    if st.decide(c_eq(la - lb)) is True:
        z = st.decide(c_eq(la))
        if z is True:
            return True
        return e
    return c_and(c_eq(st.nl(la - lb)), e)
