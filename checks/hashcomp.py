"""Hash functions: what the returned value depends on (interprocedural dependence analysis over the resolved syntax tree), and whether equality fixes it."""
import os
import re
import time

from .core import *          # noqa
from .core import Problem, Result
from . import intcomp
from engine.interp import Interp

# results that are not determined by the value of an object
STATE = {'capacity': 'the capacity of a container', 'bucket_count': 'the bucket count of a container', 'get_allocator': 'an allocator', 'load_factor': 'the load factor of a container'}
WORLD = {'rand', 'random', 'srand', 'time', 'clock', 'now', 'get_id', 'getpid', 'getenv', 'random_device', 'clock_gettime', 'rdtsc', '__rdtsc', 'gettimeofday', 'hash_seed', 'this_thread'}


class Dep:
    """flow-insensitive dependences of the variables and of the result of a function, callees of the library included"""

    def __init__(self, P):
        self.P = P
        self.var = {}
        self.params = {}
        self.done = {}
        self.fields = set()
        self.bad = []
        self.changed = True
        self.unknown = set()

    def analyse(self, f):
        for _ in range(8):
            self.changed = False
            self.bad = []
            self.done = {}
            r = self.function(f, [frozenset(['obj'])] * len(f['params']), frozenset())
            if not self.changed:
                break
        return r

    def join(self, vid, d):
        old = self.var.get(vid, frozenset())
        new = old | d
        if new != old:
            self.var[vid] = new
            self.changed = True

    def function(self, f, args, this):
        k = f['fid']
        for p, a in zip(f['params'], args):
            self.join(p['id'], a)
        self.join(('this', k), this)
        if k in self.done:
            return self.join_ret(k)
        self.done[k] = True
        self.cur, keep = (f, getattr(self, 'cur', None)), None
        self.stmt(f.get('body'), f, frozenset())
        return self.join_ret(k)

    def join_ret(self, k):
        return self.var.get(('ret', k), frozenset())

    # ------------------------------------------------------------ statements
    def stmt(self, s, f, ctl):
        if isinstance(s, list):
            for x in s:
                self.stmt(x, f, ctl)
            return
        if not isinstance(s, dict):
            return
        k = s.get('k')
        if k == 'return':
            if s.get('e') is not None:
                self.join(('ret', f['fid']), self.ex(s['e'], f, ctl) | ctl)
            return
        if k == 'decl':
            for v in s.get('vars', []):
                d = self.ex(v['init'], f, ctl) if v.get('init') is not None else frozenset()
                if v.get('static') and not v.get('constexpr') and not self.P.T(v['t']).get('const') and 'const ' not in self.P.T(v['t'])['s']:
                    self.report(f, s.get('l', 0), 'a static variable', 'the state left by earlier calls')
                self.join(v['id'], d | ctl)
            return
        if k == 'expr':
            self.ex(s['e'], f, ctl)
            return
        # loops, branches, blocks: every condition controls what is below it
        below = ctl
        for x in ('c', 'cond'):
            if isinstance(s.get(x), dict):
                below = below | self.ex(s[x], f, ctl)
        if isinstance(s.get('range'), dict):
            below = below | self.ex(s['range'], f, ctl)
        for n, x in s.items():
            if isinstance(x, (dict, list)) and n not in ('c', 'cond', 'range'):
                if isinstance(x, dict) and x.get('k') in self.EXPR:
                    self.ex(x, f, below)
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict) and y.get('k') in self.EXPR:
                            self.ex(y, f, below)
                        else:
                            self.stmt(y, f, below)
                else:
                    self.stmt(x, f, below)

    EXPR = {'int', 'bool', 'float', 'str', 'nullptr', 'this', 'zeroinit', 'var', 'fn', 'field', 'temp', 'stdinit', 'initlist', 'lambda', 'call', 'ctor', 'cast', 'un', 'opassign', 'bin', 'cond', 'index', 'throw', 'new', 'unk'}

    # ------------------------------------------------------------ expressions
    def target(self, e):
        """variable an lvalue belongs to"""
        while isinstance(e, dict):
            if e.get('k') == 'var':
                return e['id']
            if e.get('k') in ('cast', 'temp', 'field', 'un'):
                e = e.get('e')
            elif e.get('k') == 'index':
                e = e.get('a')
            elif e.get('k') == 'call' and 'obj' in e:
                e = e['obj']
            else:
                return None
        return None

    def ex(self, e, f, ctl):
        if isinstance(e, list):
            r = frozenset()
            for x in e:
                r |= self.ex(x, f, ctl)
            return r
        if not isinstance(e, dict):
            return frozenset()
        k = e.get('k')
        if k == 'var':
            if 'const' in e or 'fconst' in e:
                return frozenset()
            if e.get('global'):
                t = self.P.T(e['vt'])['s'] if 'vt' in e else ''
                if 'const ' not in t and not e.get('qn', '').startswith('std::') and e['id'] not in self.var:
                    self.report(f, e.get('l', 0), 'the global variable %s' % e['name'], 'the state left by earlier calls')
            return self.var.get(e['id'], frozenset())
        if k == 'this':
            return self.var.get(('this', f['fid']), frozenset())
        if k == 'field':
            d = self.ex(e['e'], f, ctl)
            if 'obj' in d and e.get('owner', '').startswith('pyincpp::'):
                self.fields.add(e['name'])
                return frozenset(['field:' + e['name']]) | (d - {'obj'})
            return d
        if k == 'cast':
            d = self.ex(e['e'], f, ctl)
            ck = e.get('ck')
            src = self.P.T(e['e']['t']) if isinstance(e['e'], dict) and 't' in e['e'] else None
            if ck == 'PointerToIntegral' and d:
                self.report(f, e.get('l', 0), 'an address converted to a number', 'two equal values at different addresses')
            elif ck in ('BitCast', 'LValueBitCast') and d and e.get('explicit') and src is not None:
                self.bits(f, e, src['s'])
            return d
        if k in ('opassign',):
            d = self.ex(e['a'], f, ctl) | self.ex(e['b'], f, ctl)
            t = self.target(e['a'])
            if t is not None:
                self.join(t, d | ctl)
            return d
        if k == 'bin' and e.get('op') == '=':
            d = self.ex(e['b'], f, ctl)
            self.ex(e['a'], f, ctl)
            t = self.target(e['a'])
            if t is not None:
                self.join(t, d | ctl)
            return d
        if k == 'cond':
            return self.ex(e['c'], f, ctl) | self.ex(e['a'], f, ctl) | self.ex(e['b'], f, ctl)
        if k == 'un' and e.get('op') in ('++', '--'):
            d = self.ex(e['e'], f, ctl)
            t = self.target(e['e'])
            if t is not None:
                self.join(t, d | ctl)
            return d
        if k == 'un' and e.get('op') == '&':
            return self.ex(e['e'], f, ctl)
        if k == 'lambda':
            for n in e.values():
                if isinstance(n, (dict, list)):
                    self.ex(n, f, ctl)
            return frozenset()
        if k in ('call', 'ctor'):
            return self.call(e, f, ctl)
        r = frozenset()
        for n, x in e.items():
            if isinstance(x, (dict, list)):
                r |= self.ex(x, f, ctl)
        return r

    def call(self, e, f, ctl):
        fn = e.get('f') or {}
        obj = self.ex(e['obj'], f, ctl) if 'obj' in e else frozenset()
        args = [self.ex(a, f, ctl) for a in e.get('args', [])]
        alls = obj.union(*args) if args else obj
        name, qn = fn.get('name', ''), fn.get('qn', '')
        l = e.get('l', 0)
        if name in STATE and (alls or True) and qn.startswith('std::') and obj:
            self.report(f, l, STATE[name], 'two equal values of different history')
        if (name in WORLD or any(w in qn.split('::') for w in WORLD)) and not qn.startswith('pyincpp'):
            self.report(f, l, '%s()' % qn, 'two calls on the same value')
        if qn == 'std::hash::operator()' and alls:
            t = self.P.T(fn['cls'])['s'] if 'cls' in fn else ''
            if re.search(r'hash<.*\*\s*>', t):
                self.report(f, l, 'the address a pointer holds (%s)' % t.replace('pyincpp::', ''), 'two equal values at different addresses')
        if qn.startswith('std::bit_cast') and alls and fn.get('ptypes'):
            self.bits(f, e, self.P.T(fn['ptypes'][0])['s'])
        if name in ('memcpy', 'memmove') and len(e.get('args', [])) >= 2 and args[1]:
            a = e['args'][1]
            while isinstance(a, dict) and a.get('k') == 'cast':
                a = a['e']
            if isinstance(a, dict) and 't' in a:
                self.bits(f, e, self.P.T(a['t'])['s'])
            t = self.target(e['args'][0])
            if t is not None:
                self.join(t, alls | ctl)
        g = self.P.fns.get(fn.get('fid'))
        if g is not None and 'body' in g and ('/sources/' in str(g.get('file', '')) or 'lambda' in (self.P.T(g['cls'])['s'] if 'cls' in g else '')):
            r = self.function(g, args, obj)
            for p, a in zip(g['params'], e.get('args', [])):
                if self.P.T(p['t'])['k'] == 'ref' and 'const ' not in self.P.T(p['t'])['s']:
                    t = self.target(a)
                    if t is not None:
                        self.join(t, self.var.get(p['id'], frozenset()) | ctl)
            return r | (alls if not g['params'] and not obj else frozenset())
        # library function: the result depends on the operands, and so do operands it may modify
        for a in e.get('args', []) + ([e['obj']] if 'obj' in e and not fn.get('const') else []):
            t = self.target(a)
            if t is not None and isinstance(a, dict) and a.get('lv'):
                self.join(t, alls | ctl)
        if 'callee' in e:
            alls |= self.ex(e['callee'], f, ctl)
        return alls

    def bits(self, f, e, t):
        t = t.replace('const ', '')
        base = t.rstrip('*& ').strip()
        if base in ('double', 'float'):
            self.report(f, e.get('l', 0), 'the bits of a floating-point number', '0.0 and -0.0, which are equal')
        elif base.startswith('pyincpp::') or base.startswith('std::'):
            self.report(f, e.get('l', 0), 'the object representation of %s' % base.replace('pyincpp::', ''), 'two equal values with different padding or addresses inside')

    def report(self, f, l, what, wit):
        x = (os.path.basename(str(f.get('file', ''))), l, what, wit)
        if x not in self.bad:
            self.bad.append(x)


class Hash:
    needs_program = True

    def __init__(self, cls):
        self.cls = cls
        self.key = 'std::hash<%s>.operator()(%s) const' % (cls, cls)
        self.name = 'std::hash<%s>' % cls

    def run(self, A):
        t0 = time.time()
        res = Result()
        try:
            self.go(A, res)
        except Giveup as e:
            res.undecided.append('not analysable: %s' % e)
        except RecursionError:
            res.undecided.append('recursion limit')
        except Exception as e:
            if os.environ.get('VT_CRASH'):
                raise
            res.undecided.append('internal: %r' % (e,))
        res.time = time.time() - t0
        return res

    def go(self, A, res):
        f = A.fn.get(self.key)
        if f is None:
            res.undecided.append('function not found in the current sources')
            return
        loc = (os.path.basename(f['file']), f['line'])
        D = Dep(A.P)
        D.analyse(f)
        res.outcomes += 1
        res.obligations += 1
        for file, line, what, wit in D.bad:
            res.problems.append(Problem(('C09',), 'the hash depends on %s' % what, self.key, (file, line), wit))
        if not D.bad:
            res.discharged += 1
        if self.cls == 'Int':
            return   # decided for canonical integers, by the units of EqualInts
        self.equality(A, res, sorted(D.fields), loc)

    def equality(self, A, res, fields, loc):
        """operator== is true only for objects whose hashed fields are equal"""
        key = '%s.operator==(%s) const' % (self.cls, self.cls)
        f = A.fn.get(key)
        if f is None:
            g = A.fn.get('%s.operator<=>(%s) const' % (self.cls, self.cls))
            if g is not None and g.get('defaulted') and 'body' not in g:
                # the implicit operator== of a defaulted three-way comparison compares every member
                res.obligations += len(fields)
                res.discharged += len(fields)
                return
            res.undecided.append('%s not found in the current sources' % key)
            return
        c = build(A.P, f)
        outs = c.I.run(c.st, f['fid'], c.addr, c.actual)
        for o in outs:
            if o.kind != 'ret':
                continue
            v = o.val
            if isinstance(v, bool):
                states = [o.st] if v else []
            elif isinstance(v, Lin):
                states = o.st.assume(c_not(c_eq(v)))
            elif is_cond(v):
                states = o.st.assume(v)
            else:
                raise Giveup('equality result %r' % (v,))
            for s in states:
                s = close_eqs(s)
                if s is None or s.empty() or flt.infeasible(s.atoms):
                    continue
                res.outcomes += 1
                for n in fields:
                    a, b = c.this.f.get(n), c.args[0].f.get(n)
                    if a is None or b is None:
                        continue
                    res.obligations += 1
                    ok = True
                    if isinstance(a, Fl):
                        w = self.floats(A, f, n)
                        ok = w is None
                    else:
                        w = None
                        for s2, eq in cmp_rv(c, s, a, PS(b.p) if isinstance(b, Seq) else b):
                            if not eq:
                                ok = False
                                w = witness(c, s2, lambda m: differs_rv(m, c, a, PS(b.p) if isinstance(b, Seq) else b), (), 40)
                    if ok:
                        res.discharged += 1
                    elif w is None:
                        res.undecided.append('equality does not fix the field %s (no concrete witness)' % n)
                    else:
                        res.problems.append(Problem(('C09',), 'values that compare equal may differ in %s, which the hash uses%s' % (n, ' (by less than 2^-52)' if w.startswith('closer') else ''), self.key, loc, w))

    def floats(self, A, f, part):
        """constant propagation of operator== on pairs that differ in one component"""
        for x, y in ((3.0, 2e9), (-1.0, 1.0), (1.0, 1.5), (1e16, 1e16 + 2), (3.0, 3.0000001), (2.0, 2.0 + 2.0 ** -40), (1.0, 1.0 + 2.0 ** -51), (0.0, 1e-17), (1e-20, -1e-20), (0.0, 1e-300)):
            for im in (part == 'imag_',):
                I = Interp(A.P)
                st = State()
                rec = A.P.rec(f['cls'])

                def mk(v):
                    r = I.default_record(rec)
                    g = dict(r.f)
                    for n in ('real_', 'imag_'):
                        if n not in g:
                            raise Giveup('components')
                        g[n] = Fl(1.0)
                    g['imag_' if im else 'real_'] = Fl(v)
                    return Struct(r.cls, g)
                st.store['this'] = mk(x)
                b = st.alloc(mk(y), 'b')
                outs = [o for o in I.run(st, f['fid'], Addr('this'), [b]) if not o.st.empty() and not flt.infeasible(o.st.atoms)]
                if len(outs) == 1 and outs[0].kind == 'ret' and not outs[0].st.taint:
                    v = outs[0].val
                    d = v if isinstance(v, bool) else outs[0].st.decide(v) if is_cond(v) else (outs[0].st.nl(v).c != 0 if isinstance(v, Lin) and outs[0].st.nl(v).is_const() else None)
                    if d is True:
                        return ('' if abs(x - y) >= 2.0 ** -52 else 'closer than 2^-52: ') + '%s part %r and %r compare equal' % ('imaginary' if im else 'real', x, y)
        return None


class EqualInts(intcomp.IntOp):
    """integers that compare equal are the same number, hence stored identically (C07)"""

    def run(self, A):
        r = super().run(A)
        r.problems = [Problem(('C09',), 'different integers compare equal', p.fn, p.loc, p.witness) for p in r.problems if p.what.startswith('is True')]
        return r


def components():
    import itertools
    return [Hash(c) for c in ('Int', 'Str', 'Fraction', 'Complex')] + [EqualInts('Int.operator==(Int) const', s) for s in itertools.product((1, 0, -1), repeat=2)]
