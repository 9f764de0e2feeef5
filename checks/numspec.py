"""Documented behaviour of Tuple and Complex (and, below, Fraction)."""
from .core import *          # noqa
from .core import Any as ANY

# ---------------------------------------------------------------- tuples


def lit(text):
    return tuple(('one', L(ord(ch))) for ch in text)


def eqs(c, pairs):
    r = True
    for i, j in pairs:
        r = c_and(r, c.I.eq_values(c.st, c.a(i), c.a(j), None))
    return r


def tspec(name, types, out):
    """out: function of the context"""
    return Spec('.%s(%s)' % (name, ','.join('vt::' + t if t.startswith('X') else t for t in types)), lambda c: [(True, out(c))], value=('C28',))


def tuple_specs():
    X3 = ['X0', 'X1', 'X2']
    X4 = ['X0'] * 4
    arg = lambda i: (lambda c: Ret(c.a(i)))
    val = lambda v: (lambda c: Ret(v))
    out = [tspec('t1get0', ['X0'], arg(0)), tspec('t2get0', X3[:2], arg(0)), tspec('t2get1', X3[:2], arg(1))]
    for i in range(3):
        out.append(tspec('t3get%d' % i, X3, arg(i)))
        out.append(tspec('m3get%d' % i, X3, arg(i)))
    for i in range(4):
        out.append(tspec('s4get%d' % i, X4, arg(i)))
    out += [tspec('r3get0', X3, arg(1)), tspec('r3get1', X3, arg(2)), tspec('r3r0', X3, arg(2)), tspec('s4r2', X4, arg(3)), tspec('s4r0', X4, arg(1))]
    out += [tspec('size0', [], val(L(0))), tspec('size1', ['X0'], val(L(1))), tspec('size2', X3[:2], val(L(2))), tspec('size3', X3, val(L(3))), tspec('size4', X4, val(L(4))),
            tspec('rsize3', X3, val(L(2))), tspec('rsize1', ['X0'], val(L(0)))]
    for nm, neg in (('eq', False), ('ne', True)):
        f = c_not if neg else (lambda x: x)
        out.append(tspec(nm + '0', [], val(f(True))))
        for n in (1, 2, 3):
            out.append(tspec('%s%d' % (nm, n), X3[:n] * 2, (lambda n, f: lambda c: Ret(f(eqs(c, [(i, n + i) for i in range(n)]))))(n, f)))
    out.append(tspec('eqs3', ['X0'] * 6, lambda c: Ret(eqs(c, [(0, 3), (1, 4), (2, 5)]))))
    for a, b in ((0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)):
        out.append(tspec('leneq%d%d' % (a, b), ['X0'] * (a + b), val(False)))
        if a + b != 2:
            out.append(tspec('lenne%d%d' % (a, b), ['X0'] * (a + b), val(True)))
    out += [tspec('typeq1', ['X0', 'X1'], val(False)), tspec('typeq2', ['X0', 'X1', 'X0', 'X2'], val(False)), tspec('typeq3', ['X0', 'X1', 'X1', 'X0'], val(False)),
            tspec('typne2', ['X0', 'X1', 'X0', 'X2'], val(True))]

    XN = lambda n: ['X%d' % (i % 3) for i in range(n)]
    for n in (5, 6, 8):
        out += [tspec('t%dget%d' % (n, i), XN(n), arg(i)) for i in range(n)] + [tspec('r%dget%d' % (n, i), XN(n), arg(i + 1)) for i in range(n - 1)]
        out.append(tspec('size%d' % n, XN(n), val(L(n))))
    for n in (4, 5, 6, 8):
        for nm, f in (('eq', lambda x: x), ('ne', c_not)):
            out.append(tspec('%s%d' % (nm, n), XN(n) * 2, (lambda n, f: lambda c: Ret(f(eqs(c, [(i, n + i) for i in range(n)]))))(n, f)))
    for a, b in ((3, 4), (4, 3), (4, 5), (5, 4), (5, 6), (6, 5)):
        out += [tspec('leneq%d%d' % (a, b), ['X0'] * (a + b), val(False)), tspec('lenne%d%d' % (a, b), ['X0'] * (a + b), val(True))]
    for n in (4, 5, 6):
        t = XN(n) * 2
        t[-1] = 'X%d' % (n % 3)
        out += [tspec('typeql%d' % n, t, val(False)), tspec('typnel%d' % n, t, val(True))]

    def printed(n):
        def f(c):
            t = lit('(')
            for i in range(n):
                t += (('one', c.a(i + 1)),) + (lit(', ') if i < n - 1 else lit(',') if n == 1 else ())
            return Ret(None, args={0: PS(t + lit(')'))})
        return f
    for n, ts in ((0, []), (1, ['X0']), (2, X3[:2]), (3, X3), (4, X4), (5, XN(5)), (6, XN(6)), (8, XN(8))):
        s = tspec('print%d' % n, ['basic_ostream'] + ts, printed(n))
        s.value = ('C24',)
        out.append(s)
    return out


# ---------------------------------------------------------------- complex numbers

def T(x):
    return x.t if isinstance(x.t, Term) else Term('fl', repr(x.t))


def fop(op, *a):
    return Fl(Term(op, *[T(x) for x in a]))


def add(a, b): return fop('f+', a, b)
def sub(a, b): return fop('f-', a, b)
def mul(a, b): return fop('f*', a, b)
def div(a, b): return fop('f/', a, b)
def neg(a): return fop('fneg', a)


F0, F1 = Fl(0.0), Fl(1.0)
SMALL = Fl(1e-6)


def fatom(op, a, b):
    x, y = T(a), T(b)
    if op == 'feq':
        x, y = sorted((x, y), key=lambda t: t.id)
    return ('atom', Term(op, x, y))


def feq(a, b):
    if a == b:
        return True
    return fatom('feq', a, b)


def far(a, b):
    """clearly different"""
    return fatom('fle', SMALL, fop('fabs', sub(a, b)))


def cplx(r, i):
    return Struct('pyincpp::Complex', {'real_': r, 'imag_': i})


def re_(v): return v.f['real_']
def im_(v): return v.f['imag_']


def cequal(a, b):
    return c_and(feq(re_(a), re_(b)), feq(im_(a), im_(b)))


def cfar(a, b):
    return c_or(far(re_(a), re_(b)), far(im_(a), im_(b)))


ZEROC = cplx(F0, F0)


def cdiv(a, b):
    den = add(mul(re_(b), re_(b)), mul(im_(b), im_(b)))
    return cplx(div(add(mul(re_(a), re_(b)), mul(im_(a), im_(b))), den), div(sub(mul(im_(a), re_(b)), mul(re_(a), im_(b))), den))


ARITH = {
    '+': lambda a, b: cplx(add(re_(a), re_(b)), add(im_(a), im_(b))),
    '-': lambda a, b: cplx(sub(re_(a), re_(b)), sub(im_(a), im_(b))),
    '*': lambda a, b: cplx(sub(mul(re_(a), re_(b)), mul(im_(a), im_(b))), add(mul(re_(a), im_(b)), mul(im_(a), re_(b)))),
    '/': cdiv,
}


def cpow(b, e):
    ab, ar = fop('hypot', re_(b), im_(b)), fop('atan2', im_(b), re_(b))
    coef = mul(fop('pow', ab, re_(e)), fop('exp', mul(neg(ar), im_(e))))
    th = add(mul(fop('log', ab), im_(e)), mul(ar, re_(e)))
    return cplx(mul(coef, fop('cos', th)), mul(coef, fop('sin', th)))


def mark(specs, wit):
    for s in specs:
        s.wit = wit
    return specs


def num(v):
    return ('one', Obj('num', 'double', v))


def complex_specs():
    V = ('C31',)
    one = lambda f: lambda c: [(True, Ret(f(c)))]
    K = 'Complex.'
    out = []
    sp = lambda key, cases, **kw: out.append(Spec(K + key, cases, **kw))
    sp('Complex(double,double)', lambda c: [(True, Ret(VOID, cplx(c.a(0), c.a(1))))], value=V, defaults={0: Fl(0.0), 1: Fl(0.0)})
    sp('Complex(Complex)', lambda c: [(True, Ret(VOID, c.a(0)))], value=('C22',))
    sp('Complex(Complex&&)', lambda c: [(True, Ret(VOID, c.a(0), args={0: ZEROC}))], value=('C22',))
    sp('operator=(Complex)', lambda c: [(True, Ret(Self(), c.a(0)))], value=('C22',), modes=('self',))
    sp('operator=(Complex&&)', lambda c: [(True, Ret(Self(), c.a(0), args={0: ZEROC}))], value=('C22',))
    for nm, f in (('real', lambda c: re_(c.this)), ('imag', lambda c: im_(c.this)), ('abs', lambda c: fop('hypot', re_(c.this), im_(c.this))),
                  ('arg', lambda c: fop('atan2', im_(c.this), re_(c.this))), ('conjugate', lambda c: cplx(re_(c.this), neg(im_(c.this)))),
                  ('operator+', lambda c: c.this), ('operator-', lambda c: cplx(neg(re_(c.this)), neg(im_(c.this))))):
        sp(nm + '() const', one(f), value=V, query=True)
    sp('operator==(Complex) const', lambda c: [(cequal(c.this, c.a(0)), Ret(True)), (cfar(c.this, c.a(0)), Ret(False)), (True, ANY())], value=V, query=True, modes=('self',))
    for o in '+-*/':
        f = ARITH[o]
        pre = (lambda c: [(cequal(c.a(0), ZEROC), Throw('zero'))]) if o == '/' else (lambda c: [])

        def val(c, f=f, pre=pre, o=o):
            r = Ret(f(c.this, c.a(0)))
            return pre(c) + ([(cfar(c.a(0), ZEROC), r), (True, Either(Throw('zero'), r))] if o == '/' else [(True, r)])

        def inp(c, f=f, pre=pre, o=o):
            r = Ret(Self(), f(c.this, c.a(0)))
            return pre(c) + ([(cfar(c.a(0), ZEROC), r), (True, Either(Throw('zero'), r))] if o == '/' else [(True, r)])
        sp('operator%s(Complex) const' % o, val, value=V, query=True, modes=('self',), throws=('zero',) if o == '/' else ())
        sp('operator%s=(Complex)' % o, inp, value=V, modes=('self',), throws=('zero',) if o == '/' else ())

    def pw(c):
        b, e = c.a(0), c.a(1)
        one_ = cplx(F1, F0)
        return [(cequal(e, ZEROC), Ret(one_)), (c_not(cfar(e, ZEROC)), ANY()), (cequal(b, ZEROC), Throw('domain')), (c_not(cfar(b, ZEROC)), ANY()), (True, Ret(cpow(b, e)))]
    sp('pow(Complex,Complex)', pw, value=V, query=True, throws=('domain',))

    def pr(c):
        z = c.a(1)
        body = lambda sg: Ret(None, args={0: PS(lit('(') + (num(re_(z)),) + lit(sg) + (num(fop('fabs', im_(z))),) + lit('j)'))})
        return [(fatom('flt', im_(z), F0), body('-')), (True, body('+'))]
    out.append(Spec('.operator<<(basic_ostream,Complex)', pr, value=('C24',)))
    mark(out, 400)
    return out


# ---------------------------------------------------------------- fractions

def frac_inv(c, st, v):
    """every existing fraction is in lowest terms with a positive denominator"""
    if isinstance(v, Struct) and v.cls == 'pyincpp::Fraction' and c.f.get('ctor') is not True or isinstance(v, Struct) and v.cls == 'pyincpp::Fraction' and v is not c.this:
        n, d = v.f['numerator_'], v.f['denominator_']
        if not isinstance(n, Lin) or not n.t:
            return
        st.add_ge(n - INT_MIN)
        st.add_ge(INT_MAX - n)
        st.add_ge(d - 1)
        st.add_ge(INT_MAX - d)
        st.add_eq(t_gcd(n, d) - 1)


INVS.append(frac_inv)


def nu(v): return v.f['numerator_']
def de(v): return v.f['denominator_']


def fr(n, d):
    return Struct('pyincpp::Fraction', {'numerator_': L(n), 'denominator_': L(d)})


FARITH = {
    '+': lambda a, b: Q(nu(a) * de(b) + nu(b) * de(a), de(a) * de(b)),
    '-': lambda a, b: Q(nu(a) * de(b) - nu(b) * de(a), de(a) * de(b)),
    '*': lambda a, b: Q(nu(a) * nu(b), de(a) * de(b)),
    '/': lambda a, b: Q(nu(a) * de(b), de(a) * nu(b)),
}


def qret(val, q, post=None):
    return Ret(val, post, limit=q)


def fraction_specs():
    V = ('C10',)
    K = 'Fraction.'
    out = []
    sp = lambda key, cases, **kw: out.append(Spec(K + key, cases, **kw))
    sp('Fraction(int,int)', lambda c: [(c_eq(c.a(1)), Throw('zero')), (True, qret(VOID, Q(c.a(0), c.a(1)), Q(c.a(0), c.a(1))))], value=V, throws=('zero',), defaults={0: L(0), 1: L(1)})
    sp('Fraction(Fraction)', lambda c: [(True, Ret(VOID, c.a(0)))], value=('C22',))
    sp('Fraction(Fraction&&)', lambda c: [(True, Ret(VOID, c.a(0), args={0: fr(0, 1)}))], value=('C22',))
    sp('operator=(Fraction)', lambda c: [(True, Ret(Self(), c.a(0)))], value=('C22',), modes=('self',))
    sp('operator=(Fraction&&)', lambda c: [(True, Ret(Self(), c.a(0), args={0: fr(0, 1)}))], value=('C22',))
    sp('numerator() const', lambda c: [(True, Ret(nu(c.this)))], value=V, query=True)
    sp('denominator() const', lambda c: [(True, Ret(de(c.this)))], value=V, query=True)
    sp('operator double() const', lambda c: [(True, Ret(Fl(Term('f/', Term('i2d', nu(c.this)), Term('i2d', de(c.this))))))], value=V, query=True)
    sp('operator+() const', lambda c: [(True, qret(Q(nu(c.this), de(c.this)), Q(nu(c.this), de(c.this))))], value=V, query=True)
    sp('operator-() const', lambda c: [(True, qret(Q(-nu(c.this), de(c.this)), Q(-nu(c.this), de(c.this))))], value=V, query=True)

    def ab(c):
        n, d = nu(c.this), de(c.this)
        return [(c_ge(n), qret(Q(n, d), Q(n, d))), (True, qret(Q(-n, d), Q(-n, d)))]
    sp('abs() const', ab, value=V, query=True)
    for o in '+-*/':
        f = FARITH[o]
        th = ('zero',) if o == '/' else ()
        pre = (lambda c: [(c_eq(nu(c.a(0))), Throw('zero'))]) if o == '/' else (lambda c: [])
        sp('operator%s(Fraction) const' % o, (lambda f, pre: lambda c: pre(c) + [(True, qret(f(c.this, c.a(0)), f(c.this, c.a(0))))])(f, pre), value=V, query=True, modes=('self',), throws=th)
        sp('operator%s=(Fraction)' % o, (lambda f, pre: lambda c: pre(c) + [(True, qret(Self(), f(c.this, c.a(0)), f(c.this, c.a(0))))])(f, pre), value=V, modes=('self',), throws=th)

    def rem(c):
        return nu(c.this) * de(c.a(0)), nu(c.a(0)) * de(c.this), de(c.this) * de(c.a(0))

    def remspec(inplace):
        def cases(c):
            a, b, d = rem(c)
            cs = [(c_eq(nu(c.a(0))), Throw('zero'))]

            def mk(r):
                q = Q(r, d)
                return qret(Self() if inplace else q, q, q if inplace else None)
            s0 = c.st
            F = lambda x, y: t_fmod(s0.nl(x), s0.nl(y))
            p = c_ge(nu(c.a(0)) - 1)
            cs += [(c_and(p, c_ge(nu(c.this))), mk(F(a, b))), (c_and(p, c_eq(F(a, b))), mk(ZERO)), (p, mk(F(a, b) - b)),
                   (c_ge(nu(c.this)), mk(F(a, -b))), (c_eq(F(a, -b)), mk(ZERO)), (True, mk(F(a, -b) + b))]
            return cs
        return cases
    sp('operator%(Fraction) const', remspec(False), value=V, query=True, modes=('self',), throws=('zero',))
    sp('operator%=(Fraction)', remspec(True), value=V, modes=('self',), throws=('zero',))
    inc = lambda k: lambda c: [(True, qret(Self(), Q(nu(c.this) + de(c.this).scale(k), de(c.this)), Q(nu(c.this) + de(c.this).scale(k), de(c.this))))]
    sp('operator++()', inc(1), value=V)
    sp('operator--()', inc(-1), value=V)
    out.append(Spec('.operator<<(basic_ostream,Fraction)', lambda c: [
        (c_eq(de(c.a(1)) - 1), Ret(None, args={0: PS((inum(nu(c.a(1))),))})),
        (True, Ret(None, args={0: PS((inum(nu(c.a(1))),) + lit('/') + (inum(de(c.a(1))),))}))], value=('C24',)))
    diff = lambda c: nu(c.a(0)) * de(c.a(1)) - nu(c.a(1)) * de(c.a(0))
    # two fractions in lowest terms with positive denominators are equal exactly when both parts are
    parts = lambda c: c_and(c_eq(nu(c.a(0)) - nu(c.a(1))), c_eq(de(c.a(0)) - de(c.a(1))))
    for nm, f in (('eq', parts), ('ne', lambda c: c_not(parts(c)))):
        out.append(Spec('.fr%s(Fraction,Fraction)' % nm, (lambda f: lambda c: [(True, Ret(f(c)))])(f), value=('C08',), query=True))
    for nm, f in (('lt', lambda x: c_ge(-x - 1)), ('gt', lambda x: c_ge(x - 1)), ('le', lambda x: c_ge(-x)), ('ge', c_ge)):
        out.append(Spec('.fr%s(Fraction,Fraction)' % nm, (lambda f: lambda c: [(True, Ret(f(diff(c))))])(f), value=('C08',), query=True))
    mark(out, 120)
    return out


def inum(v):
    return ('one', Obj('num', 'int', v))


# ---------------------------------------------------------------- printed form of the containers

def joined(c, op_, cl, base, n, first, item):
    """open, item(0), then ", " item(k+1) for k < n-1, close"""
    K = L(Term('sym', '$k'))
    return [(c_eq(n), Ret(None, args={0: PS(lit(op_ + cl))})),
            (True, Ret(None, args={0: PS(lit(op_) + item(ZERO) + (('cm', lit(', ') + item(K + 1), n - 1),) + lit(cl))}))]


def print_specs():
    out = []
    for cls, o, cl in (('List', '[', ']'), ('Deque', '<', '>'), ('Set', '{', '}')):
        def f(c, o=o, cl=cl):
            q = seq_of(c.a(1)).p
            n = pslen(q)
            b = q[0][1]
            return joined(c, o, cl, b, n, None, lambda i: (('sl', b, L(i), L(i) + 1),))
        out.append(Spec('.operator<<(basic_ostream,%s)' % cls, f, value=('C24',)))

    def d(c):
        q = seq_of(c.a(1))
        n, b = pslen(q.p), q.p[0][1]

        def item(i):
            v = mk_at(b, L(i), q.et)
            return (('one', v.f['first']),) + lit(': ') + (('one', v.f['second']),)
        return joined(c, '{', '}', b, n, None, item)
    out.append(Spec('.operator<<(basic_ostream,Dict)', d, value=('C24',)))
    out.append(Spec('.operator<<(basic_ostream,Str)', lambda c: [(True, Ret(None, args={0: PS(lit('"') + tuple(seq_of(c.a(1)).p) + lit('"'))}))], value=('C24',)))
    return out


# ---------------------------------------------------------------- comparisons

def lexlt(c, a, b):
    return c.I.ord_cond(c.st, '<', Obj('ord', a, b), None)


def compare_specs():
    out = []
    for p, cls in (('li', 'List'), ('de', 'Deque'), ('st', 'Str')):
        A = lambda c: seq_of(c.a(0))
        B = lambda c: seq_of(c.a(1))
        lt = lambda c: lexlt(c, A(c), B(c))
        gt = lambda c: lexlt(c, B(c), A(c))
        eq = lambda c: c.I.eq_values(c.st, A(c), B(c), None)
        for nm, f in (('lt', lt), ('gt', gt), ('le', lambda c: c_not(gt(c))), ('ge', lambda c: c_not(lt(c))), ('eq', eq), ('ne', lambda c: c_not(eq(c)))):
            out.append(Spec('.%s%s(%s,%s)' % (p, nm, cls, cls), (lambda f: lambda c: [(True, Ret(f(c)))])(f), value=('C08',), query=True))
    return out


def specs():
    return compare_specs() + fraction_specs() + print_specs() + tuple_specs() + complex_specs()
