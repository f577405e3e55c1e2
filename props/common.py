"""Pieces shared by the property modules: complex terms, callee contracts, sources."""
from gpv import terms as t
from gpv.terms import INT, REAL, BOOL, STR, T
from gpv.symex import Val, Obj, State, ToolLimit
from gpv.scen import Scenario, Ob

COMP = 'applications/components/'
BASE_SRC = ['component/base_component.cpp', 'component/data_collection.cpp']
NAT_BASE = ['component/base_component.cpp', 'component/data_collection.cpp', 'component/base_analytics_intfc.cpp']


class Cx:
    """complex number over real terms"""
    __slots__ = ('re', 'im')

    def __init__(s, re, im=0):
        s.re, s.im = t.lift(re, REAL), t.lift(im, REAL)

    def __add__(a, b): b = cx(b); return Cx(a.re + b.re, a.im + b.im)
    __radd__ = __add__
    def __sub__(a, b): b = cx(b); return Cx(a.re - b.re, a.im - b.im)
    def __rsub__(a, b): return cx(b) - a
    def __neg__(a): return Cx(-a.re, -a.im)
    def __mul__(a, b): b = cx(b); return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    __rmul__ = __mul__
    def conj(a): return Cx(a.re, -a.im)
    def abs2(a): return a.re * a.re + a.im * a.im

    def __truediv__(a, b):
        b = cx(b); d = b.abs2(); n = a * b.conj()
        return Cx(n.re / d, n.im / d)

    def __rtruediv__(a, b): return cx(b) / a

    def parts(s): return (('re', s.re), ('im', s.im))


def cx(x):
    if isinstance(x, Cx): return x
    if isinstance(x, tuple): return Cx(*x)
    if not isinstance(x, (T, int, float)): raise TypeError("not a number: %r" % (x,))
    return Cx(x, 0)


def polar(m, a): return Cx(m * t.cos(a), m * t.sin(a))
J = Cx(0, 1)


def cite(c, a, b=None):
    a, b = cx(a), cx(b if b is not None else 0)
    return Cx(t.ite(c, a.re, b.re), t.ite(c, a.im, b.im))


def csum(f, n, lo=0):
    """sum_{lo<=i<n} f(i)"""
    i = t.fresh('i', INT)
    z = f(i)
    if isinstance(z, Cx): return Cx(t.bsum(i, z.re, t.lift(lo, INT), t.lift(n, INT)), t.bsum(i, z.im, t.lift(lo, INT), t.lift(n, INT)))
    return t.bsum(i, z, t.lift(lo, INT), t.lift(n, INT))


def allk(f, n, lo=0):
    i = t.fresh('i', INT)
    return t.forall((i,), t.implies(t.and_(t.le(t.lift(lo, INT), i), t.lt(i, t.lift(n, INT))), f(i)))


def cval(P, z):
    """a std::complex<double> value"""
    ty = P.types.get('std::complex<double>')
    return Val(ty, {'.re': z.re, '.im': z.im})


def post_cx(s, label, got, want, native=None, **kw):
    """got: thunk/Val/(re,im); native: C++ expression of a complex"""
    want = cx(want)

    def part(i):
        def f():
            g = got() if callable(got) else got
            if isinstance(g, Cx): return (g.re, g.im)[i]
            if isinstance(g, Val): return g.l[('.re', '.im')[i]]
            return g[i]
        return f
    if s.limited: got = None
    s.post(label + '.re', part(0) if got is not None else None, want.re, native='(%s).real()' % native if native else None, **kw)
    s.post(label + '.im', part(1) if got is not None else None, want.im, native='(%s).imag()' % native if native else None, **kw)
