"""Full-Y dynamic simulation: machines, exciters, governors and their control blocks."""
from fractions import Fraction
from props.common import *
from props.bag import Bag, key, KEYS
from gpv.cuts import Cuts

FY = 'applications/modules/dynamic_simulation_full_y/'
INCS = [FY, FY + 'base_classes', FY + 'model_classes']
BASES = ['base_exciter_model', 'base_governor_model', 'base_pss_model', 'base_generator_model', 'base_plant_model', 'base_mechanical_model', 'base_relay_model', 'base_load_model']
ZERO, ONE = t.R(0), t.R(1)
PRED, CORR = 0, 1
NS = 'gridpack::dynamic_simulation::'


def some_positive(k):
    """sampler of a positive parameter"""
    return lambda r, sh: r.uniform(0.05, 5)


def expand(s, x):
    """x without cut variables"""
    for it in s.cuts.items[::-1]:
        if it[0] == 'def': x = t.subst(x, {it[1]: it[2]})
    return x


def mn(a, b): return t.ite(t.lt(b, a), b, a)
def mx(a, b): return t.ite(t.lt(a, b), b, a)
def clamp(x, lo, hi): return mx(lo, mn(x, hi))


class Blk:
    """a control block embedded in a model: documented transfer function (b0 s + b1)/(a0 s + a1) and its limits;
    its state variables are inputs of the scenario"""
    def __init__(b, s, o, field, tf, xlim=None, ylim=None, dxlim=None):
        b.s, b.o, b.field = s, o, field
        b0, b1, a0, a1 = [t.lift(v, REAL) for v in tf]
        b.A, b.B, b.D = -a1 / a0, b1 / a0 - a1 * b0 / (a0 * a0), b0 / a0
        b.integ = tf[3] == 0
        b.g = None if b.integ else b1 / a1
        L = lambda z: tuple(t.lift(v, REAL) for v in z) if z else (t.R(-1000), t.R(1000))
        b.xl, b.yl, b.dl = L(xlim), L(ylim), L(dxlim)

    def start(b, what=('x', 'p_xhat', 'p_dxdt')):
        """arbitrary state variables"""
        s, o = b.s, b.o
        for f in what:
            nm = 'st_%s_%s_%s' % (o.name, b.field, f)
            v = s.input(nm, 'double')
            if not s.limited:
                cur = s.ex.fld(s.st, o.ref, o.cls, b.field).l
                s.ex.setfld(s.st, o.ref, o.cls, b.field, {k: (t.store(w, t.I(0), v.x) if k == '.%s[]' % f else w) for k, w in cur.items()})
            s.native('o_%s->%s.%s[0] = in_%s;' % (o.name, b.field, f, nm))
        return b

    def at(b, f, st=None):
        return t.select(b.s.ex.fld(st or b.s.st, b.o.ref, b.o.cls, b.field).l['.%s[]' % f], t.I(0))

    def nat(b, f): return 'o_%s->%s.%s[0]' % (b.o.name, b.field, f)

    def freeze(b):
        """remember the current state variables; the specification of the next stage starts from them"""
        b.x, b.xh, b.dx = (b.at(f) for f in ('x', 'p_xhat', 'p_dxdt')) if not b.s.limited else (t.fresh('lim', REAL),) * 3

    def out(b, u, dt, stage):
        """documented output of the stage for input u; remembers the new state variables"""
        x0 = b.x if stage == PRED else b.xh
        if b.s.cuts is not None and u.op not in ('v', 'c'): u = b.s.cuts.define('u_' + b.field, u)
        y = clamp(x0 + b.D * u, *b.yl)
        r = clamp(b.A * x0 + b.B * u, *b.dl)
        if b.s.cuts is not None: y = b.s.cuts.define('y_' + b.field, y)
        if stage == PRED: b.new = {'p_dxdt': r, 'p_xhat': clamp(b.x + dt * r, *b.xl), 'x': b.x}
        else:
            r = clamp((b.dx + b.A * x0 + b.B * u) / 2, *b.dl)
            b.new = {'x': clamp(b.x + dt * r, *b.xl)}
        return y

    def lim(b, v, z):
        b.s.assume(t.le(z[0], v), t.le(v, z[1]))

    def ss_y(b, y):
        """steady input for the output y; its limits become hypotheses"""
        if b.integ: u, x = ZERO, y
        else: u = y / b.g; x = y - b.D * u
        b.xs, b.us, b.ys = x, u, y
        b.lim(x, b.xl); b.lim(y, b.yl)
        return u

    def ss_u(b, u):
        x = (b.g - b.D) * u
        b.xs, b.us, b.ys = x, u, b.g * u
        b.lim(x, b.xl); b.lim(b.g * u, b.yl)
        return b.g * u

    def posts(b, tag):
        for f, w in b.new.items():
            b.s.post('%s: %s of %s' % (tag, {'p_dxdt': 'rate', 'p_xhat': 'predicted state', 'x': 'state'}[f], b.field), lambda f=f: b.at(f), w, native=b.nat(f))


class Gain:
    """a gain with limits"""
    def __init__(b, s, K, lo, hi): b.s, b.K, b.l = s, K, (lo, hi)
    def out(b, u, dt, stage):
        if b.s.cuts is not None and u.op not in ('v', 'c'): u = b.s.cuts.define('u_gain', u)
        y = clamp(b.K * u, *b.l)
        return y if b.s.cuts is None else b.s.cuts.define('y_gain', y)
    def ss_y(b, y):
        b.s.assume(t.le(b.l[0], y), t.le(y, b.l[1]))
        return y / b.K


def lag(K, T): return (0, K, T, 1)
def leadlag(TA, TB): return (TA, 1, TB, 1)
def pi(Kp, Ki): return (Kp, Ki, 1, 0)
def integ(T): return (0, 1, T, 0)
def washout(K, T): return (K, 0, T, 1)


def steady_contracts(q):
    """at an equilibrium a control block is used through its contract (s_block): steady input, state and output"""
    ex, checked = q.s.ex, set()

    def of(this, ex):
        if len(this) != 1: return None
        l = this[0][1]
        for b in q.blks:
            if getattr(l, 'path', None) == '.' + b.field and l.idx == (b.o.ref,): return b, l
        return None

    def inline(ex, st, this, args, e):
        f = ex.P.funcs.get(e.get('f'))
        return ex.call_body(f, this[0][1], ex.bind_args(f, args, st), st, e)

    def wr(ex, st, l, **kw):
        v = ex.read(st, l)
        for f, x in kw.items(): v.l['.%s[]' % f] = t.store(v.l['.%s[]' % f], t.I(0), x)
        ex.write(st, l, v)

    def pre(ex, st, b, l, e, goals):
        for d, g in goals: ex.oblige(st, 'pre', '%s: %s' % (b.field, d), e.get('l'), g)

    def coeffs(ex, st, b, l, e):
        if b.field in checked: return
        checked.add(b.field)
        v = ex.read(st, l).l
        A, B, C, D = [t.select(v['.p_%s[]' % k], t.I(0)) for k in 'ABCD']
        pre(ex, st, b, l, e, [('steady state', t.eq(A * b.xs + B * b.us, ZERO)), ('steady output', t.eq(C * b.xs + D * b.us, b.ys)),
                              ('C', t.eq(C, ONE))])

    big = lambda x: t.le(t.R(Fraction(1, 10**10)), t.ite(t.lt(x, ZERO), -x, x))

    def cf(ex, st, l):
        v = ex.read(st, l).l
        return [t.select(v['.p_%s[]' % k], t.I(0)) for k in 'ABD']

    def getoutput(ex, st, this, args, e):
        x = of(this, ex)
        if not x or len(args) != 4: return inline(ex, st, this, args, e)
        b, l = x
        u, dt, stage, flag = [ex.ev(a, st) for a in args]
        coeffs(ex, st, b, l, e)
        v = ex.read(st, l).l
        g = [('input', t.eq(u.x, b.us)), ('state', t.eq(t.select(v['.x[]'], t.I(0)), b.xs)),
             ('state limits', t.and_(t.le(v['.p_xmin'], b.xs), t.le(b.xs, v['.p_xmax']))),
             ('output limits', t.and_(t.le(v['.p_ymin'], b.ys), t.le(b.ys, v['.p_ymax']))),
             ('rate limits', t.and_(t.le(v['.p_dxmin'], ZERO), t.le(ZERO, v['.p_dxmax'])))]
        corr = t.eq(stage.x, t.I(CORR))
        if corr is t.TRUE:
            g += [('predicted state', t.eq(t.select(v['.p_xhat[]'], t.I(0)), b.xs)), ('predicted rate', t.eq(t.select(v['.p_dxdt[]'], t.I(0)), ZERO))]
            pre(ex, st, b, l, e, g); wr(ex, st, l, x=b.xs)
        else:
            g += [('stage', t.eq(stage.x, t.I(PRED)))]
            pre(ex, st, b, l, e, g); wr(ex, st, l, p_xhat=b.xs, p_dxdt=ZERO)
        pre(ex, st, b, l, e, [('update', flag.x)])
        return Val(e['t'], {'': b.ys})

    def init_y(ex, st, this, args, e):
        x = of(this, ex)
        if not x: return inline(ex, st, this, args, e)
        b, l = x
        y = ex.ev(args[0], st)
        coeffs(ex, st, b, l, e)
        A, B, D = cf(ex, st, l)
        pre(ex, st, b, l, e, [('output', t.eq(y.x, b.ys)), ('coefficients', t.or_(t.and_(t.eq(A, ZERO), t.ne(B, ZERO)), t.and_(big(A), t.ne(D * A - B, ZERO))))])
        wr(ex, st, l, x=b.xs)
        return Val(e['t'], {'': b.us})

    def init_u(ex, st, this, args, e):
        x = of(this, ex)
        if not x: return inline(ex, st, this, args, e)
        b, l = x
        u = ex.ev(args[0], st)
        coeffs(ex, st, b, l, e)
        A, B, D = cf(ex, st, l)
        pre(ex, st, b, l, e, [('input', t.eq(u.x, b.us)), ('coefficients', t.and_(big(A), t.or_(t.eq(B, ZERO), big(B))))])
        wr(ex, st, l, x=b.xs)
        return Val(e['t'], {'': b.ys})

    def gain(ex, st, this, args, e):
        if len(args) != 1 or len(this) != 1: return inline(ex, st, this, args, e)
        v = ex.read(st, this[0][1]).l
        y = v['.p_K'] * ex.ev(args[0], st).x
        ex.oblige(st, 'pre', '%s: limits' % this[0][1].path, e.get('l'), t.and_(t.le(v['.p_ymin'], y), t.le(y, v['.p_ymax'])))
        return Val(e['t'], {'': y})

    ex.contracts.update({'GainLimiter::getoutput': gain, 'Cblock::getoutput': getoutput, 'Cblock::init_given_y': init_y, 'Cblock::init_given_u': init_u})
