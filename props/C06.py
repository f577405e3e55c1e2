"""Control blocks realise their documented transfer functions, limits and characteristics."""
from fractions import Fraction
from props.common import *

DIR = 'applications/modules/dynamic_simulation_full_y/'
SOURCES = [DIR + 'cblock.cpp', DIR + 'dblock.cpp']
NATIVE = dict(srcs=SOURCES, headers=['%scblock.hpp' % DIR, '%sdblock.hpp' % DIR], incs=[DIR])
PRED, CORR = 0, 1
EPS10 = t.R(Fraction(1, 10**10))
# name, parameters, (b0, b1, a0, a1) of the documented transfer function (b0 s + b1)/(a0 s + a1)
BLOCKS = [('PIControl', ('Kp', 'Ki'), lambda Kp, Ki: (Kp, Ki, t.R(1), t.R(0))),
          ('Filter', ('K', 'T'), lambda K, T: (t.R(0), K, T, t.R(1))),
          ('LeadLag', ('TA', 'TB'), lambda TA, TB: (TA, t.R(1), TB, t.R(1))),
          ('Integrator', ('T',), lambda T: (t.R(0), t.R(1), T, t.R(0)))]


def clamp(x, lo, hi): return t.ite(t.lt(hi, x), t.ite(t.lt(hi, lo), lo, hi), t.ite(t.lt(x, lo), lo, x))


def absv(x): return t.ite(t.lt(x, t.R(0)), -x, x)


class Blk:
    """the state-space form held by a block"""
    def __init__(b, s, o, old=True):
        b.s, b.o = s, o
        b.st = State() if old else s.st

    def a(b, f): return t.select(b.s.ex.fld(b.st, b.o.ref, 'Cblock', f).l['[]'], t.I(0))
    def f(b, f): return b.s.ex.fld(b.st, b.o.ref, 'Cblock', f).l['']
    A = property(lambda b: b.a('p_A')); B = property(lambda b: b.a('p_B'))
    C = property(lambda b: b.a('p_C')); D = property(lambda b: b.a('p_D'))


def transfer(s, o, num, den, hyp=()):
    """D + C (s - A)^-1 B = (b0 s + b1)/(a0 s + a1) for every s, as polynomials"""
    b0, b1 = num; a0, a1 = den
    sv = t.var('laplace', REAL)
    g = lambda f: (lambda: f(Blk(s, o, False)))
    s.post('transfer function', g(lambda b: (b.D * (sv - b.A) + b.C * b.B) * (a0 * sv + a1)), None if s.limited else (b0 * sv + b1) * (sv - Blk(s, o, False).A), hyps=hyp)
    s.sampled('pole', -a1 / a0, 'o_%s->p_A[0]' % o.name)
    s.sampled('gain', b1 / a0 - a1 * b0 / (a0 * a0), 'o_%s->p_B[0]*o_%s->p_C[0]' % (o.name, o.name))
    s.sampled('feed-through', b0 / a0, 'o_%s->p_D[0]' % o.name)


LIMS = (('p_xmin', 'p_xmax'), ('p_ymin', 'p_ymax'), ('p_dxmin', 'p_dxmax'))


def s_params(c):
    """setparams of every block: the documented transfer function, and the limits asked for"""
    out = []
    s = c.scen('Cblock::setcoeffs')
    o = s.obj('blk', 'Cblock')
    a = [s.input('a%d' % i, 'double') for i in (0, 1)]; b = [s.input('b%d' % i, 'double') for i in (0, 1)]
    s.assume(t.ne(a[0].x, t.R(0)))
    av, bv = s.buf('va', 'double', 2), s.buf('vb', 'double', 2)
    for v, xs, nm in ((av, a, 'a'), (bv, b, 'b')):
        for i in (0, 1): s.setbuf(v, i, xs[i].x, 'in_%s%d' % (nm, i))
    s.call(o, 'setcoeffs', [av, bv], cargs='va, vb')
    transfer(s, o, (b[0].x, b[1].x), (a[0].x, a[1].x))
    out.append(s)
    for nm, ps, tf in BLOCKS:
        forms = [0, 4, 6] if nm != 'Integrator' else [0, 2]
        for k in forms:
            s = c.scen('%s::setparams with %d limits' % (nm, k))
            o = s.obj('blk', nm)
            p = [s.input(x, 'double') for x in ps]
            lims = [s.input(x, 'double') for x in {0: [], 2: ['xmin', 'xmax'], 4: ['xmin', 'xmax', 'ymin', 'ymax'], 6: ['xmin', 'xmax', 'dxmin', 'dxmax', 'ymin', 'ymax']}[k]]
            b0, b1, a0, a1 = tf(*[x.x for x in p])
            s.assume(t.ne(a0, t.R(0)))
            s.call(o, 'setparams', [x for x in p + lims], cargs=', '.join('in_' + n for n in list(ps) + {0: [], 2: ['xmin', 'xmax'], 4: ['xmin', 'xmax', 'ymin', 'ymax'], 6: ['xmin', 'xmax', 'dxmin', 'dxmax', 'ymin', 'ymax']}[k]))
            transfer(s, o, (b0, b1), (a0, a1))
            g = dict(zip({0: [], 2: ['p_xmin', 'p_xmax'], 4: ['p_xmin', 'p_xmax', 'p_ymin', 'p_ymax'], 6: ['p_xmin', 'p_xmax', 'p_dxmin', 'p_dxmax', 'p_ymin', 'p_ymax']}[k], lims))
            for f, x in g.items():
                s.post('limit ' + f[2:], lambda f=f: Blk(s, o, False).f(f), x.x, native='o_blk->' + f)
            out.append(s)
    return out


def state(s, o):
    b = Blk(s, o)
    for f in ('p_A', 'p_B', 'p_C', 'p_D', 'p_dxdt', 'p_xhat', 'x'): s.extra_fields.add((o.name, f))
    return b


def s_init(c):
    """initialisation puts the block in equilibrium at the requested output or input"""
    out = []
    for kind in ('init', 'init_given_y', 'init_given_u'):
        s = c.scen('Cblock::' + kind)
        o = s.obj('blk', 'Cblock')
        b = state(s, o)
        s.assume(t.eq(b.C, t.R(1)))
        s.gen(o, 'p_C', lambda r, sh: [1.0])
        u, y = s.input('u', 'double'), s.input('y', 'double')
        integ = t.lt(absv(b.A), EPS10)
        # a block with a pole away from the origin and a nonzero steady-state gain
        gain = b.D - b.B / b.A
        s.assume(t.or_(t.eq(b.A, t.R(0)), t.not_(integ)))
        s.gen(o, 'p_A', lambda r, sh: [r.choice([0.0, -r.pos(), r.rv()])])
        n = Blk(s, o, False)
        if kind == 'init':
            s.call(o, 'init', [u, y], cargs='in_u, in_y')
            nz = t.and_(t.not_(integ), t.ne(gain, t.R(0)))
            ueq = y.x / gain
            s.post('integrator starts at the output', lambda: n.a('x'), y.x, native='o_blk->x[0]', hyps=[integ])
            s.post('no drift', lambda: b.A * n.a('x') + b.B * ueq, t.R(0), native='o_blk->p_A[0]*o_blk->x[0] + o_blk->p_B[0]*(in_y/(o_blk->p_D[0]-o_blk->p_B[0]/o_blk->p_A[0]))', hyps=[nz])
            s.post('output as requested', lambda: n.a('x') + b.D * ueq, y.x, native='o_blk->x[0] + o_blk->p_D[0]*(in_y/(o_blk->p_D[0]-o_blk->p_B[0]/o_blk->p_A[0]))', hyps=[nz])
        elif kind == 'init_given_y':
            r = s.call(o, 'init_given_y', [y], cargs='in_y', ret='r')
            nz = t.and_(t.not_(integ), t.ne(gain, t.R(0)))
            s.post('integrator starts at the output', lambda: n.a('x'), y.x, native='o_blk->x[0]', hyps=[integ])
            s.post('integrator input is zero', r.x if r else None, t.R(0), native='r', hyps=[integ])
            s.post('no drift', lambda: b.A * n.a('x') + b.B * r.x, t.R(0), native='o_blk->p_A[0]*o_blk->x[0]+o_blk->p_B[0]*r', hyps=[nz])
            s.post('output as requested', lambda: b.C * n.a('x') + b.D * r.x, y.x, native='o_blk->x[0]+o_blk->p_D[0]*r', hyps=[nz])
        else:
            r = s.call(o, 'init_given_u', [u], cargs='in_u', ret='r')
            nz = t.and_(t.not_(integ), t.le(EPS10, absv(b.B)))
            s.post('no drift', lambda: b.A * n.a('x') + b.B * u.x, t.R(0), native='o_blk->p_A[0]*o_blk->x[0]+o_blk->p_B[0]*in_u', hyps=[nz])
            s.post('output belongs to the state', r.x if r else None, None if s.limited else b.C * n.a('x') + b.D * u.x, hyps=[nz])
            s.sampled('steady-state output', gain * u.x, 'r', hyps=[nz])
        out.append(s)
    return out


def s_step(c):
    """one integration stage: forward Euler, then trapezoidal, within the rate and state limits; output within its limits"""
    out = []
    for form in ('own', 'given', 'given with rate'):
        for stage, nm in ((PRED, 'PREDICTOR'), (CORR, 'CORRECTOR')):
            for upd in (True, False):
                if form != 'own' and not upd: continue
                s = c.scen('Cblock::getoutput, limits %s, %s%s' % (form, nm.lower(), '' if upd else ', no update'))
                o = s.obj('blk', 'Cblock')
                b = state(s, o)
                u, dt = s.input('u', 'double'), s.input('dt', 'double')
                L = {k: b.f('p_' + k) for k in ('xmin', 'xmax', 'ymin', 'ymax', 'dxmin', 'dxmax')}
                names = {'own': [], 'given': ['xmin', 'xmax', 'ymin', 'ymax'], 'given with rate': ['xmin', 'xmax', 'dxmin', 'dxmax', 'ymin', 'ymax']}[form]
                vals = [s.input(k, 'double', (lambda k: (lambda r, sh: r.uniform(-3, 0.5) if k.endswith('min') else r.uniform(0.5, 3)))(k)) for k in names]
                L.update({k: v.x for k, v in zip(names, vals)})
                for k in ('p_xmin', 'p_ymin', 'p_dxmin'): s.gen(o, k, lambda r, sh: r.uniform(-3, 0.5))
                for k in ('p_xmax', 'p_ymax', 'p_dxmax'): s.gen(o, k, lambda r, sh: r.uniform(0.5, 3))
                s.assume(*[t.le(L[k + 'min'], L[k + 'max']) for k in ('x', 'y', 'dx')])
                r = s.call(o, 'getoutput', [u, dt] + vals + [t.I(stage), t.B(upd)], cargs=', '.join(['in_u', 'in_dt'] + ['in_' + k for k in names] + [nm, 'true' if upd else 'false']), ret='r')
                n = Blk(s, o, False)
                x0 = b.a('x') if stage == PRED else b.a('p_xhat')
                s.post('output', r.x if r else None, clamp(b.C * x0 + b.D * u.x, L['ymin'], L['ymax']), native='r')
                s.ensure('output within its limits', (lambda: t.and_(t.le(L['ymin'], r.x), t.le(r.x, L['ymax']))))
                rate = clamp(b.A * x0 + b.B * u.x, L['dxmin'], L['dxmax'])
                if not upd:
                    s.post('state kept', lambda: n.a('x'), b.a('x'), native='o_blk->x[0]')
                    s.post('predicted state kept', lambda: n.a('p_xhat'), b.a('p_xhat'), native='o_blk->p_xhat[0]')
                elif stage == PRED:
                    s.post('predictor is forward Euler within the limits', lambda: n.a('p_xhat'), clamp(x0 + dt.x * rate, L['xmin'], L['xmax']), native='o_blk->p_xhat[0]')
                    s.post('state kept by the predictor', lambda: n.a('x'), b.a('x'), native='o_blk->x[0]')
                    s.post('derivative at the start of the step remembered', lambda: n.a('p_dxdt'), rate, native='o_blk->p_dxdt[0]')
                else:
                    tr = clamp((b.a('p_dxdt') + b.A * x0 + b.B * u.x) / 2, L['dxmin'], L['dxmax'])
                    s.post('corrector is trapezoidal within the limits', lambda: n.a('x'), clamp(b.a('x') + dt.x * tr, L['xmin'], L['xmax']), native='o_blk->x[0]')
                    s.ensure('state within its limits', lambda: t.and_(t.le(L['xmin'], n.a('x')), t.le(n.a('x'), L['xmax'])))
                out.append(s)
    s = c.scen('Cblock step started at equilibrium')
    o = s.obj('blk', 'Cblock')
    b = state(s, o)
    u, dt = s.input('u', 'double'), s.input('dt', 'double')
    s.assume(t.ne(b.A, t.R(0)), t.le(b.f('p_dxmin'), t.R(0)), t.le(t.R(0), b.f('p_dxmax')), t.le(b.f('p_xmin'), b.a('x')), t.le(b.a('x'), b.f('p_xmax')))
    s.assume(t.eq(b.a('x'), -b.B / b.A * u.x))
    s.proof_only = True
    for st in (PRED, CORR): s.call(o, 'getoutput', [u, dt, t.I(st), t.TRUE])
    s.post('an equilibrium is kept', lambda: Blk(s, o, False).a('x'), b.a('x'))
    out.append(s)
    return out


def s_gain(c):
    """GainLimiter"""
    out = []
    for k in (1, 3):
        s = c.scen('GainLimiter::getoutput %s limits' % ('its' if k == 1 else 'given'))
        o = s.obj('blk', 'GainLimiter')
        K, lo, hi, u = [s.input(x, 'double') for x in ('K', 'lo', 'hi', 'u')]
        s.assume(t.le(lo.x, hi.x))
        s.sample_pre = []
        if k == 1:
            s.call(o, 'setparams', [K, lo, hi], cargs='in_K, in_lo, in_hi')
            r = s.call(o, 'getoutput', [u], cargs='in_u', ret='r')
        else:
            x = s.input('x', 'double')
            s.call(o, 'setparams', [K, x, x], cargs='in_K, in_x, in_x')
            r = s.call(o, 'getoutput', [u, lo, hi], cargs='in_u, in_lo, in_hi', ret='r', pred=lambda f: f['params'][2]['t'].k == 'real')
        s.post('output', r.x if r else None, clamp(K.x * u.x, lo.x, hi.x), native='r')
        out.append(s)
    for first in (True, False):
        for upd in (True, False):
            s = c.scen('GainLimiter rate limit, %s step%s' % ('first' if first else 'later', '' if upd else ' without update'))
            o = s.obj('blk', 'GainLimiter')
            K, u, u2, dt = [s.input(x, 'double') for x in ('K', 'u', 'u2', 'dt')]
            neg = lambda r, sh: -r.pos()
            pos = lambda r, sh: r.pos()
            lo, hi = s.input('lo', 'double', neg), s.input('hi', 'double', pos)
            dlo, dhi = s.input('dlo', 'double', neg), s.input('dhi', 'double', pos)
            s.assume(t.le(lo.x, hi.x), t.le(dlo.x, t.R(0)), t.le(t.R(0), dhi.x), t.lt(t.R(0), dt.x))
            s.assume(t.lt(t.R(-1000), lo.x), t.lt(hi.x, t.R(1000)))
            P = lambda f: f['params'][2]['t'].k == 'bool'
            s.call(o, 'setparams', [K, lo, hi, dlo, dhi], cargs='in_K, in_lo, in_hi, in_dlo, in_dhi')
            y0 = clamp(K.x * u.x, lo.x, hi.x)
            if first:
                r = s.call(o, 'getoutput', [u, dt, t.B(upd)], cargs='in_u, in_dt, %s' % str(upd).lower(), ret='r', pred=P)
                s.post('output', r.x if r else None, y0, native='r')
                s.ensure('output within its limits', lambda: t.and_(t.le(lo.x, r.x), t.le(r.x, hi.x)))
            else:
                s.call(o, 'getoutput', [u, dt, t.B(upd)], cargs='in_u, in_dt, %s' % str(upd).lower(), ret='r0', pred=P)
                r = s.call(o, 'getoutput', [u2, dt, t.TRUE], cargs='in_u2, in_dt, true', ret='r', pred=P)
                y1 = clamp(K.x * u2.x, lo.x, hi.x)
                s.post('output follows within the rate limits', r.x if r else None, clamp(y1, y0 + dlo.x * dt.x, y0 + dhi.x * dt.x), native='r')
                s.ensure('output within its limits', lambda: t.and_(t.le(lo.x, r.x), t.le(r.x, hi.x)))
            out.append(s)
    return out


def line(u, u0, y0, u1, y1): return y0 + (y1 - y0) / (u1 - u0) * (u - u0)


def s_slope(c):
    """Slope, Deadband, gates"""
    out = []
    s = c.scen('Slope')
    o = s.obj('blk', 'Slope')
    u0, u1, y0, y1, ya, yb, u = [s.input(x, 'double') for x in ('u0', 'u1', 'y0', 'y1', 'ya', 'yb', 'u')]
    vu, vy = s.buf('vu', 'double', 2), s.buf('vy', 'double', 2)
    for v, xs in ((vu, (u0, u1)), (vy, (y0, y1))):
        for i in (0, 1): s.setbuf(v, i, xs[i].x, 'in_%s%d' % (v.name[1], i))
    s.assume(t.lt(u0.x + t.R(Fraction(1, 1000)), u1.x))
    s.call(o, 'setparams', [vu, vy, ya, yb], cargs='vu, vy, in_ya, in_yb')
    r = s.call(o, 'getoutput', [u], cargs='in_u', ret='r')
    eps = t.R(Fraction(1, 100000))
    s.post('below the slope', r.x if r else None, ya.x, native='r', hyps=[t.le(u.x, u0.x)])
    s.post('above the slope', r.x if r else None, yb.x, native='r', hyps=[t.le(u1.x, u.x)])
    s.post('on the slope', r.x if r else None, line(u.x, u0.x, y0.x, u1.x, y1.x), native='r', hyps=[t.lt(u0.x + eps, u.x), t.lt(u.x, u1.x - eps)])
    out.append(s)
    s = c.scen('Deadband')
    o = s.obj('blk', 'Deadband')
    u1, u2, u = [s.input(x, 'double') for x in ('u1', 'u2', 'u')]
    s.call(o, 'setparams', [u1, u2], cargs='in_u1, in_u2')
    r = s.call(o, 'getoutput', [u], cargs='in_u', ret='r')
    s.post('passes outside the band', r.x if r else None, u.x, native='r', hyps=[t.or_(t.le(u.x, u1.x), t.le(u2.x, u.x))])
    s.post('zero inside the band', r.x if r else None, t.R(0), native='r', hyps=[t.lt(u1.x + eps, u.x), t.lt(u.x, u2.x - eps)])
    out.append(s)
    for nm, f in (('LVGate', lambda a, b: t.ite(t.lt(a, b), a, b)), ('HVGate', lambda a, b: t.ite(t.lt(a, b), b, a))):
        s = c.scen(nm)
        o = s.obj('blk', nm)
        a, u = s.input('a', 'double'), s.input('u', 'double')
        s.call(o, 'setparams', [a], cargs='in_a')
        r = s.call(o, 'getoutput', [u], cargs='in_u', ret='r')
        s.post('selects', r.x if r else None, f(a.x, u.x), native='r')
        out.append(s)
    return out


def s_piecewise(c):
    """PiecewiseSlope: n points, rising or falling abscissae"""
    out = []
    for n in (2, 3, 4, 5):
        for rising in (True, False):
            s = c.scen('PiecewiseSlope of %d points, %s' % (n, 'increasing' if rising else 'decreasing'))
            s.ex.decide = True
            o = s.obj('blk', 'PiecewiseSlope')
            s.put(o, 'p_n', 0)
            sg = 1 if rising else -1
            def gu(i): return lambda r, sh: sg * (i + r.uniform(-.3, .3))
            us = [s.input('u%d' % i, 'double', gu(i)) for i in range(n)]
            ys = [s.input('y%d' % i, 'double') for i in range(n)]
            u = s.input('u', 'double', lambda r, sh: sg * r.uniform(-1, n))
            vu, vy = s.buf('vu', 'double', n), s.buf('vy', 'double', n)
            for i in range(n):
                s.setbuf(vu, i, us[i].x, 'in_u%d' % i); s.setbuf(vy, i, ys[i].x, 'in_y%d' % i)
            gap = t.R(Fraction(1, 1000))
            for i in range(n - 1):
                a, b = (us[i].x, us[i + 1].x) if rising else (us[i + 1].x, us[i].x)
                s.assume(t.lt(a + gap, b))
            s.call(o, 'setparams', [t.I(n), vu, vy], cargs='%d, vu, vy' % n)
            r = s.call(o, 'getoutput', [u], cargs='in_u', ret='r')
            lo, hi = (0, n - 1) if rising else (n - 1, 0)
            s.post('beyond the lower end', r.x if r else None, ys[lo].x, native='r', hyps=[t.le(u.x, us[lo].x)])
            s.post('beyond the upper end', r.x if r else None, ys[hi].x, native='r', hyps=[t.le(us[hi].x, u.x)])
            eps = t.R(Fraction(1, 100000))
            for i in range(n - 1):
                a, b = (us[i].x, us[i + 1].x) if rising else (us[i + 1].x, us[i].x)
                s.post('on segment %d' % (i + 1), r.x if r else None, line(u.x, us[i].x, ys[i].x, us[i + 1].x, ys[i + 1].x), native='r', hyps=[t.lt(a + eps, u.x), t.lt(u.x, b - eps)])
            out.append(s)
    return out


SCENARIOS = [s_params, s_init, s_step, s_gain, s_slope, s_piecewise]
