"""Differential-algebraic models: equilibrium at the power-flow solution, state exchange, frozen states, limiters."""
from props.dae import *
from gpv.cuts import Cuts


def init_pre(b):
    """parameters as load() leaves them, and what an equilibrium needs to exist"""
    s = b.s
    g = b.obj['gen']
    for f in ('VD', 'VQ'): s.gen(g, f, lambda r, sh: 0.0)
    s.assume(t.lt(ZERO, s.old(g, 'sbase'))); s.gen(g, 'sbase', lambda r, sh: r.choice([1.0, 100.0, 50.0]))
    P, Q = s.old(g, 'pg') / s.old(g, 'sbase'), s.old(g, 'qg') / s.old(g, 'sbase')
    V2 = b.V[0] * b.V[0] + b.V[1] * b.V[1]
    b.I = (b.V[0] * P + b.V[1] * Q) / V2, (b.V[1] * P - b.V[0] * Q) / V2
    for m, o, off in b.parts:
        f = lambda x, o=o: s.old(o, x)
        if m.cls in ('GenrouGen', 'GensalGen'):
            for r_ in ('Ra',): s.gen(o, r_, lambda r, sh: r.choice([0.0, r.uniform(0, .05)]))
            s.gen(o, 'Xdpp', lambda r, sh: r.pos())
            s.assume(t.lt(ZERO, f('Xdpp')))
        if m.cls == 'GenrouGen':
            d = f('Ra') * f('Ra') + f('Xdpp') * f('Xdpp')
            s.set(o, 'G', {'': f('Ra') / d}); s.set(o, 'B', {'': -f('Xdpp') / d})
            s.native('o_gen->G = o_gen->Ra/(o_gen->Ra*o_gen->Ra+o_gen->Xdpp*o_gen->Xdpp); o_gen->B = -o_gen->Xdpp/(o_gen->Ra*o_gen->Ra+o_gen->Xdpp*o_gen->Xdpp);')
        for lo, hi in m.flags: s.put(o, lo, False); s.put(o, hi, False)
        if m.cls == 'Exdc1Exc': s.assume(t.ne(f('KA'), ZERO))
        if m.cls == 'Esst1aExc': s.assume(t.ne(f('Ka'), ZERO))
        if m.cls == 'Wsieg1Gov':
            for k in ('K1', 'K3', 'K5', 'K7'): s.gen(o, k, lambda r, sh: r.uniform(0, 1))
            s.assume(t.lt(ZERO, f('K1') + f('K3') + f('K5') + f('K7')))
    x = 'p_Xdp' if g.cls == 'ClassicalGen' else 'Xq'
    X, R = s.old(g, x), ZERO if g.cls == 'ClassicalGen' else s.old(g, 'Ra')
    er, ei = b.V[0] + R * b.I[0] - X * b.I[1], b.V[1] + X * b.I[0] + R * b.I[1]
    s.assume(t.lt(ZERO, er * er + ei * ei))
    if g.cls == 'ClassicalGen': return
    s.assume(t.ne(s.old(g, 'Xd'), s.old(g, 'Xl')))
    hh = t.sqrt(er * er + ei * ei)
    b.efd0 = hh + (s.old(g, 'Xd') - X) * (b.I[0] * ei - b.I[1] * er) / hh        # field voltage of the equilibrium
    # quantities of the equilibrium: network current, rotor angle, quadrature-axis voltage, currents in machine axes
    s.cuts = c = Cuts()
    Ir, Ii = c.define('Ir', b.I[0]), c.define('Ii', b.I[1])
    er, ei = b.V[0] + R * Ir - X * Ii, b.V[1] + X * Ir + R * Ii
    h, phi = c.define('h', t.sqrt(er * er + ei * ei)), c.define('delta', t.app('atan2', (ei, er), REAL))
    co, si = t.cos(phi), t.sin(phi)
    c.known(co); c.known(si)
    Id, Iq = c.define('Id', Ir * si - Ii * co), c.define('Iq', Ir * co + Ii * si)
    c.fact('voltage behind the quadrature reactance, real part', b.V[0], h * co - R * Ir + X * Ii)
    c.fact('voltage behind the quadrature reactance, imaginary part', b.V[1], h * si - X * Ir - R * Ii)
    c.fact('current in machine axes, real part', Ir, Id * si + Iq * co)
    c.fact('current in machine axes, imaginary part', Ii, Iq * si - Id * co)
    f = lambda x: s.old(g, x)
    Xp, Xl, Xdp = f('Xdpp'), f('Xl'), f('Xdp')
    c.known(Id); c.known(Iq)
    c.known(h - (X - Xp) * Id); c.known((X - Xp) * Iq); c.known(-(X - Xp) * Iq)       # subtransient fluxes
    psid = h - (X - Xp) * Id - (Xp - Xl) * Id
    c.known(psid); c.known(psid + (Xdp - Xl) * Id); c.known(psid + (Xdp - Xl) * Id + (f('Xd') - Xdp) * Id)
    if g.cls == 'GenrouGen': c.known((X - f('Xqp')) * Iq); c.known((X - f('Xqp')) * Iq + (f('Xqp') - Xl) * Iq)


def s_equilibrium(c):
    out = []
    for g in GENS:
        for e, gv in [(None, None)] + ([] if g is GENS[0] else [(EXCS[0], None), (EXCS[1], None), (None, GOVS[0]), (EXCS[0], GOVS[0])]):
            s = c.scen('%s%s starts in equilibrium' % (g.cls, ''.join(' with ' + m.cls for m in (e, gv) if m)))
            b = Bus(s, g, e, gv)
            vd, vq = s.input('VD', 'double'), s.input('VQ', 'double')
            b.V = (vd.x, vq.x)
            s.assume(t.lt(ZERO, vd.x * vd.x + vq.x * vq.x))
            flags(b); alloc(b); init_pre(b)
            bufs = []
            for m, o, off in b.parts:
                if m.kind != 'gov': s.call(o, 'setVoltage', [vd, vq], cargs='in_VD, in_VQ')
                s.call(o, 'setMode', [t.I(INIT_X)], cargs='%d' % INIT_X)
                v = s.buf('X_' + o.name, CXN, m.n)
                s.call(o, 'init', [v], cargs='X_' + o.name)
                bufs.append(v)
            for (m, o, off), v in zip(b.parts, bufs):
                z = s.buf('Z_' + o.name, CXN, m.n)
                if not s.limited:
                    for i in range(m.n):
                        for leaf in ('.re', '.im'): s.ex.rawset(s.st, ('M', z.elt.s, 'mem'), (z.l['^b'], t.I(i)), leaf, REAL, ZERO)
                for mode, w, n in ((XVEC, v, 'X_'), (XDOT, z, 'Z_')):
                    s.call(o, 'setMode', [t.I(mode)], cargs='%d' % mode)
                    s.call(o, 'setValues', [w], cargs=n + o.name)
            if e is EXCS[1]:
                lim = field_limits(b)
                ex = b.obj['exc']
                s.gen(ex, 'Vrmin', lambda r, sh: r.uniform(-90, -60)); s.gen(ex, 'Vrmax', lambda r, sh: r.uniform(60, 90)); s.gen(ex, 'Kc', lambda r, sh: r.uniform(0, .1))
                VT = t.sqrt(b.V[0] * b.V[0] + b.V[1] * b.V[1])
                s.sample_pre += [t.lt(VT * s.old(ex, 'Vrmin'), b.efd0), t.lt(b.efd0, VT * s.old(ex, 'Vrmax') - s.old(ex, 'Kc') * b.efd0)]
                if lim:
                    va = s.now(ex, 'Va')
                    h = [t.lt(lim[0], va), t.lt(va, lim[1])]
                    s.sample_pre += h; s.call_pre += h
                    s.ex.contracts.update(k_field_voltage(b))
            b.residual(RESID)
            for (m, o, off), F in zip(b.parts, b.F):
                for i, f in enumerate(m.st):
                    s.post('residual of %s' % f, lambda F=F, i=i: s.bufat(F, i, '.re'), ZERO, native='F_%s[%d].real()' % (o.name, i), tol=1e-6)
            s.post('real current', lambda: s.outval(b.ID), b.I[0], native='IGD')
            s.post('imaginary current', lambda: s.outval(b.IQ), b.I[1], native='IGQ')
            out.append(s)
    return out


OMEGA = 120 * t.PI


def equations(b, m, o, x, xd, old):
    """documented equations of a model in the normal mode: {state: (is differential, equation when not held at a limit)}"""
    s = b.s
    f = lambda k: s.old(o, k)
    V = b.V
    dyn = lambda k: old[o.name, k]
    if m.cls == 'ClassicalGen':
        Pe = f('p_Ep') * (V[0] * t.sin(x['p_delta']) - V[1] * t.cos(x['p_delta'])) / f('p_Xdp')
        return {'p_delta': (True, OMEGA * x['p_dw']), 'p_dw': (True, (f('p_Pm') - f('p_D') * x['p_dw'] - Pe) / (2 * f('p_H')))}
    if m.kind == 'gen':
        Vd = V[0] * t.sin(x['delta']) - V[1] * t.cos(x['delta'])
        Vq = V[0] * t.cos(x['delta']) + V[1] * t.sin(x['delta'])
        a = (f('Xdpp') - f('Xl')) / (f('Xdp') - f('Xl'))
        psid = a * x['Eqp'] + (1 - a) * x['Psidp']
        if m.cls == 'GenrouGen':
            a = (f('Xdpp') - f('Xl')) / (f('Xqp') - f('Xl'))
            psiq = -(a * x['Edp'] + (1 - a) * x['Psiqp'])
        else: psiq = x['Psiqpp']
        w = 1 + x['dw']
        ed, eq = -psiq * w - Vd, psid * w - Vq
        Id, Iq = ed * f('G') - eq * f('B'), ed * f('B') + eq * f('G')
        Te = psid * Iq - psiq * Id
        Pm = dyn('Pmech'); Efd = dyn('Efd')
        bd = (f('Xdp') - f('Xdpp')) / (f('Xdp') - f('Xl')) ** 2 if False else (f('Xdp') - f('Xdpp')) / ((f('Xdp') - f('Xl')) * (f('Xdp') - f('Xl')))
        gd = -x['Psidp'] - (f('Xdp') - f('Xl')) * Id + x['Eqp']
        lad = x['Eqp'] + (f('Xd') - f('Xdp')) * (Id + bd * gd)
        b.lad = lad
        r = {'delta': (True, OMEGA * x['dw']), 'dw': (True, ((Pm - f('D') * x['dw']) / w - Te) / (2 * f('H'))),
             'Eqp': (True, (Efd - lad) / f('Tdop')), 'Psidp': (True, gd / f('Tdopp'))}
        if m.cls == 'GenrouGen':
            gq = -x['Psiqp'] + (f('Xqp') - f('Xl')) * Iq + x['Edp']
            bq = (f('Xqp') - f('Xqpp')) / ((f('Xqp') - f('Xl')) * (f('Xqp') - f('Xl')))
            r['Psiqp'] = (True, gq / f('Tqopp'))
            r['Edp'] = (True, (-x['Edp'] + (f('Xq') - f('Xqp')) * (Iq - bq * gq)) / f('Tqop'))
        else: r['Psiqpp'] = (True, (-x['Psiqpp'] - (f('Xq') - f('Xdpp')) * Iq) / f('Tqopp'))
        return r
    ar = s.ex.fld(State(), o.ref, o.cls, 'iseq_diff').l['[]']
    def df(k):
        v = t.select(ar, t.I(k))
        return t.ne(v, t.I(0)) if v.sort == INT else v
    def leadlag(d, u, st, tc, tb): return t.ite(d, (-st + (1 - tc / tb) * u) / tb, -st + u), t.ite(d, st + tc / tb * u, st)
    def lag(d, u, st, tau): return t.ite(d, (u - st) / tau, u - st)
    if m.cls == 'Exdc1Exc':
        Ec = t.sqrt(V[0] * V[0] + V[1] * V[1])
        u = f('Vref') - x['Vmeas'] - (x['xf'] + f('KF') / f('TF') * x['Efd'])
        ll, y = leadlag(df(1), u, x['xLL'], f('TC'), f('TB'))
        SE = t.ite(t.lt(f('Efdthresh'), x['Efd']), f('satB') * (x['Efd'] - f('satA')) * (x['Efd'] - f('satA')) / x['Efd'], ZERO)
        b.lim = {'VR': ((-x['VR'] + f('KA') * y) / f('TA'))}
        return {'Vmeas': (df(0), lag(df(0), Ec, x['Vmeas'], f('TR'))), 'xLL': (df(1), ll), 'VR': (df(2), lag(df(2), f('KA') * y, x['VR'], f('TA'))),
                'Efd': (True, (x['VR'] - (SE + f('KE')) * x['Efd']) / f('TE')), 'xf': (True, (-x['xf'] - f('KF') / f('TF') * x['Efd']) / f('TF'))}
    if m.cls == 'Esst1aExc':
        Ec = t.sqrt(V[0] * V[0] + V[1] * V[1])
        Efd = x['Va']        # Klr = 0: the field current limiter is not modelled
        u0 = f('Vref') - x['Vmeas'] - (x['xf'] + f('Kf') / f('Tf') * Efd)
        u = t.ite(f('Vi_at_max'), f('Vimax'), t.ite(f('Vi_at_min'), f('Vimin'), u0))
        l1, y1 = leadlag(df(1), u, x['xLL1'], f('Tc'), f('Tb'))
        l2, y2 = leadlag(df(2), y1, x['xLL2'], f('Tc1'), f('Tb1'))
        return {'Vmeas': (df(0), lag(df(0), Ec, x['Vmeas'], f('Tr'))), 'xLL1': (df(1), l1), 'xLL2': (df(2), l2),
                'Va': (df(3), lag(df(3), f('Ka') * y2, x['Va'], f('Ta'))), 'xf': (True, (-x['xf'] - f('Kf') / f('Tf') * Efd) / f('Tf'))}
    dw = b.dw
    ll, y = leadlag(df(0), f('K') * dw, x['xLL'], f('T2'), f('T1'))
    u = (f('Pref') - x['xGV'] - y) / f('T3')
    u = t.ite(f('uGV_at_min'), f('Uc'), t.ite(f('uGV_at_max'), f('Uo'), u))
    return {'xLL': (df(0), ll), 'xGV': (True, u), 'xT1': (df(2), lag(df(2), x['xGV'], x['xT1'], f('T4'))), 'xT2': (df(3), lag(df(3), x['xT1'], x['xT2'], f('T5'))),
            'xT3': (df(4), lag(df(4), x['xT2'], x['xT3'], f('T6'))), 'xT4': (df(5), lag(df(5), x['xT3'], x['xT4'], f('T7')))}


HELD = {('Exdc1Exc', 'VR'): ('VR_at_min', 'VRmin', 'VR_at_max', 'VRmax'), ('Esst1aExc', 'Va'): ('Va_at_min', 'Vamin', 'Va_at_max', 'Vamax'),
        ('Wsieg1Gov', 'xGV'): ('xGV_at_min', 'Pmin', 'xGV_at_max', 'Pmax')}


def s_equations(c):
    out = []
    for g, e, gv in [(GENS[0], None, None), (GENS[1], None, None), (GENS[2], None, None), (GENS[1], EXCS[0], GOVS[0]), (GENS[2], EXCS[0], GOVS[0]), (GENS[1], EXCS[1], None), (GENS[2], EXCS[1], None)]:
        for mode in (RESID, FAULT):
            s = c.scen('%s%s equations, %s' % (g.cls, ''.join(' with ' + m.cls for m in (e, gv) if m), 'fault' if mode == FAULT else 'normal'))
            b = Bus(s, g, e, gv)
            b.shared(); alloc(b); flags(b)
            if e is EXCS[1]:
                inside(b)
                s.ex.contracts.update(k_field_voltage(b))
            if gv: b.dw = b.x(b.obj['gen'], 'dw')
            old = {}
            G = b.obj['gen']
            if g is not GENS[0]:
                old['gen', 'Efd'] = b.x(b.obj['exc'], 'Efd' if e is EXCS[0] else 'Va') if e else s.old(G, 'Efd')
                q = lambda k: s.old(b.obj['gov'], k)
                y = lambda k: b.x(b.obj['gov'], k)
                old['gen', 'Pmech'] = q('K1') * y('xT1') + q('K3') * y('xT2') + q('K5') * y('xT3') + q('K7') * y('xT4') if gv else s.old(G, 'Pmech')
            b.residual(mode)
            for (m, o, off), F in zip(b.parts, b.F):
                x = {k: b.x(o, k) for k in m.st}
                eq = equations(b, m, o, x, None, old)
                if m.kind == 'gen' and e is EXCS[1]:
                    ex, VT = b.obj['exc'], t.sqrt(b.V[0] * b.V[0] + b.V[1] * b.V[1])
                    s.sample_pre += [t.lt(VT * s.old(ex, 'Vrmin'), b.x(ex, 'Va')), t.lt(b.x(ex, 'Va'), VT * s.old(ex, 'Vrmax') - s.old(ex, 'Kc') * b.lad)]
                for i, k in enumerate(m.st):
                    d, rhs = eq[k]
                    if mode == RESID:
                        w = rhs - (b.x(o, m.dot[i]) if d is True else t.ite(d, b.x(o, m.dot[i]), ZERO))
                    else:
                        fr = x[k] - s.old(o, m.prev[i])
                        w = fr if d is True else t.ite(d, fr, rhs)
                    if (m.cls, k) in HELD and (m.cls != 'Wsieg1Gov' or mode == RESID):
                        lo, lv, hi, hv = HELD[m.cls, k]
                        w = t.ite(s.old(o, lo), x[k] - s.old(o, lv), t.ite(s.old(o, hi), x[k] - s.old(o, hv), w))
                    s.post('equation of %s' % k, lambda F=F, i=i: s.bufat(F, i, '.re'), w, native='F_%s[%d].real()' % (o.name, i))
            s.samples = 120
            out.append(s)
    return out


def s_exchange(c):
    """pushing a vector onto a model sets exactly the values of the mode"""
    out = []
    for m in GENS + EXCS + GOVS:
        for mode, k in ((XVEC, 'st'), (XDOT, 'dot'), (XPREV, 'prev')):
            s = c.scen('%s takes its %s' % (m.cls, {'st': 'states', 'dot': 'rates', 'prev': 'previous states'}[k]))
            o = s.obj('m', m.cls)
            v = s.buf('vals', CXN, m.n)
            for i in range(m.n):
                w = s.input('v%d' % i, 'double')
                if not s.limited:
                    s.ex.rawset(s.st, ('M', v.elt.s, 'mem'), (v.l['^b'], t.I(i)), '.re', REAL, w.x)
                    s.ex.rawset(s.st, ('M', v.elt.s, 'mem'), (v.l['^b'], t.I(i)), '.im', REAL, ZERO)
                s.native('vals[%d] = in_v%d;' % (i, i))
            s.call(o, 'setMode', [t.I(mode)], cargs='%d' % mode)
            s.call(o, 'setValues', [v], cargs='vals')
            for kk in ('st', 'dot', 'prev'):
                for i, f in enumerate(getattr(m, kk)):
                    s.post(f, lambda f=f: s.now(o, f), t.var('in_v%d' % i, REAL) if kk == k else s.old(o, f), native='o_m->' + f)
            out.append(s)
    return out


LIMITS = {'Exdc1Exc': [('rate', 'VR', 'VR_at_min', 'VRmin', 'VR_at_max', 'VRmax')],
          'Esst1aExc': [('clamp', 'Vi', 'Vi_at_min', 'Vimin', 'Vi_at_max', 'Vimax'), ('rate', 'Va', 'Va_at_min', 'Vamin', 'Va_at_max', 'Vamax')],
          'Wsieg1Gov': [('clamp', 'uGV', 'uGV_at_min', 'Uc', 'uGV_at_max', 'Uo'), ('rate', 'xGV', 'xGV_at_min', 'Pmin', 'xGV_at_max', 'Pmax')]}


def limited(b, m, o, x):
    """value of every limited quantity and, for states, its rate"""
    s = b.s
    f = lambda k: s.old(o, k)
    ar = s.ex.fld(State(), o.ref, o.cls, 'iseq_diff').l['[]']
    def df(k):
        v = t.select(ar, t.I(k))
        return t.ne(v, t.I(0)) if v.sort == INT else v
    if m.cls == 'Exdc1Exc':
        u = f('Vref') - x['Vmeas'] - (x['xf'] + f('KF') / f('TF') * x['Efd'])
        y = t.ite(df(1), x['xLL'] + f('TC') / f('TB') * u, x['xLL'])
        return {'VR': (x['VR'], (-x['VR'] + f('KA') * y) / f('TA'))}
    if m.cls == 'Esst1aExc':
        u = f('Vref') - x['Vmeas'] - (x['xf'] + f('Kf') / f('Tf') * x['Va'])
        y = t.ite(df(1), x['xLL1'] + f('Tc') / f('Tb') * u, x['xLL1'])
        y = t.ite(df(2), x['xLL2'] + f('Tc1') / f('Tb1') * y, x['xLL2'])
        return {'Vi': (u, None), 'Va': (x['Va'], (-x['Va'] + f('Ka') * y) / f('Ta'))}
    y = t.ite(df(0), x['xLL'] + f('T2') / f('T1') * f('K') * b.dw, x['xLL'])
    u = (f('Pref') - x['xGV'] - y) / f('T3')
    return {'uGV': (u, None), 'xGV': (x['xGV'], u)}


def s_limiters(c):
    """every limiter is monitored, held and released on its own quantity"""
    out = []
    for m in EXCS + GOVS:
        for what in ('monitor', 'handle', 'reset'):
            s = c.scen('%s limits: %s' % (m.cls, what))
            b = Bus(s, GENS[2], *((m, None) if m.kind == 'exc' else (None, m)))
            b.shared(); alloc(b); flags(b)
            if m.kind == 'gov': b.dw = b.x(b.obj['gen'], 'dw')
            o = b.obj[m.kind]
            ks = LIMITS[m.cls]
            n = 2 * len(ks)
            for k in ks:
                if k[0] == 'rate' and m.cls != 'Wsieg1Gov': s.assume(t.ne(s.old(o, {'VR': 'TA', 'Va': 'Ta'}[k[1]]), ZERO))
                s.gen(o, k[3], lambda r, sh: r.uniform(-2, .5)); s.gen(o, k[5], lambda r, sh: r.uniform(-.5, 2))
            if what == 'reset': x = {k: b.x(o, k) for k in m.st}
            else:
                s.put(o, 'p_busoffset', 3)
                off = [q for mm, oo, q in b.parts if oo is o][0] + 3
                v = s.buf('state', CXN, off + m.n)
                x = {}
                for i, k in enumerate(m.st):
                    w = s.input('y_' + k, 'double')
                    x[k] = w.x
                    if not s.limited:
                        s.ex.rawset(s.st, ('M', v.elt.s, 'mem'), (v.l['^b'], t.I(off + i)), '.re', REAL, w.x)
                        s.ex.rawset(s.st, ('M', v.elt.s, 'mem'), (v.l['^b'], t.I(off + i)), '.im', REAL, ZERO)
                    s.native('state[%d] = in_y_%s;' % (off + i, k))
            tm = s.input('time', 'double')
            tl = s.outvar('tloc', 'double', 'in_time')
            s.ex.write(s.st, tl[0][1], Val(s.type('double'), {'': tm.x}))
            q = limited(b, m, o, x)
            if what == 'monitor':
                ev = s.input('ev', 'std::vector<std::complex<double> >', lambda r, sh, n=n: [complex(0, 0)] * n)
                s.assume(t.eq(ev.l['#n'], t.I(n)))
                el = s.outvar('evl', 'std::vector<std::complex<double> >', 'in_ev')
                s.ex.write(s.st, el[0][1], ev)
                s.call(o, 'eventFunction', [tl, v, el], cargs='tloc, state, evl')
            elif what == 'handle':
                tr = s.buf('trg', 'bool', n)
                T = []
                for i in range(n):
                    w = s.input('trg%d' % i, 'bool')
                    T.append(w.x)
                    s.setbuf(tr, i, w.x, 'in_trg%d' % i)
                s.call(o, 'eventHandlerFunction', [tr, tl, v], cargs='trg, tloc, state')
            else: s.call(o, 'resetEventFlags', cargs='')
            for j, (kind, nm, fl, lo, fh, hi) in enumerate(ks):
                val, rate = q[nm]
                L, H, AL, AH = s.old(o, lo), s.old(o, hi), s.old(o, fl), s.old(o, fh)
                if what == 'monitor':
                    for i, w in ((2 * j, t.ite(AL, L - val if kind == 'clamp' else -rate, val - L)), (2 * j + 1, t.ite(AH, val - H if kind == 'clamp' else rate, H - val))):
                        s.post('monitored value %d (%s)' % (i, nm), lambda i=i: t.select(s.ex.read(s.st, el[0][1]).l['[].re'], t.I(i)), w, native='evl[%d].real()' % i)
                    continue
                if what == 'handle':
                    nl = t.ite(T[2 * j], t.and_(t.not_(AL), t.TRUE if kind == 'clamp' else t.lt(rate, ZERO)), AL)
                    nh = t.ite(T[2 * j + 1], t.and_(t.not_(AH), t.TRUE if kind == 'clamp' else t.lt(ZERO, rate)), AH)
                else:
                    nl = t.ite(AL, t.not_(t.lt(L - val, ZERO) if kind == 'clamp' else t.lt(ZERO, rate)), t.lt(val, L))
                    nh = t.ite(AH, t.not_(t.lt(val - H, ZERO) if kind == 'clamp' else t.lt(rate, ZERO)), t.lt(H, val))
                s.post('%s held at its lower limit' % nm, lambda fl=fl: s.now(o, fl), nl, native='(int)o_%s->%s' % (o.name, fl))
                s.post('%s held at its upper limit' % nm, lambda fh=fh: s.now(o, fh), nh, native='(int)o_%s->%s' % (o.name, fh))
            out.append(s)
    return out


SCENARIOS = [s_equilibrium, s_equations, s_exchange, s_limiters]
