"""Full-Y dynamic models: equilibrium, documented equations, load."""
from props.fy import *

MODELS = ['sexs', 'ieeet1', 'exdc1', 'esst1a', 'esst4b', 'tgov1', 'gast', 'hygov']
SOURCES = [FY + 'model_classes/%s.cpp' % m for m in MODELS] + [FY + 'cblock.cpp', FY + 'dblock.cpp'] + [FY + 'base_classes/%s.cpp' % b for b in BASES[:2]]
NATIVE = dict(srcs=SOURCES + NAT_BASE, headers=[FY + 'model_classes/%s.hpp' % m for m in MODELS], incs=INCS)


class Ctl:
    """a controller: its parameters as load() takes them from the input, its diagram (step) and its steady state"""
    arb = ()            # other state of the object, arbitrary at the start of a stage
    variants = ((),)    # parameters that are zero
    nz = ()             # positive parameters
    early = False       # blocks are configured by init()
    eq_gens = {}        # samplers of inputs at the equilibrium
    def __init__(m, q): m.q, m.p = q, q.p
    def has(m, k): return k not in m.q.zero


class Gov(Ctl):
    tag, setters, out = 'GOVERNOR_', (('setRotorSpeedDeviation', 'delta_w'),), ('setMechanicalPower', 'getMechanicalPower', 'Pmech')


class Exc(Ctl):
    tag, setters, out = 'EXCITER_', (('setVterminal', 'Ec'), ('setVstab', 'Vs')), ('setFieldVoltage', 'getFieldVoltage', 'Efd')


class Tgov1(Gov):
    cls = 'Tgov1Model'
    keys = ('R', 'T1', 'VMAX', 'VMIN', 'T2', 'T3', 'DT')
    arb = ('Pref',)
    nz = ('R', 'T1', 'T3')
    def blocks(m):
        p = m.p
        m.d = m.q.blk('delay_blk', lag(1, p['T1']), (p['VMIN'], p['VMAX']))
        m.l = m.q.blk('leadlag_blk', leadlag(p['T2'], p['T3']))
    def step(m, dt, stage):
        w = m.q('delta_w')
        y = m.d.out((m.q('Pref') - w) / m.p['R'], dt, stage)
        return m.l.out(y, dt, stage) - m.p['DT'] * w
    def steady(m, y):
        y = m.l.ss_y(y + m.p['DT'] * m.q('delta_w'))
        m.d.ss_y(y)


class Gast(Gov):
    cls = 'GastModel'
    keys = ('R', 'T1', 'T2', 'T3', 'AT', 'KT', 'VMAX', 'VMIN', 'DT')
    arb = ('Pref', 'exh_temp_block_out')
    nz = ('R', 'T1', 'T2', 'T3')
    def blocks(m):
        p = m.p
        m.v = m.q.blk('fuel_valve_block', lag(1, p['T1']), (p['VMIN'], p['VMAX']), (-10000, 10000))
        m.f = m.q.blk('fuel_flow_block', lag(1, p['T2']))
        m.e = m.q.blk('exh_temp_block', lag(1, p['T3']))
    def step(m, dt, stage):
        w, p = m.q('delta_w'), m.p
        u = mn(p['AT'] + p['KT'] * (p['AT'] - m.q('exh_temp_block_out')), m.q('Pref') - w / p['R'])
        f = m.f.out(m.v.out(u, dt, stage), dt, stage)
        m.also = [('exhaust temperature', 'exh_temp_block_out', m.e.out(f, dt, stage))]
        return f - p['DT'] * w
    def steady(m, y):
        f = y + m.p['DT'] * m.q('delta_w')
        e = m.e.ss_u(f)
        u = m.v.ss_y(m.f.ss_y(f))
        m.q.s.assume(t.le(u, m.p['AT'] + m.p['KT'] * (m.p['AT'] - e)))


class Hygov(Gov):
    cls, eq_gens = 'HygovModel', {'delta_w': lambda r, sh: 0.0, 'Pmech': lambda r, sh: r.uniform(0.5, 5)}
    keys = ('R', 'r', 'TR', 'TF', 'TG', 'VELM', 'GMAX', 'GMIN', 'TW', 'AT', 'DT', 'QNL')
    arb = ('nref', 'gate_block_out', 'turbine_flow_block_out')
    nz = ('r', 'TR', 'TF', 'TG', 'TW', 'AT')
    def blocks(m):
        p = m.p
        m.f = m.q.blk('filter_block', lag(1, p['TF']))
        m.g = m.q.blk('gate_block', pi(1 / p['r'], 1 / (p['r'] * p['TR'])), (p['GMIN'], p['GMAX']), (-10000, 10000))
        m.o = m.q.blk('opening_block', lag(1, p['TG']))
        m.t = m.q.blk('turbine_flow_block', integ(p['TW']))
        m.q.s.assume(t.ne(m.q.pre('turbine_flow_block_out'), ZERO))
    def step(m, dt, stage):
        w, p = m.q('delta_w'), m.p
        g = m.g.out(m.f.out(m.q('nref') - (w + p['R'] * m.q('gate_block_out')), dt, stage), dt, stage)
        o = m.o.out(g, dt, stage)
        h = m.q('turbine_flow_block_out') / o
        h = h * h
        m.q.s.assume(t.ne(expand(m.q.s, o), ZERO))
        q = m.t.out(1 - h, dt, stage)
        m.also = [('turbine flow', 'turbine_flow_block_out', q), ('gate', 'gate_block_out', g)]
        return p['AT'] * (q - p['QNL']) * h - o * p['DT'] * w
    def steady(m, y):
        q = y / m.p['AT'] + m.p['QNL']
        m.t.ss_y(q)
        m.g.ss_y(m.o.ss_y(q))
        m.f.ss_y(ZERO)
        m.q.s.assume(t.lt(t.R(Fraction(1, 1000)), q), t.eq(m.q('delta_w'), ZERO))


class Sexs(Exc):
    cls = 'SexsModel'
    keys = ('TA_OVER_TB', 'TB', 'K', 'EMAX', 'EMIN', 'TE')
    nz = ('TB', 'K', 'TE')
    arb = ('Vref',)
    variants = ((), ('TE',))
    def blocks(m):
        p = m.p
        m.l = m.q.blk('leadlagblock', leadlag(p['TA_OVER_TB'] * p['TB'], p['TB']))
        if m.has('TE'): m.f = m.q.blk('filterblock', lag(p['K'], p['TE']), (p['EMIN'], p['EMAX']))
        else: m.f = Gain(m.q.s, p['K'], p['EMIN'], p['EMAX'])
    def step(m, dt, stage):
        return m.f.out(m.l.out(m.q('Vref') + m.q('Vs') - m.q('Ec'), dt, stage), dt, stage)
    def steady(m, y): m.l.ss_y(m.f.ss_y(y))


class Ieeet1(Exc):
    cls = 'Ieeet1Model'
    keys = ('TR', 'KA', 'TA', 'VRMAX', 'VRMIN', 'KE', 'TE', 'KF', 'TF1', 'E1', 'SE1', 'E2', 'SE2')
    nz = ('TR', 'KA', 'TA', 'TE', 'KF', 'TF1', 'E1', 'SE1', 'E2', 'SE2')
    arb = ('Vref',)
    variants = ((), ('TR',), ('TA',), ('SE1', 'SE2'))
    def blocks(m):
        p, q = m.p, m.q
        if m.has('TR'): m.v = q.blk('Vmeas_blk', lag(1, p['TR']))
        m.r = q.blk('Regulator_blk', lag(p['KA'], p['TA']), (p['VRMIN'], p['VRMAX'])) if m.has('TA') else Gain(q.s, p['KA'], p['VRMIN'], p['VRMAX'])
        m.f = q.blk('Feedback_blk', washout(p['KF'], p['TF1']))
        m.o = q.blk('Output_blk', integ(p['TE']))
        if m.has('SE1'):
            q.s.assume(t.lt(p['SE1'] * p['E1'] + t.R(Fraction(1, 100)), p['SE2'] * p['E2']), t.lt(p['E1'] + t.R(Fraction(1, 100)), p['E2']), t.lt(t.R(Fraction(1, 1000)), q.pre('Efd')))
            q.b.gen(key('EXCITER_E1'), lambda r, sh: r.uniform(1, 3)); q.b.gen(key('EXCITER_E2'), lambda r, sh: r.uniform(3.1, 5))
            q.b.gen(key('EXCITER_SE1'), lambda r, sh: r.uniform(0.01, 0.3)); q.b.gen(key('EXCITER_SE2'), lambda r, sh: r.uniform(0.31, 1))
            r = q.s.call(q.o, 'Sat', [q.pre('Efd')], ret='sat', cargs='in_Efd')
            m.sat = q('Efd') * r.x if r else None
        else: m.sat = ZERO
        m.sat = m.sat if m.sat is None else m.sat + p['KE'] * q('Efd')
    def lead(m, u, dt, stage): return u
    def step(m, dt, stage):
        q = m.q
        v = m.v.out(q('Ec'), dt, stage) if m.has('TR') else q('Ec')
        f = m.f.out(q('Efd'), dt, stage)
        y = m.r.out(m.lead(q('Vref') - v + q('Vs') - f, dt, stage), dt, stage)
        return m.o.out(y - m.sat, dt, stage)
    def steady(m, y):
        m.o.ss_y(y)
        if m.has('TR'): m.v.ss_u(m.q('Ec'))
        m.f.ss_u(y)
        return m.r.ss_y(m.sat)


class Exdc1(Ieeet1):
    cls = 'Exdc1Model'
    keys = Ieeet1.keys + ('TB', 'TC')
    nz = Ieeet1.nz + ('TB',)
    variants = Ieeet1.variants + (('TB',), ('TC',))
    def blocks(m):
        Ieeet1.blocks(m)
        if m.has('TB'): m.l = m.q.blk('Leadlag_blk', leadlag(m.p['TC'], m.p['TB']))
    def lead(m, u, dt, stage): return m.l.out(u, dt, stage) if m.has('TB') else u
    def steady(m, y):
        y = Ieeet1.steady(m, y)
        if m.has('TB'): m.l.ss_y(y)


class Esst1a(Exc):
    cls, early = 'Esst1aModel', True
    setters = (('setVterminal', 'Vterm'), ('setVcomp', 'Vcomp'), ('setFieldCurrent', 'LadIfd'), ('setVothsg', 'Vothsg'))
    keys = ('TR', 'VIMAX', 'VIMIN', 'TC', 'TB', 'TC1', 'TB1', 'KA', 'TA', 'VAMAX', 'VAMIN', 'VRMAX', 'VRMIN', 'KC', 'KF', 'TF', 'KLR', 'ILR')
    nz = ('TR', 'TB', 'TB1', 'KA', 'TA', 'KF', 'TF')
    times = ('TR', 'TB', 'TB1', 'TA', 'TF')
    arb = ('Vref',)
    variants = ((), ('TR',), ('TB',), ('TB1',), ('TA',), ('TF',))
    def blocks(m):
        p, q = m.p, m.q
        f = lambda *k: tuple(q.now(x) for x in k) if q.inited else None
        if m.has('TR'): m.v = q.blk('Filter_blkR', lag(1, p['TR']))
        if m.has('TB'): m.b = q.blk('Leadlag_blkBC', leadlag(p['TC'], p['TB']))
        if m.has('TB1'): m.b1 = q.blk('Leadlag_blkBC1', leadlag(p['TC1'], p['TB1']))
        m.a = q.blk('Regulator_blk', lag(p['KA'], p['TA']), f('Vamin', 'Vamax')) if m.has('TA') else Gain(q.s, p['KA'], *(f('Vamin', 'Vamax') or (None, None)))
        if m.has('TF'): m.f = q.blk('Feedback_blkF', washout(p['KF'], p['TF']))
    def load(m):
        l = m.p['KLR'] * (m.q('LadIfd') - m.p['ILR'])
        return t.ite(t.lt(ZERO, l), l, ZERO)
    def step(m, dt, stage):
        q, p = m.q, m.p
        v = m.v.out(q('Vcomp'), dt, stage) if m.has('TR') else q('Vcomp')
        f = m.f.out(q('Efd'), dt, stage) if m.has('TF') else ZERO
        e = q('Vref') - v + q.now('Vuel') + q('Vothsg') - f
        hi, lo = q.now('Vimax'), q.now('Vimin')
        y = t.ite(t.lt(hi, e), hi, t.ite(t.lt(e, lo), lo, e))
        if m.has('TB'): y = m.b.out(y, dt, stage)
        if m.has('TB1'): y = m.b1.out(y, dt, stage)
        y = mn(q.now('Voel'), m.a.out(y, dt, stage) - m.load())
        hi, lo = q('Vterm') * q.now('Vrmax') - p['KC'] * q('LadIfd'), q('Vterm') * q.now('Vrmin')
        return t.ite(t.lt(hi, y), hi, t.ite(t.lt(y, lo), lo, y))
    def steady(m, y):
        q = m.q
        if m.has('TR'): m.v.ss_u(q('Vcomp'))
        if m.has('TF'): m.f.ss_u(y)
        u = m.a.ss_y(y + m.load()) if m.has('TA') else (y + m.load()) / m.p['KA']
        if m.has('TB1'): u = m.b1.ss_y(u)
        if m.has('TB'): m.b.ss_y(u)
        q.s.assume(t.lt(t.R(Fraction(1, 10)), q('Vterm')))


class Esst4b(Exc):
    cls, early = 'Esst4bModel', True
    setters = (('setVterminal', 'Vterm'), ('setVcomp', 'Vcomp'), ('setFieldCurrent', 'LadIfd'), ('setVs', 'Vs'), ('setIri', ('Ir', 'Ii')))
    keys = ('TR', 'KPR', 'KIR', 'VRMAX', 'VRMIN', 'TA', 'KPM', 'KIM', 'VMMAX', 'VMMIN', 'KG', 'KP', 'KI', 'VBMAX', 'KC', 'XL', 'THETAP')
    nz = ('TR', 'KPR', 'KIR', 'TA', 'KPM', 'KIM')
    times = ('TR', 'TA')
    arb = ('Vref',)
    variants = ((), ('TR',), ('TA',), ('KIR',), ('KIM',))
    def blocks(m):
        p, q = m.p, m.q
        f = lambda *k: tuple(q.now(x) for x in k) if q.inited else None
        if m.has('TR'): m.v = q.blk('Filter_blkR', lag(1, p['TR']))
        if m.has('KIR'): m.r = q.blk('PIControl_blkR', pi(p['KPR'], p['KIR']), f('Vrmin', 'Vrmax'), (-10000, 10000))
        if m.has('TA'): m.a = q.blk('Filter_blkA', lag(1, p['TA']))
        if m.has('KIM'): m.m = q.blk('PIControl_blmM', pi(p['KPM'], p['KIM']), f('Vmmin', 'Vmmax'), (-10000, 10000))
        r = q.s.call(q.o, 'CalculateVb', [q('Vterm'), q('th'), q('Ir'), q('Ii'), q('LadIfd')], ret='vb%d' % q.inited, cargs='in_Vterm, in_th, in_Ir, in_Ii, in_LadIfd')
        m.vb = r.x if r else ONE
    def step(m, dt, stage):
        q, p = m.q, m.p
        v = m.v.out(q('Vcomp'), dt, stage) if m.has('TR') else q('Vcomp')
        u = q('Vref') - v + q.now('Vuel') + q('Vs')
        u = m.r.out(u, dt, stage) if m.has('KIR') else p['KPR'] * u
        if m.has('TA'): u = m.a.out(u, dt, stage)
        u = u - q('Efd') * p['KG']
        u = m.m.out(u, dt, stage) if m.has('KIM') else p['KPM'] * u
        return mn(q.now('Voel'), u) * m.vb
    def steady(m, y):
        q, p = m.q, m.p
        q.s.assume(t.lt(t.R(Fraction(1, 100)), m.vb))
        if m.has('TR'): m.v.ss_u(q('Vcomp'))
        u = y / m.vb
        u = m.m.ss_y(u) if m.has('KIM') else u / p['KPM']
        u = u + y * p['KG']
        if m.has('TA'): u = m.a.ss_y(u)
        if m.has('KIR'): m.r.ss_y(u)


class Q:
    """a controller under test: constructed, loaded, its state variables arbitrary"""
    def __init__(q, c, M, name, zero=()):
        q.tag = M.tag
        s = q.s = c.scen('%s%s %s' % (M.cls, ''.join(' without ' + z for z in zero), name))
        s.cuts = Cuts()
        q.M = M
        q.b = Bag(s, required=[key(q.tag + k) for k in M.keys], sizes=(1, 2))
        o = q.o = s.obj('m', M.cls)
        s.call(o, M.cls, [], cpp='')
        for cl, f in s.P.fields_all(s.P.types[o.cls]): s.skip_fields.add((o.name, f['name']))
        s.call(o, 'load', [q.b.byval(), t.I(0)], cargs='data, 0')
        q.p = {k: q.b.val(key(q.tag + k), 0) for k in M.keys}
        for k in zero: s.assume(t.eq(q.p[k], ZERO)); q.b.gen(key(q.tag + k), lambda r, sh: 0.0)
        for k in M.nz:
            if k not in zero: s.assume(t.lt(t.R(Fraction(1, 1000)), q.p[k])); q.b.gen(key(q.tag + k), some_positive(k))
        q.blks, q.m = [], M(q)
        q.zero = zero
        q.old = {}
        q.inited = False
        q.gens = {}

    def now(q, f): return q.s.now(q.o, f) if not q.s.limited else ONE

    def init(q):
        """initialise with the terminal voltage that the machine has set"""
        s, M = q.s, q.M
        V = next((f for fn, f in M.setters if fn == 'setVterminal'), 'V')
        if V == 'V': q.old[V] = s.input('V', 'double').x
        if M.early: s.assume(t.lt(ZERO, q('ts')), *[t.le(4 * q('ts'), q.p[k]) for k in M.times if k not in q.zero])
        s.call(q.o, 'init', [q(V), q('th'), q('ts')], cargs='in_%s, in_th, in_ts' % V)
        q.inited = True

    def arbitrary(q, names):
        s = q.s
        for f in names:
            v = s.input('st_' + f, 'double')
            s.set(q.o, f, {'': v.x}); s.native('o_m->%s = in_st_%s;' % (f, f))
            q.old[f] = v.x

    def blk(q, *a):
        b = Blk(q.s, q.o, *a)
        q.blks.append(b)
        return b

    def __call__(q, f): return q.old[f]
    def pre(q, f): return q.old.get(f, ONE)


CTLS = [Tgov1, Gast, Hygov, Sexs, Ieeet1, Exdc1, Esst1a, Esst4b]


def setters(q):
    """the inputs of the controller, through its setters"""
    s = q.s
    for fn, f in q.M.setters + (q.M.out[::2],):
        fs = f if isinstance(f, tuple) else (f,)
        for f in fs: q.old[f] = s.input(f, 'double', q.gens.get(f)).x
        s.call(q.o, fn, [q.old[f] for f in fs], cargs=', '.join('in_' + f for f in fs))
    q.old['th'] = s.input('th', 'double').x
    q.old['ts'] = s.input('ts', 'double', lambda r, sh: r.uniform(0.001, 0.01)).x


def s_stages(c):
    """one integration stage from any state: the documented diagram"""
    out = []
    for M in CTLS:
        for zero in M.variants:
            for st, nm in ((PRED, 'predictor'), (CORR, 'corrector')):
                q = Q(c, M, nm, zero)
                s = q.s
                setters(q)
                if M.early: q.init()
                q.arbitrary(M.arb)
                q.m.blocks()
                dt = s.input('dt', 'double')
                for b in q.blks: b.start(); b.freeze()
                q.m.also = []
                y = q.m.step(dt.x, st)
                s.call(q.o, nm, [dt, t.TRUE], cargs='in_dt, true')
                r = s.call(q.o, M.out[1], [], ret='y')
                s.post('output', r.x if r else None, y, native='y')
                for l, f, w in q.m.also: s.post(l, lambda f=f: s.now(q.o, f), w, native='o_m->' + f)
                for b in q.blks: b.posts(nm)
                out.append(s)
    return out


def s_equilibrium(c):
    """initialised at an operating point inside its limits, a controller stays there"""
    out = []
    for M in CTLS:
        for zero in M.variants:
            q = Q(c, M, 'equilibrium', zero)
            s = q.s
            q.gens = M.eq_gens
            setters(q)
            for k in M.keys:
                if 'MAX' in k: q.b.gen(key(q.tag + k), lambda r, sh: r.uniform(20, 50))
                if 'MIN' in k: q.b.gen(key(q.tag + k), lambda r, sh: r.uniform(-50, -20))
            for k in M.nz:
                if k not in zero: s.assume(t.le(q.p[k], t.R(1000)))
            q.m.blocks()
            q.m.steady(q(M.out[2]))
            steady_contracts(q)
            q.init()
            dt = s.input('dt', 'double')
            for b in q.blks: s.post('initial state of ' + b.field, lambda b=b: b.at('x'), b.xs, native=b.nat('x'))
            for i, nm in enumerate(('predictor', 'corrector', 'predictor')):
                s.call(q.o, nm, [dt, t.TRUE], cargs='in_dt, true')
                r = s.call(q.o, M.out[1], [], ret='y%d' % i)
                s.post('%s keeps the output' % nm, r.x if r else None, q(M.out[2]), native='y%d' % i)
                for b in q.blks: s.post('%s keeps the state of %s' % (nm, b.field), lambda b=b: b.at('x' if nm == 'corrector' else 'p_xhat'), b.xs, native=b.nat('x' if nm == 'corrector' else 'p_xhat'))
            out.append(s)
    return out


def s_contracts(c):
    """the contracts that the equilibrium argument uses for control blocks hold for their code"""
    out = []
    cases = [('getoutput', 'predictor'), ('getoutput', 'corrector'), ('init_given_y', ''), ('init_given_u', '')]
    for fn, stage in cases:
        s = c.scen('control block %s %s at a steady state' % (fn, stage))
        o = s.obj('b', 'Cblock')
        f = lambda n, st=None: s.ex.fld(st or s.st, o.ref, o.cls, n).x
        a0 = lambda n, st=None: t.select(s.ex.fld(st or s.st, o.ref, o.cls, n).l['[]'], t.I(0))
        u, x, y, dt = [s.input(k, 'double').x for k in ('u', 'x', 'y', 'dt')]
        A, B, C, D = [a0('p_' + k) for k in 'ABCD']
        s.assume(t.eq(C, ONE), t.eq(A * x + B * u, ZERO), t.eq(C * x + D * u, y))
        s.proof_only = True
        big = lambda x: t.le(t.R(Fraction(1, 10**10)), t.ite(t.lt(x, ZERO), -x, x))
        at = lambda n: lambda: a0(n)
        if fn == 'getoutput':
            s.assume(t.eq(a0('x'), x), t.le(f('p_xmin'), x), t.le(x, f('p_xmax')), t.le(f('p_ymin'), y), t.le(y, f('p_ymax')), t.le(f('p_dxmin'), ZERO), t.le(ZERO, f('p_dxmax')))
            if stage == 'corrector': s.assume(t.eq(a0('p_xhat'), x), t.eq(a0('p_dxdt'), ZERO))
            r = s.call(o, 'getoutput', [u, dt, t.I(PRED if stage == 'predictor' else CORR), t.TRUE], ret='r', nparams=4, cpp='')
            s.post('output', r.x if r else None, y)
            s.post('state', at('x'), x); s.post('predicted state', at('p_xhat'), x); s.post('predicted rate', at('p_dxdt'), ZERO)
        elif fn == 'init_given_y':
            s.assume(t.or_(t.and_(t.eq(A, ZERO), t.ne(B, ZERO)), t.and_(big(A), t.ne(D * A - B, ZERO))))
            r = s.call(o, fn, [y], ret='r', cpp='')
            s.post('input', r.x if r else None, u); s.post('state', at('x'), x)
        else:
            s.assume(big(A), t.or_(t.eq(B, ZERO), big(B)))
            r = s.call(o, fn, [u], ret='r', cpp='')
            s.post('output', r.x if r else None, y); s.post('state', at('x'), x)
        out.append(s)
    s = c.scen('gain inside its limits')
    o = s.obj('g', 'GainLimiter')
    s.proof_only = True
    u = s.input('u', 'double').x
    f = lambda n: s.ex.fld(s.st, o.ref, o.cls, n).x
    s.assume(t.le(f('p_ymin'), f('p_K') * u), t.le(f('p_K') * u, f('p_ymax')))
    r = s.call(o, 'getoutput', [u], ret='r', nparams=1, cpp='')
    s.post('output', r.x if r else None, f('p_K') * u)
    out.append(s)
    return out


def s_sat(c):
    """the saturation function passes through its two points and is zero below its threshold"""
    out = []
    for M in (Ieeet1, Exdc1):
        q = Q(c, M, 'saturation')
        s, p = q.s, q.p
        q.old['Efd'] = ONE
        s.set(q.o, 'Efd', {'': ONE}); s.native('o_m->Efd = 1.0; double in_Efd = 1.0;')
        s.cuts = None
        q.m.blocks()
        S1, S2, E1, E2 = p['SE1'] * p['E1'], p['SE2'] * p['E2'], p['E1'], p['E2']
        z, r = t.var('lem_z', REAL), t.var('lem_r', REAL)
        thr = lambda r: (E1 - r * E2) / (1 - r)
        root = [t.lt(ZERO, z), t.lt(z, ONE), t.le(ZERO, t.sqrt(z)), t.eq(t.sqrt(z) * t.sqrt(z), z)]    # the meaning of sqrt
        s.lemmas.append(('root below one', root, t.and_(t.lt(ZERO, t.sqrt(z)), t.lt(t.sqrt(z), ONE))))
        s.lemmas.append(('ratio below one', [], t.and_(t.lt(ZERO, S1 / S2), t.lt(S1 / S2, ONE))))
        s.lemmas.append(('threshold', [t.lt(ZERO, r), t.lt(r, ONE)], t.lt(thr(r), E1)))
        inst = [t.lt(thr(t.sqrt(S1 / S2)), E1)]
        A, B = (lambda: s.now(q.o, 'sat_A')), (lambda: s.now(q.o, 'sat_B'))
        s.ensure('the threshold lies below the first point', lambda: t.lt(A(), E1), hyps=inst, native='o_m->sat_A < o_m->E1')
        s.post('first point', lambda: B() * (E1 - A()) * (E1 - A()), S1, hyps=inst)
        s.post('second point', lambda: B() * (E2 - A()) * (E2 - A()), S2, hyps=inst)
        for k in ('E1', 'E2'):
            s.native('double sat_%s = o_m->Sat(o_m->%s);' % (k, k))
            s.sampled('saturation at ' + k, p['S' + k], native='sat_' + k)
        out.append(s)
        s = c.scen('%s saturation function' % M.cls)
        o = s.obj('m', M.cls)
        A, B = s.old(o, 'sat_A'), s.old(o, 'sat_B')
        e, S, x = [s.input(k, 'double').x for k in ('e', 'S', 'x')]
        s.proof_only = True
        s.assume(t.lt(A, e), t.lt(ZERO, e), t.eq(B * (e - A) * (e - A), S * e), t.lt(x, A))
        r = s.call(o, 'Sat', [e], ret='y', cpp='')
        s.post('a point of the characteristic', r.x if r else None, S)
        r = s.call(o, 'Sat', [x], ret='y', cpp='')
        s.post('below the threshold', r.x if r else None, ZERO)
        out.append(s)
    return out


def s_potential(c):
    """ESST4B: available exciter voltage = |Kp VT + j (KI + Kp XL) IT| reduced by the rectifier load"""
    q = Q(c, Esst4b, 'available voltage')
    s, p = q.s, q.p
    s.cuts = None
    V, th, Ir, Ii, If = [s.input(k, 'double').x for k in ('V', 'th', 'Ir', 'Ii', 'If')]
    tp = p['THETAP'] * t.PI / 180
    kr, ki = p['KP'] * t.cos(tp), p['KP'] * t.sin(tp)
    vr, vi = V * t.cos(th), V * t.sin(th)
    zr, zi = -ki * p['XL'], kr * p['XL'] + p['KI']
    re, im = kr * vr - ki * vi + zr * Ir - zi * Ii, kr * vi + ki * vr + zr * Ii + zi * Ir
    ve = t.sqrt(re * re + im * im)
    s.assume(t.lt(t.R(Fraction(1, 1000)), re * re + im * im))
    r = s.call(q.o, 'CalculateVb', [V, th, Ir, Ii, If], ret='vb', cargs='in_V, in_th, in_Ir, in_Ii, in_If')
    f = s.call(q.o, 'FEX', [p['KC'] * If / ve], ret='fex', cargs='o_m->Kc*in_If/%s' % 've') if not s.limited else None
    s.steps[-1:] = ['double kr_ = o_m->Kp*cos(o_m->Thetap*M_PI/180), ki_ = o_m->Kp*sin(o_m->Thetap*M_PI/180); std::complex<double> e_ = std::complex<double>(kr_,ki_)*std::polar(1.0,in_th)*in_V + std::complex<double>(0,1)*(o_m->KI + std::complex<double>(kr_,ki_)*o_m->Xl)*std::complex<double>(in_Ir,in_Ii); double ve = std::abs(e_);', s.steps[-1]]
    s.post('available voltage', r.x if r else None, mn(ve * f.x, p['VBMAX']) if f else None, native='vb')
    out = [s]
    s = c.scen('rectifier loading')
    o = s.obj('m', 'Esst4bModel')
    x = s.input('x', 'double', lambda r, sh: r.choice([r.uniform(-1, 2), 0.0, 0.433, 0.75, 1.0])).x
    r = s.call(o, 'FEX', [x], ret='y', cargs='in_x')
    k1, k2 = Fraction(433, 1000), Fraction(3, 4)
    w = t.ite(t.le(x, ZERO), ONE, t.ite(t.le(x, t.R(k1)), 1 - t.R(Fraction(577, 1000)) * x, t.ite(t.lt(x, t.R(k2)), t.sqrt(t.R(k2) - x * x), t.ite(t.le(x, ONE), t.R(Fraction(1732, 1000)) * (1 - x), ZERO))))
    s.post('rectifier characteristic', r.x if r else None, w, native='y')
    out.append(s)
    return out


SCENARIOS = [s_stages, s_equilibrium, s_contracts, s_sat, s_potential]
