"""Full-Y machines: equilibrium at the power-flow solution, documented equations, coupling to controllers, injections, load."""
import os
from props.fy import *

MODELS = ['genrou', 'gensal', 'classical']
GHOST = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
REAL_SRC = [FY + 'model_classes/%s.cpp' % m for m in MODELS] + [FY + 'base_classes/%s.cpp' % b for b in BASES]
SOURCES = REAL_SRC + [dict(src=GHOST + '/fy_ghosts.cpp', keep='/repo/src/|' + GHOST)]
NATIVE = dict(srcs=REAL_SRC + [GHOST + '/fy_ghosts.cpp'] + NAT_BASE, headers=[FY + 'model_classes/%s.hpp' % m for m in MODELS] + [GHOST + '/fy_ghosts.hpp'], incs=INCS)
INCS = INCS + [GHOST]
NATIVE['incs'] = INCS
CXN = 'std::complex<double>'
OMEGA = 120 * t.PI
GEN = 'GENERATOR_'


class Mach:
    """a machine: its parameters are fields that load() fills (s_load); its states have a current and a predicted copy"""
    def __init__(m, q): m.q = q


class Rou(Mach):
    cls, base, sat = 'GenrouGenerator', 'MBase', True
    par = dict(H='INERTIA_CONSTANT_H', D='DAMPING_COEFFICIENT_0', Ra='RESISTANCE', Xd='XD', Xq='XQ', Xdp='XDP', Xdpp='XDPP', Xl='XL', Tdop='TDOP', Tdopp='TDOPP',
               Tqopp='TQOPP', Xqp='XQP', Tqop='TQOP', S10='S1', S12='S12')
    defaults = dict(S10=Fraction(5, 100), S12=Fraction(3, 10), Tqop=Fraction(3, 4))
    st = ['x1d', 'x2w', 'x3Eqp', 'x4Psidp', 'x5Psiqp', 'x6Edp']
    cur = lambda m, k: k
    prd = lambda m, k: k + '_1'
    rate = lambda m, k, stage: 'd' + k + ('' if stage == PRED else '_1')
    final = lambda m, k: k                    # where the corrector puts the new state
    pssed, omega = False, True
    w = 'x2w'

    def flux(m, x):
        f = m.q.f
        a, b = (f('Xdpp') - f('Xl')) / (f('Xdp') - f('Xl')), (f('Xqpp') - f('Xl')) / (f('Xqp') - f('Xl'))
        return a * x['x3Eqp'] + (1 - a) * x['x4Psidp'], -(b * x['x6Edp'] + (1 - b) * x['x5Psiqp'])

    def more(m, x, Id, Iq):
        f = m.q.f
        g = -x['x5Psiqp'] + (f('Xqp') - f('Xl')) * Iq + x['x6Edp']
        b = (f('Xqp') - f('Xqpp')) / ((f('Xqp') - f('Xl')) * (f('Xqp') - f('Xl')))
        m.q.s.cuts.known(Iq - b * g)
        return {'x5Psiqp': g / f('Tqopp'), 'x6Edp': (-x['x6Edp'] + (f('Xq') - f('Xqp')) * (Iq - b * g)) / f('Tqop')}


class Sal(Mach):
    cls, base, sat = 'GensalGenerator', 'MBase', True
    par = dict(H='INERTIA_CONSTANT_H', D='DAMPING_COEFFICIENT_0', Ra='RESISTANCE', Xd='XD', Xq='XQ', Xdp='XDP', Xdpp='XDPP', Xl='XL', Tdop='TDOP', Tdopp='TDOPP',
               Tqopp='TQOPP', S10='S1', S12='S12')
    defaults = dict(S10=Fraction(17, 100), S12=Fraction(55, 100))
    st = ['x1d', 'x2w', 'x3Eqp', 'x4Psidp', 'x5Psiqpp']
    cur = lambda m, k: k + '_0'
    prd = lambda m, k: k + '_1'
    rate = lambda m, k, stage: 'd' + k + ('_0' if stage == PRED else '_1')
    final = lambda m, k: k + '_1'
    pssed, omega = True, False
    w = 'x2w'

    def flux(m, x):
        f = m.q.f
        a = (f('Xdpp') - f('Xl')) / (f('Xdp') - f('Xl'))
        return a * x['x3Eqp'] + (1 - a) * x['x4Psidp'], x['x5Psiqpp']

    def more(m, x, Id, Iq):
        f = m.q.f
        return {'x5Psiqpp': (-x['x5Psiqpp'] - (f('Xq') - f('Xdpp')) * Iq) / f('Tqopp')}


class Cls(Mach):
    cls, base, sat = 'ClassicalGenerator', 'p_mva', False
    par = dict(p_h='INERTIA_CONSTANT_H', p_d0='DAMPING_COEFFICIENT_0', p_r='RESISTANCE')
    defaults = {}


class Q:
    def __init__(q, c, M, name):
        q.M, q.m = M, M(q)
        q.s = s = c.scen('%s %s' % (M.cls, name))
        s.cuts = Cuts()
        q.o = s.obj('m', M.cls)
        q.ctl = {}
        q.dyn = []

    def f(q, k): return q.s.old(q.o, k)
    def now(q, k): return lambda: q.s.now(q.o, k)

    def controllers(q, kinds, hold=False):
        """attach ghosts"""
        s = q.s
        for k in ('exc', 'gov', 'pss'):
            has = k in kinds
            F = {'exc': 'p_hasExciter', 'gov': 'p_hasGovernor', 'pss': 'p_hasPss'}[k]
            s.put(q.o, F, False)
        for k in kinds:
            cl, base, fn = {'exc': ('GhostExciter', 'BaseExciterModel', 'setExciter'), 'gov': ('GhostGovernor', 'BaseGovernorModel', 'setGovernor'), 'pss': ('GhostPss', 'BasePssModel', 'setPss')}[k]
            g = s.obj(k, cl)
            q.ctl[k] = g
            s.ex.dyn[g.ref] = g.cls
            if not hold: s.put(g, 'hold', False)
            s.put(g, 'stages', 0); s.put(g, 'inits', 0)
            ty = 'boost::shared_ptr<%s%s>' % (NS, base)
            lv = s.outvar('p_' + k, ty, 'o_' + k)
            if not s.limited: s.ex.write(s.st, lv[0][1], Val(s.type(ty), {'': g.ref}))
            s.call(q.o, fn, [lv], cargs='p_' + k)

    def ghost(q, k, f, st=None): return q.s.now(q.ctl[k], f)

    def network(q, re, im):
        """terminal voltage of the network"""
        v = Cx(re, im)
        q.s.call(q.o, 'setVoltage', [Val(q.s.type(CXN), {'.re': re, '.im': im})], cargs='std::complex<double>(in_%s, in_%s)' % (re.val, im.val)) if False else None

    def volt(q, nm, pos=True):
        s = q.s
        re, im = s.input(nm + 'r', 'double').x, s.input(nm + 'i', 'double').x
        s.assume(t.lt(t.R(Fraction(1, 100)), re * re + im * im))
        s.call(q.o, 'setVoltage', [Val(s.type(CXN), {'.re': re, '.im': im})], cargs='std::complex<double>(in_%sr, in_%si)' % (nm, nm))
        return Cx(re, im)

    def params(q):
        """parameters for which the equations make sense"""
        s, f, M = q.s, q.f, q.M
        pos = lambda *ks: [s.assume(t.lt(ZERO, f(k))) for k in ks] + [s.gen(q.o, k, lambda r, sh: r.uniform(.2, 3)) for k in ks]
        pos(M.base)
        if M is Cls:
            pos('p_dtr', 'p_h')
            pos('p_sbase')
            s.put(q.o, 'p_r', 0)
            return
        pos('S10'); s.assume(t.lt(f('S10'), f('S12')))            # saturation: S(1) < S(1.2); without saturation: s_sat
        s.gen(q.o, 'S10', lambda r, sh: r.uniform(.05, .2)); s.gen(q.o, 'S12', lambda r, sh: r.uniform(.3, .6))
        pos('p_sbase', 'Xdpp', 'H', 'Tdop', 'Tdopp', 'Tqopp')
        s.assume(t.le(ZERO, f('Ra'))); s.gen(q.o, 'Ra', lambda r, sh: r.choice([0.0, r.uniform(0, .05)]))
        s.assume(t.lt(f('Xl'), f('Xdp')))
        if M is Rou:
            pos('Tqop')
            s.assume(t.lt(f('Xl'), f('Xqp')))
            s.gen(q.o, 'Xqp', lambda r, sh: r.uniform(.5, 1))
        s.gen(q.o, 'Xl', lambda r, sh: r.uniform(.01, .2)); s.gen(q.o, 'Xdp', lambda r, sh: r.uniform(.3, .6))

    def admittance(q, b=1):
        f = q.f
        if q.M is Cls: return Cx(1) / (Cx(0, 1) * f('p_dtr') * f('p_sbase') / f('p_mva'))
        return Cx(1) / Cx(f('Ra'), f('Xdpp')) * (f('MBase') / f('p_sbase'))


def stage_spec(q, x, V, Efd, Pm, sat):
    """documented equations of GENROU / GENSAL for the states x and the terminal voltage V: rates, field current"""
    f, m = q.f, q.m
    co, si = t.cos(x['x1d']), t.sin(x['x1d'])
    cut = q.s.cuts.define
    psid, psiq = m.flux(x)
    E = Cx(cut('Ed', -psiq - V.re * si + V.im * co), cut('Eq', psid - V.re * co - V.im * si))      # voltage over the internal impedance, d + jq
    psid, psiq = cut('psid', psid), cut('psiq', psiq)
    Y = Cx(1) / Cx(f('Ra'), f('Xdpp'))
    I = Y * E
    Id, Iq = cut('Id', I.re), cut('Iq', I.im)
    Te = psid * Iq - psiq * Id
    gd = -x['x4Psidp'] - (f('Xdp') - f('Xl')) * Id + x['x3Eqp']
    bd = (f('Xdp') - f('Xdpp')) / ((f('Xdp') - f('Xl')) * (f('Xdp') - f('Xl')))
    known = q.s.cuts.known
    known(-psid); known(-psiq); known(Id + bd * gd); known(-Id); known(-Iq)
    if q.M is Sal: known(psid - f('Xdpp') * Id); known(psiq - f('Xdpp') * Iq)
    lad = x['x3Eqp'] * (1 + sat) + (f('Xd') - f('Xdp')) * (Id + bd * gd)
    w = x['x2w']
    r = {'x1d': OMEGA * w, 'x2w': ((Pm - f('D') * w) / (1 + w) - Te) / (2 * f('H')), 'x3Eqp': (Efd - lad) / f('Tdop'), 'x4Psidp': gd / f('Tdopp')}
    r.update(m.more(x, Id, Iq))
    return r, lad


def norton(q, x):
    """current source behind the internal impedance, on the system base, network axes"""
    f = q.f
    psid, psiq = q.m.flux(x)
    co, si = t.cos(x['x1d']), t.sin(x['x1d'])
    I = Cx(-psiq, psid) / Cx(f('Ra'), f('Xdpp'))
    return Cx(I.re * si + I.im * co, -I.re * co + I.im * si) * (f('MBase') / f('p_sbase'))


def injection(q):
    s = q.s
    r = s.call(q.o, 'INorton', [], ret='inj%d' % len(s.steps))
    return r, re_name(s)


def re_name(s): return s.steps[-1].split('=')[0].replace('auto', '').strip()


MACHS = (Rou, Sal)
KINDS = None


def s_stages(c):
    """one stage from any state: injected current, rates, new states, what the controllers see"""
    out = []
    for M in MACHS:
        for kinds in KINDS or ((), ('exc', 'gov') + (('pss',) if M.pssed else ()), ('exc',), ('gov',)):
            for stage, nm in ((PRED, 'predictor'), (CORR, 'corrector')):
                for first in ((False, True) if stage == PRED and M is Sal and not kinds else (True,)):
                    q = Q(c, M, '%s%s%s' % (nm, ''.join(' ' + k for k in kinds), '' if first else ' later step'))
                    s, o, m = q.s, q.o, q.m
                    q.params()
                    for k, v in (('p_tripped', False), ('bStatus', True)): s.put(o, k, v)
                    if M is Rou: s.put(o, 'printFlag', False)
                    q.controllers(kinds)
                    V0 = q.volt('V0')
                    x = {k: q.f(m.cur(k) if stage == PRED and first else m.prd(k)) for k in M.st}
                    s.assume(t.lt(t.R(-1), x['x2w']))
                    s.gen(o, m.cur('x2w'), lambda r, sh: r.uniform(-.1, .1)); s.gen(o, m.prd('x2w'), lambda r, sh: r.uniform(-.1, .1))
                    sat = s.call(o, 'Sat', [x['x3Eqp']], ret='sat', cargs='o_m->' + (m.cur('x3Eqp') if stage == PRED and first else m.prd('x3Eqp')))
                    B = 'true' if first else 'false'
                    F = t.TRUE if first else t.FALSE
                    s.call(o, nm + '_currentInjection', [F], cargs=B)
                    r, rn = injection(q)
                    if not s.limited: q.inj = r
                    post_cx(s, 'injected current', r, norton(q, x), native=rn)
                    V = q.volt('V1')
                    dt = s.input('dt', 'double')
                    lad0 = q.f('LadIfd') if M is Rou else None
                    Efd = s.old(q.ctl['exc'], 'efd') if 'exc' in kinds else q.f('Efdinit')
                    Pm = s.old(q.ctl['gov'], 'pm') if 'gov' in kinds else q.f('Pmechinit')
                    rate, lad = stage_spec(q, x, V, Efd, Pm, sat.x if sat else ZERO)
                    s.call(o, nm, [dt, F], cargs='in_dt, ' + B)
                    for k in M.st:
                        s.post('rate of ' + k, q.now(m.rate(k, stage)), rate[k], native='o_m->' + m.rate(k, stage))
                    for k in M.st:
                        rt = lambda z, k=k: s.now(o, m.rate(k, z))
                        if stage == PRED:
                            s.post('state ' + k, q.now(m.cur(k)), x[k], native='o_m->' + m.cur(k))
                            w = x[k] + (rate[k] if s.limited else rt(PRED)) * dt.x
                            s.post('predicted ' + k, q.now(m.prd(k)), w, native='o_m->' + m.prd(k)) if not s.limited else None
                        else:
                            x0 = q.f(m.cur(k))
                            w = x0 + (q.f(m.rate(k, PRED)) + (rate[k] if s.limited else rt(CORR))) / 2 * dt.x
                            s.post('corrected ' + k, q.now(m.final(k)), w, native='o_m->' + m.final(k)) if not s.limited else None
                    s.post('field current', q.now('LadIfd'), lad, native='o_m->LadIfd')
                    vm = lambda z: t.sqrt(z.re * z.re + z.im * z.im)
                    for k in kinds:
                        g = q.ctl[k]
                        s.post(k + ' runs once', lambda g=g: s.now(g, 'stages'), t.I(1), native='o_%s->stages' % k)
                        s.post(k + ' time step', lambda g=g: s.now(g, 'at_dt'), dt.x, native='o_%s->at_dt' % k)
                        def see(fld, w, k=k, g=g): s.post('%s input %s' % (k, fld), lambda: s.now(g, 'at_' + fld), w, native='o_%s->at_%s' % (k, fld))
                        if k == 'exc':
                            see('vt', vm(V)); see('vc', vm(V))
                            if M is Rou: see('fc', lad0); see('om', x['x2w'])
                            else:
                                see('fc', lad if s.limited else s.now(o, 'LadIfd'))
                                if 'pss' in kinds: see('vs', s.old(q.ctl['pss'], 'nextout'))
                        elif k == 'gov': see('dw', (x['x2w'] if stage == PRED else None) if M is Sal and stage == PRED else (x['x2w'] if M is Rou else (ZERO if s.limited else s.now(o, m.final('x2w')))))
                        else: see('om', ZERO if s.limited else s.now(o, m.prd('x2w') if stage == PRED else m.final('x2w')))
                    out.append(s)
    return out


def eq_cuts(q, V, P, Q):
    """quantities of the equilibrium of a two-axis machine: current, rotor angle, quadrature-axis voltage, axis currents"""
    f, c, s = q.f, q.s.cuts, q.s
    R, X, Xp, Xl, Xdp = f('Ra'), f('Xq'), f('Xdpp'), f('Xl'), f('Xdp')
    V2 = q.mag * q.mag
    I = (V.re * P + V.im * Q) / V2, (V.im * P - V.re * Q) / V2
    er, ei = V.re + R * I[0] - X * I[1], V.im + X * I[0] + R * I[1]
    s.assume(t.lt(t.R(Fraction(1, 100)), er * er + ei * ei))
    Ir, Ii = c.define('Ir', I[0]), c.define('Ii', I[1])
    c.known(-Ir); c.known(-Ii)
    er, ei = V.re + R * Ir - X * Ii, V.im + X * Ir + R * Ii
    h, phi = c.define('h', t.sqrt(er * er + ei * ei)), c.define('delta', t.app('atan2', (ei, er), REAL))
    co, si = t.cos(phi), t.sin(phi)
    c.known(co); c.known(si)
    Id, Iq = c.define('Id', Ir * si - Ii * co), c.define('Iq', Ir * co + Ii * si)
    c.fact('voltage behind the quadrature reactance, real part', V.re, h * co - R * Ir + X * Ii)
    c.fact('voltage behind the quadrature reactance, imaginary part', V.im, h * si - X * Ir - R * Ii)
    c.fact('current in machine axes, real part', Ir, Id * si + Iq * co)
    c.fact('current in machine axes, imaginary part', Ii, Iq * si - Id * co)
    c.known(Id); c.known(Iq); c.known(-Id); c.known(-Iq)
    for x in (h - (X - Xp) * Id, (X - Xp) * Iq, -(X - Xp) * Iq): c.known(x)       # subtransient fluxes
    psid = h - (X - Xp) * Id - (Xp - Xl) * Id
    c.known(psid); c.known(psid + (Xdp - Xl) * Id); c.known(psid + (Xdp - Xl) * Id + (f('Xd') - Xdp) * Id)
    if q.M is Rou: c.known((X - f('Xqp')) * Iq); c.known((X - f('Xqp')) * Iq + (f('Xqp') - Xl) * Iq)
    return expand(s, Ir), expand(s, Ii)


def s_equilibrium(c):
    """initialised at the power-flow solution, a machine injects the power of its dispatch and stays where it is"""
    out = []
    for M in EQ:
        for kinds in ((), ('exc', 'gov') + (('pss',) if M is Sal else ())) if M is not Cls else ((),):
            q = Q(c, M, 'starts in equilibrium%s' % ''.join(' ' + k for k in kinds))
            s, o = q.s, q.o
            q.params()
            q.controllers(kinds, True)
            m = q.m
            if M is Rou: s.set(o, 'Xqpp', {'': q.f('Xdpp')}); s.native('o_m->Xqpp = o_m->Xdpp;')       # load sets it so (s_load)
            for g in q.ctl: s.put(q.ctl[g], 'hold', True)
            if M is Sal: s.put(q.o, 'p_wideareafreq', 0)
            if 'pss' in kinds: s.put(q.ctl['pss'], 'out', 0)
            for k, v in (('p_tripped', False), ('bStatus', True)):
                if M is not Cls or k == 'bStatus': s.put(o, k, v)
            if M is Rou: s.put(o, 'printFlag', False)
            mag, ang, ts = [s.input(k, 'double', g).x for k, g in (('mag', lambda r, sh: r.uniform(.8, 1.2)), ('ang', lambda r, sh: r.uniform(-2, 2)), ('ts', None))]
            dt = s.input('dt', 'double')
            q.mag = mag
            s.assume(t.lt(ZERO, mag))
            V = Cx(mag * t.cos(ang), mag * t.sin(ang))
            pg, qg, mb, sb = q.f('p_pg'), q.f('p_qg'), q.f(M.base), q.f('p_sbase')
            unit = ONE if M is Cls else 1 / sb                   # dispatch on the system base
            S = Cx(pg * unit, qg * unit)
            if M is Cls:
                s.assume(t.lt(ZERO, pg * pg + qg * qg)); s.cuts = None
                s.set(o, 'p_PI', {'': t.PI}); s.native('o_m->p_PI = 4.0*atan(1.0);')
                I = S.conj() / V.conj()
            else:
                Ir, Ii = eq_cuts(q, V, pg / mb, qg / mb)
                I = Cx(Ir, Ii) * (mb / sb)                          # conj(S / V): Ir + j Ii = conj((P + jQ) / V) as |V| = mag
            s.call(o, 'init', [mag, ang, ts], cargs='in_mag, in_ang, in_ts')
            vN = 'std::polar(in_mag, in_ang)'
            r = s.call(o, 'NortonImpedence', [], ret='Y')
            post_cx(s, 'Norton admittance', r, q.admittance(), native='Y')
            if M is not Cls: post_cx(s, 'Norton admittance of a tripped machine', lambda: s.now(o, 'p_Norton_Ya') if False else (s.ex.fld(s.st, o.ref, o.cls, 'p_Norton_Ya')), q.admittance(), native='o_m->p_Norton_Ya')
            Y = q.admittance()
            x0 = {} if s.limited or M is Cls else {k: s.ex.fld(s.st, o.ref, o.cls, q.m.cur(k)).x for k in M.st}
            zero = lambda: ZERO
            if M is Rou:
                for k in M.st: s.post('predicted copy of ' + k, q.now(m.prd(k)), x0.get(k, ZERO), native='o_m->' + m.prd(k))
            for stage, z in (('predictor', PRED), ('corrector', CORR)):
                s.call(o, stage + '_currentInjection', [t.TRUE], cargs='true')
                r, rn = injection(q)
                post_cx(s, '%s: current into the network' % stage, (lambda r=r: Cx(r.l['.re'], r.l['.im']) - Y * V) if r else None, I, native='%s - Y*%s' % (rn, vN))
                s.call(o, stage, [dt.x, t.TRUE], cargs='in_dt, true')
                if M is Cls:
                    E = V + J * q.f('p_dtr') * I * (sb / mb)
                    at = lambda k: s.ex.fld(s.st, o.ref, o.cls, k)
                    Z = '_s0' if stage == 'predictor' else '_s1'
                    for k, w in (('p_dmac_ang' + Z, ZERO), ('p_dmac_spd' + Z, ZERO), ('p_mac_spd_s1', ONE)):
                        post_cx(s, '%s keeps %s' % (stage, k), lambda k=k: at(k), Cx(w), native='o_m->' + k)
                    s.post('%s: rotor angle is real' % stage, lambda: at('p_mac_ang_s1').l['.im'], ZERO, native='o_m->p_mac_ang_s1.imag()')
                    post_cx(s, '%s keeps the internal voltage' % stage, lambda: at('p_eprime_s1'), E, native='o_m->p_eprime_s1')
                    if not s.limited:
                        for k, w in (('p_dmac_ang' + Z, Cx(0)), ('p_dmac_spd' + Z, Cx(0)), ('p_mac_spd_s1', Cx(1)), ('p_eprime_s1', E)):
                            s.ex.setfld(s.st, o.ref, o.cls, k, {'.re': w.re, '.im': w.im})
                for k in M.st if M is not Cls else ():
                    s.post('%s: %s does not change' % (stage, k), q.now(m.rate(k, z)), ZERO, native='o_m->' + m.rate(k, z))
                    s.post('%s: new state %s' % (stage, k), q.now(m.prd(k) if stage == 'predictor' else m.final(k)), x0.get(k, ZERO) + (ZERO if s.limited else (s.now(o, m.rate(k, PRED)) if z == PRED else (s.now(o, m.rate(k, CORR)) + ZERO) / 2) * dt.x), native='o_m->%s' % (m.prd(k) if stage == 'predictor' else m.final(k)))
                    # the next stage starts from the proved values
                    if s.limited: continue
                    s.ex.setfld(s.st, o.ref, o.cls, m.rate(k, z), {'': ZERO})
                    s.ex.setfld(s.st, o.ref, o.cls, m.prd(k) if stage == 'predictor' else m.final(k), {'': x0[k]})
                for g, seen in (('exc', (('vt', mag), ('vc', mag), ('fc', None), ('om', ZERO), ('vs', ZERO))), ('gov', (('dw', ZERO),)), ('pss', (('om', ZERO),))):
                    if g not in kinds: continue
                    for fl, w in seen:
                        if fl == 'vs' and M is Rou or fl == 'om' and g == 'exc' and M is Sal: continue
                        if fl == 'fc': w = ZERO if s.limited else s.now(q.ctl['exc'], 'at0_fc')
                        s.post('%s: %s keeps its input %s' % (stage, g, fl), lambda g=g, fl=fl: s.now(q.ctl[g], 'at_' + fl), w, native='o_%s->at_%s' % (g, fl))
            out.append(s)
    return out


def real_part(q, k, other=None):
    """a complex field that stays real: init sets its imaginary part to zero and no stage changes that (s_classical, s_equilibrium)"""
    q.s.set(q.o, k, {'.im': ZERO}); q.s.native('o_m->%s.imag(0.0);' % k)
    return q.s.old(q.o, k, '.re')


def s_classical(c):
    """one stage of the classical machine from any state"""
    out = []
    for stage, nm in ((PRED, 'predictor'), (CORR, 'corrector')):
        for first in (True, False) if stage == PRED else (True,):
            for on in (True, False):
                q = Q(c, Cls, '%s%s%s' % (nm, '' if first else ' later step', '' if on else ' out of service'))
                s, o = q.s, q.o
                s.cuts = None
                q.params()
                s.put(o, 'bStatus', on)
                s.set(o, 'p_PI', {'': t.PI}); s.native('o_m->p_PI = 4.0*atan(1.0);')
                for k in ('p_mac_ang_s0', 'p_mac_ang_s1', 'p_mac_spd_s0', 'p_mac_spd_s1', 'p_pmech', 'p_eqprime', 'p_dmac_ang_s0', 'p_dmac_spd_s0'): real_part(q, k)
                z = '_s0' if stage == PRED and first else '_s1'
                ang, w, E = s.old(o, 'p_mac_ang' + z, '.re'), s.old(o, 'p_mac_spd' + z, '.re'), Cx(*s.cx(o, 'p_eprime' + z))
                ang0, w0 = (ang, w) if stage == PRED else (s.old(o, 'p_mac_ang_s0', '.re'), s.old(o, 'p_mac_spd_s0', '.re'))
                s.assume(t.lt(ZERO, w))
                for k in ('_s0', '_s1'): s.gen(o, 'p_mac_spd' + k, lambda r, sh: complex(r.uniform(.9, 1.1), 0.0))
                B = 'true' if first else 'false'
                F = t.TRUE if first else t.FALSE
                s.call(o, nm + '_currentInjection', [F], cargs=B)
                r, rn = injection(q)
                X = q.f('p_dtr')
                post_cx(s, 'injected current', r, E / (J * X) * (q.f('p_mva') / q.f('p_sbase')) if on else Cx(0), native=rn)
                V = q.volt('V1')
                dt = s.input('dt', 'double')
                I = (E - V) / (J * X)
                pm, eq = s.old(o, 'p_pmech', '.re'), s.old(o, 'p_eqprime', '.re')
                S = V * I.conj()
                pe = (E * I.conj()).re
                dang, dw = (w - 1) * OMEGA, ((pm - q.f('p_d0') * (w - 1)) / w - pe) / (2 * q.f('p_h'))
                s.call(o, nm, [dt, F], cargs='in_dt, ' + B)
                at = lambda k, lf='': (lambda: s.ex.fld(s.st, o.ref, o.cls, k).l[lf])
                Z = '_s0' if stage == PRED else '_s1'
                post_cx(s, 'rate of the angle', lambda: s.ex.fld(s.st, o.ref, o.cls, 'p_dmac_ang' + Z), Cx(dang), native='o_m->p_dmac_ang' + Z)
                post_cx(s, 'rate of the speed', lambda: s.ex.fld(s.st, o.ref, o.cls, 'p_dmac_spd' + Z), Cx(dw), native='o_m->p_dmac_spd' + Z)
                da0, dw0 = s.old(o, 'p_dmac_ang_s0', '.re'), s.old(o, 'p_dmac_spd_s0', '.re')
                a1, w1 = (ang0 + dang * dt.x, w0 + dw * dt.x) if stage == PRED else (ang0 + (da0 + dang) / 2 * dt.x, w0 + (dw0 + dw) / 2 * dt.x)
                post_cx(s, 'new angle', lambda: s.ex.fld(s.st, o.ref, o.cls, 'p_mac_ang_s1'), Cx(a1), native='o_m->p_mac_ang_s1')
                post_cx(s, 'new speed', lambda: s.ex.fld(s.st, o.ref, o.cls, 'p_mac_spd_s1'), Cx(w1), native='o_m->p_mac_spd_s1')
                a2 = ZERO if s.limited else s.now(o, 'p_mac_ang_s1', '.re')
                if s.limited: a2 = a1
                post_cx(s, 'new internal voltage', lambda: s.ex.fld(s.st, o.ref, o.cls, 'p_eprime_s1'), polar(eq, a2), native='o_m->p_eprime_s1')
                s.post('reported real power', q.now('genP'), S.re if on else ZERO, native='o_m->genP')
                s.post('reported reactive power', q.now('genQ'), S.im if on else ZERO, native='o_m->genQ')
                if stage == PRED:
                    for k, want in (('p_mac_ang_s0', Cx(ang)), ('p_mac_spd_s0', Cx(w)), ('p_eprime_s0', E)):
                        post_cx(s, 'current ' + k, lambda k=k: s.ex.fld(s.st, o.ref, o.cls, k), want, native='o_m->' + k)
                out.append(s)
    return out


def s_off(c):
    """a machine that is out of service injects nothing and rests; a tripped machine offsets its Norton admittance and rests"""
    out = []
    for M in (Rou, Sal):
        for tripped in (False, True):
            for stage in ('predictor', 'corrector'):
                q = Q(c, M, '%s %s' % (stage, 'tripped' if tripped else 'out of service'))
                s, o, m = q.s, q.o, q.m
                s.cuts = None
                q.params()
                s.put(o, 'bStatus', tripped); s.put(o, 'p_tripped', False)
                if M is Rou: s.put(o, 'printFlag', False)
                q.controllers(())
                if tripped:
                    s.call(o, 'tripGenerator', [])
                    s.post('tripped', lambda: s.now(o, 'p_tripped'), t.TRUE, native='o_m->p_tripped')
                V = q.volt('V')
                s.assume(t.lt(t.R(-1), q.f(m.cur('x2w'))), t.lt(t.R(-1), q.f(m.prd('x2w'))))
                for k in ('cur', 'prd'): s.gen(o, getattr(m, k)('x2w'), lambda r, sh: r.uniform(-.1, .1))
                dt = s.input('dt', 'double')
                s.call(o, stage + '_currentInjection', [t.TRUE], cargs='true')
                r, rn = injection(q)
                post_cx(s, 'injected current', r, Cx(*s.cx(o, 'p_Norton_Ya')) * V if tripped else Cx(0), native=rn)
                s.call(o, stage, [dt.x, t.TRUE], cargs='in_dt, true')
                for k in M.st:
                    for z in (m.cur(k), m.prd(k)): s.post('rests: ' + z, q.now(z), t.R(-1) if k == M.w else ZERO, native='o_m->' + z)
                for k in ('genP', 'genQ'): s.post(k, q.now(k), ZERO, native='o_m->' + k)
                out.append(s)
    return out


def s_load(c):
    """parameters come from the data collection"""
    out = []
    for M in (Rou, Sal, Cls):
        q = Q(c, M, 'load')
        s, o = q.s, q.o
        s.cuts = None
        b = Bag(s, required=[key('BUS_NUMBER'), key(GEN + 'ID')], sizes=(1, 2, 3))
        n = s.input('ix', 'int', lambda r, sh: r.randrange(b.size(sh, r)))
        s.assume(t.le(t.I(0), n.x))
        if 'MBase' == M.base: b.gen(key(GEN + 'MBASE'), lambda r, sh: r.choice([0.0, r.uniform(0, 300)]))
        s.call(o, 'load', [b.byval(), n], cargs='data, in_ix')
        K = lambda k, d=0: b.get(key(GEN + k), n.x, default=t.R(d))
        sb = b.get(key('CASE_SBASE'), default=t.R(100))
        pg, qg = K('PG'), K('QG')
        if M is not Cls: pg, qg = pg * sb, qg * sb
        want = {'p_sbase': sb, 'p_pg': pg, 'p_qg': qg, 'p_bus_id': b.val(key('BUS_NUMBER'), ct='int'),
                'p_status': b.get(key(GEN + 'STAT'), n.x, 'int', t.I(0))}
        for k, kk in M.par.items(): want[k] = K(kk, M.defaults.get(k, 0))
        mb = K('MBASE')
        if M is Cls:
            want['p_mva'] = mb
            want['p_dtr'] = t.ite(b.has(key(GEN + 'ZSOURCE'), n.x, 'std::complex<double>'), b.val(key(GEN + 'ZSOURCE'), n.x, 'std::complex<double>', '.im'), ZERO)
        else:
            sg = t.sqrt(pg * pg + qg * qg)
            want['MBase'] = t.ite(t.lt(mb, sg), sg * Fraction(12, 10), mb)
        if M is Rou:
            want['Xqpp'] = want['Xdpp']
            ss = want['S10'] * want['S12']
            want['enableSat'] = t.not_(t.and_(t.lt(ss, t.R(Fraction(1, 10**6))), t.lt(t.R(Fraction(-1, 10**6)), ss)))
            b.gen(key(GEN + 'S1'), lambda r, sh: r.choice([0.0, .1, .3])); b.gen(key(GEN + 'S12'), lambda r, sh: r.choice([0.0, .4, .5]))
        for k, w in want.items(): s.post(k, q.now(k), w, native='o_m->' + k)
        if s.limited is None or not s.limited: s.post('p_ckt', lambda: s.now(o, 'p_ckt'), b.val(key(GEN + 'ID'), n.x, 'std::string'))
        out.append(s)
    return out


def s_sat(c):
    """saturation: none when its data are zero; otherwise a quadratic that passes through S(1) and S(1.2) and is zero below its threshold"""
    out = []
    for M in (Rou, Sal):
        for at in ('1', '12', 'low', 'zero'):
            q = Q(c, M, 'saturation ' + {'1': 'at 1', '12': 'at 1.2', 'low': 'below the threshold', 'zero': 'without data'}[at])
            s, o, f = q.s, q.o, q.f
            s.cuts = None
            if at == 'zero':
                s.put(o, 'S10', 0) if M is Sal else s.put(o, 'enableSat', False)
                x = s.input('x', 'double').x
                r = s.call(o, 'Sat', [x], ret='r', cargs='in_x')
                s.post('no saturation', r.x if r else None, ZERO, native='r')
                out.append(s); continue
            if M is Rou: s.put(o, 'enableSat', True)
            # S12 = k^2 S10 with k > 1: k is the square root of their ratio
            k = s.input('k', 'double', lambda r, sh: r.uniform(1.1, 2.5)).x
            s.assume(t.lt(t.R(Fraction(1, 100)), f('S10')), t.lt(t.R(Fraction(11, 10)), k))
            s.gen(o, 'S10', lambda r, sh: r.uniform(.05, .3))
            s.set(o, 'S12', {'': f('S10') * k * k}); s.native('o_m->S12 = o_m->S10*in_k*in_k;')
            A = (k - Fraction(12, 10)) / (k - 1)
            rt = t.eq(t.sqrt((-2 * k * k + Fraction(24, 10)) * (-2 * k * k + Fraction(24, 10)) - 4 * (k * k - 1) * (k * k - Fraction(144, 100))), k * Fraction(4, 10))
            if at == 'low':
                d = s.input('d', 'double', lambda r, sh: r.uniform(0, 2)).x
                s.assume(t.le(ZERO, d))
                x, xn, w = A - d, '(in_k-1.2)/(in_k-1.0)-in_d', ZERO
            else: x, xn, w = (t.R(1), '1.0', f('S10')) if at == '1' else (t.R(Fraction(12, 10)), '1.2', f('S10') * k * k)
            s.lemmas.append(('the discriminant is (0.4 k)^2', [], t.eq((-2 * k * k + Fraction(24, 10)) * (-2 * k * k + Fraction(24, 10)) - 4 * (k * k - 1) * (k * k - Fraction(144, 100)), k * k * Fraction(16, 100))))
            r = s.call(o, 'Sat', [x], ret='r', cargs=xn)
            s.satroot = r
            s.post('saturation', r.x if r else None, w, native='r', hyps=root_facts(r, k))
            out.append(s)
    return out


def root_facts(r, k):
    """square roots that occur in the result are 0.4 k (their arguments are shown to be its square: Sat only takes the root of the discriminant)"""
    if not r: return []
    n = t.Normalizer()
    h = []
    for x in t.subterms(r.x):
        if x.op == 'app' and x.val == 'sqrt' or x.op == 'sqrt':
            if n.zero(t.sub(x.args[0], k * k * Fraction(16, 100))): h.append(t.eq(x, k * Fraction(4, 10)))
    return h


def s_watch(c):
    """watched values: rotor angle, speed in per unit, power on the requested base; angle and speed can be set and read"""
    out = []
    for M in (Rou, Sal, Cls):
        q = Q(c, M, 'watched values')
        s, o, m = q.s, q.o, q.m
        s.cuts = None
        q.params()
        lv = s.outvar('vals', 'std::vector<double>')
        s.call(o, 'getWatchValues', [lv], cargs='vals')
        sysb = s.old(o, 'p_generatorObservationPowerSystemBase')
        u = t.ite(sysb, q.f(M.base) / q.f('p_sbase'), ONE)
        ang, w = (s.old(o, 'p_mac_ang_s1', '.re'), s.old(o, 'p_mac_spd_s1', '.re')) if M is Cls else (q.f(m.prd('x1d')), q.f(m.prd('x2w')) + 1)
        s.post('number of values', lambda: s.outval(lv, '#n'), t.I(4), native='(int)vals.size()')
        for i, (nm, want) in enumerate((('angle', ang), ('speed', w), ('real power', q.f('genP') * u), ('reactive power', q.f('genQ') * u))):
            s.post(nm, lambda i=i: t.select(s.outval(lv, '[]'), t.I(i)), want, native='vals[%d]' % i)
        out.append(s)
    for what in ('set', 'get'):
        q = Q(c, Rou, '%s a state' % what)
        s, o = q.s, q.o
        s.cuts = None
        nm = s.input('name', 'std::string', lambda r, sh: r.choice(['ANGLE', 'SPEED_DEV', 'x'])).x
        isa, isw = t.eq(nm, t.S('ANGLE')), t.eq(nm, t.S('SPEED_DEV'))
        if what == 'set':
            v = s.input('v', 'double').x
            r = s.call(o, 'setState', [nm, v], ret='r', cargs='in_name, in_v')
            for k, g in (('x1d', isa), ('x1d_1', isa), ('x2w', isw), ('x2w_1', isw), ('x3Eqp', t.FALSE), ('x4Psidp', t.FALSE), ('x5Psiqp', t.FALSE), ('x6Edp', t.FALSE)):
                s.post(k, q.now(k), t.ite(g, v, q.f(k)), native='o_m->' + k)
        else:
            lv = s.outvar('v', 'double')
            r = s.call(o, 'getState', [nm, s.outptr(lv)], ret='r', cargs='in_name, &v')
            s.post('value', lambda: s.outval(lv), t.ite(isa, q.f('x1d'), q.f('x2w')), native='v', hyps=[t.or_(isa, isw)])
        s.post('known state', r.x if r else None, t.or_(isa, isw), native='r')
        out.append(s)
    return out


EQ = (Rou, Sal, Cls)
SCENARIOS = [s_stages, s_classical, s_equilibrium, s_off, s_load, s_sat, s_watch]
