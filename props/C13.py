"""Full-Y network: matrix entries, injections and calls forwarded to machines and loads, for any number of them."""
import os
from fractions import Fraction
from props.common import *
from props.C01 import Elem, sized
from props.fy import FY, INCS, NS

GHOST = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
YM = COMP + 'y_matrix/ymatrix_components.cpp'
DSF = FY + 'dsf_components.cpp'
BASES = ['base_exciter_model', 'base_governor_model', 'base_pss_model', 'base_generator_model', 'base_plant_model', 'base_mechanical_model', 'base_relay_model', 'base_load_model']
REAL_SRC = [DSF, YM] + [FY + 'base_classes/%s.cpp' % b for b in BASES]
INCS = INCS + [GHOST]
SOURCES = REAL_SRC + BASE_SRC + [dict(src=GHOST + '/dsf_ghosts.cpp', keep='/repo/src/|' + GHOST)]
NATIVE = dict(srcs=REAL_SRC + [FY + 'relay_factory.cpp'] + [FY + 'model_classes/%s.cpp' % m for m in ('lvshbl', 'frqtpat', 'distr1')] + [GHOST + '/dsf_ghosts.cpp'] + NAT_BASE, headers=[FY + 'dsf_components.hpp', GHOST + '/dsf_ghosts.hpp'], incs=INCS, libs=['-Wl,--unresolved-symbols=ignore-all'],
              pre='using namespace gridpack::dynamic_simulation;')
ZERO, ONE = t.R(0), t.R(1)
CXN = 'std::complex<double>'


class B:
    """a bus with any number of machines and dynamic loads"""
    def __init__(q, c, name, safety=False):
        q.s = s = c.scen(name, safety=safety)
        q.b = b = s.obj('b', 'DSFullBus')
        q.gens = s.family('G', 'GhostGen', 3)
        q.loads = s.family('L', 'GhostLoad', 3)
        ng = lambda r, sh: sh.setdefault('ng', r.small())
        nl = lambda r, sh: sh.setdefault('nl', r.small())
        s.link_distinct(b, 'p_generators', q.gens, ng, 'BaseGeneratorModel')
        s.link_distinct(b, 'p_loadmodels', q.loads, nl, 'BaseLoadModel')
        vec = lambda f, n=ng: (lambda r, sh: [f(r) for _ in range(n(r, sh))])
        s.gen(b, 'p_ngen', ng); s.gen(b, 'p_ndyn_load', nl)
        s.gen(b, 'p_gstatus', vec(lambda r: r.randrange(2)))
        s.gen(b, 'p_gen_nodynmodel', vec(lambda r: r.random() < .4))
        for f in ('p_pg', 'p_qg', 'p_genpg_nodynmodel', 'p_genqg_nodynmodel'): s.gen(b, f, vec(lambda r: r.rv()))
        for f in ('p_gstatus', 'p_gen_nodynmodel', 'p_pg', 'p_qg', 'p_genpg_nodynmodel', 'p_genqg_nodynmodel', 'p_ngen', 'p_ndyn_load', 'p_generators', 'p_loadmodels'): s.skip_fields.discard(f)
        s.gen(b, 'p_voltage', lambda r, sh: r.uniform(.9, 1.1))
        s.assume(t.ne(s.old(b, 'p_voltage'), ZERO))
        q.ng, q.nl = s.old(b, 'p_ngen'), s.old(b, 'p_ndyn_load')
        s.assume(t.le(t.I(0), q.ng), t.le(t.I(0), q.nl), t.eq(s.old(b, 'p_generators', '#n'), q.ng), t.eq(s.old(b, 'p_loadmodels', '#n'), q.nl))

    def f(q, n, leaf=''): return q.s.old(q.b, n, leaf)
    def now(q, n, leaf=''): return lambda: q.s.now(q.b, n, leaf)
    def g(q, i, n, old=True): return q.s.at('GhostGen', t.select(q.f('p_generators', '[]'), i), n, old=old)
    def l(q, i, n, old=True): return q.s.at('GhostLoad', t.select(q.f('p_loadmodels', '[]'), i), n, old=old)
    def on(q, i): return t.ne(t.select(q.f('p_gstatus', '[]'), i), t.I(0))
    def V2(q): return q.f('p_voltage') * q.f('p_voltage')
    def Y(q): return Cx(q.f('p_ybusr'), q.f('p_ybusi'))

    def mode(q, m):
        try: v = q.s.P.enum(m)
        except Exception as e: q.s.limit(str(e)); v = 0
        q.s.call(q.b, 'setMode', [t.I(v)], cargs=m)
        return q

    def matrix(q, incr=None, cond=None):
        """the entry handed to the matrix; incr=None: no entry where cond is false"""
        s = q.s
        v = s.buf('v', CXN, 1)
        r = s.call(q.b, 'matrixDiagValues', [v], cargs='v', ret='r')
        q.v = v
        return v, r

    def entry(q, v):
        return lambda: Cx(q.s.bufat(v, 0, '.re'), q.s.bufat(v, 0, '.im'))


def load_adm(q): return Cx(q.f('p_pl'), -q.f('p_ql')) / q.V2()


def pg_adm(q):
    """machines that absorb power and machines without a dynamic model are constant admittances"""
    f = lambda n, i: t.select(q.f(n, '[]'), i)
    neg = lambda i: cite(t.and_(q.on(i), t.lt(f('p_pg', i), ZERO)), Cx(-f('p_pg', i), f('p_qg', i)) / q.V2())
    nod = lambda i: cite(t.and_(q.on(i), f('p_gen_nodynmodel', i)), Cx(-f('p_genpg_nodynmodel', i), f('p_genqg_nodynmodel', i)) / q.V2())
    return csum(neg, q.ng) + csum(nod, q.ng)


def gen_adm(q): return csum(lambda i: cite(q.on(i), Cx(q.g(i, 'yr'), q.g(i, 'yi'))), q.ng)
def dyn_adm(q): return csum(lambda i: Cx(q.l(i, 'yr'), q.l(i, 'yi')), q.nl)


def s_diag(c):
    out = []
    for m, inc in (('YL', load_adm), ('PG', pg_adm), ('jxd', gen_adm), ('YDYNLOAD', dyn_adm)):
        q = B(c, 'DSFullBus matrix entry, %s' % m)
        s = q.s
        q.mode(m)
        v, r = q.matrix()
        want = q.Y() + inc(q)
        s.post('entry present', r.x if r else None, t.TRUE, native='r')
        post_cx(s, 'entry = previous entry + admittances of this kind', q.entry(v), want, 'v[0]')
        post_cx(s, 'entry remembered for the next kind', lambda: (s.now(q.b, 'p_ybusr'), s.now(q.b, 'p_ybusi')), want, 'std::complex<double>(o_b->p_ybusr,o_b->p_ybusi)')
        out.append(s)
    return out



def s_ybus(c):
    """the admittance of the branches and shunts is where the sums start"""
    q = B(c, 'DSFullBus matrix entry, YBUS')
    s = q.s
    q.mode('YBUS')
    v, r = q.matrix()
    own = Cx(*[s.ex.fld(State(), q.b.ref, s.cls('YMBus'), n).l[''] for n in ('p_ybusr', 'p_ybusi')])
    iso = s.ex.fld(State(), q.b.ref, s.cls('YMBus'), 'p_isolated').l['']
    s.post('entry unless isolated', r.x if r else None, t.not_(iso), native='r')
    post_cx(s, 'entry = admittance of branches and shunts', q.entry(v), own, 'v[0]', hyps=[t.not_(iso)])
    post_cx(s, 'entry remembered for the next kind', lambda: (s.now(q.b, 'p_ybusr'), s.now(q.b, 'p_ybusi')), own, 'std::complex<double>(o_b->p_ybusr,o_b->p_ybusi)', hyps=[t.not_(iso)])
    return s


def s_fault(c):
    """a fault adds its shunt once and its removal takes the same shunt away"""
    q = B(c, 'DSFullBus fault on and off')
    s = q.s
    g, b = s.input('g', 'double'), s.input('bf', 'double')
    s.call(q.b, 'setFault', [g.x, b.x], cargs='in_g, in_bf')
    q.mode('BUSFAULTON')
    v, r = q.matrix()
    s.post('entry at fault start', r.x if r else None, t.TRUE, native='r')
    want = -Cx(g.x, b.x)
    post_cx(s, 'entry at fault start', q.entry(v), want, 'v[0]')
    q.mode('BUSFAULTOFF')
    w = s.buf('w2', CXN, 1)
    r2 = s.call(q.b, 'matrixDiagValues', [w], cargs='w2', ret='r2')
    s.post('entry at fault end', r2.x if r2 else None, t.TRUE, native='r2')
    post_cx(s, 'entry at fault end undoes the start', q.entry(w), -want, 'w2[0]')
    x = s.buf('x', CXN, 1)
    r3 = s.call(q.b, 'matrixDiagValues', [x], cargs='x', ret='r3')
    s.post('no second removal', r3.x if r3 else None, t.FALSE, native='r3')
    q.mode('BUSFAULTON')
    r4 = s.call(q.b, 'matrixDiagValues', [x], cargs='x', ret='r4')
    s.post('no fault without a new event', r4.x if r4 else None, t.FALSE, native='r4')
    out = [s]
    q = B(c, 'DSFullBus without fault'); s = q.s
    s.put(q.b, 'p_busfault', False)
    for m in ('BUSFAULTON', 'BUSFAULTOFF'):
        q.mode(m)
        w = s.buf('w' + m, CXN, 1)
        r = s.call(q.b, 'matrixDiagValues', [w], cargs='w' + m, ret='r' + m)
        s.post('no entry ' + m, r.x if r else None, t.FALSE, native='r' + m)
    return out + [s]


def s_inject(c):
    """current injected into the network: machines in service, dynamic loads, shed and scattered load"""
    out = []
    q = B(c, 'DSFullBus::vectorValues')
    s = q.s
    q.mode('make_INorton_full')
    v = s.buf('v', CXN, 1)
    V = Cx(q.f('p_volt_full', '.re'), q.f('p_volt_full', '.im'))
    s.assume(t.ne(V.abs2(), ZERO))
    for k in ('p_bconstYLoadSheddingFlag', 'p_bscatterinjload_flag', 'p_bscatterinjload_flag_compensateY', 'p_bscatterinjloadconstcur_flag'): s.gen(q.b, k, lambda r, sh: r.random() < .4)
    r = s.call(q.b, 'vectorValues', [v], cargs='v', ret='r')
    iso = q.f('p_isolated')
    s.post('entry unless isolated', r.x if r else None, t.not_(iso), native='r')
    I = csum(lambda i: cite(q.on(i), Cx(q.g(i, 'ir'), q.g(i, 'ii'))), q.ng) + csum(lambda i: Cx(q.l(i, 'ir'), q.l(i, 'ii')), q.nl)
    Yl = Cx(q.f('p_loadimpedancer'), q.f('p_loadimpedancei'))
    S = Cx(q.f('p_scatterinjload_p'), q.f('p_scatterinjload_q'))
    C = Cx(q.f('p_scatterinjload_constcur_r'), q.f('p_scatterinjload_constcur_i'))
    want = (I + cite(q.f('p_bconstYLoadSheddingFlag'), Yl * V * (1 - q.f('remainConstYLoadPerc')))
            - cite(q.f('p_bscatterinjload_flag'), (S / V).conj())
            + cite(q.f('p_bscatterinjload_flag_compensateY'), Yl * V - (S / V).conj())
            - cite(q.f('p_bscatterinjloadconstcur_flag'), (C / V).conj() * t.sqrt(V.abs2())))
    post_cx(s, 'injection = machines + loads + shed part - scattered load', q.entry(v), want, 'v[0]', hyps=[t.not_(iso)])
    out.append(s)
    q = B(c, 'DSFullBus::setValues'); s = q.s
    q.mode('make_INorton_full')
    v = s.buf('v', CXN, 1)
    re, im = s.input('re', 'double'), s.input('im', 'double')
    if not s.limited:
        s.ex.rawset(s.st, ('M', v.elt.s, 'mem'), (v.l['^b'], t.I(0)), '.re', REAL, re.x); s.ex.rawset(s.st, ('M', v.elt.s, 'mem'), (v.l['^b'], t.I(0)), '.im', REAL, im.x)
    s.native('v[0] = std::complex<double>(in_re, in_im);')
    s.call(q.b, 'setValues', [v], cargs='v')
    post_cx(s, 'voltage of the solution', lambda: (s.now(q.b, 'p_volt_full', '.re'), s.now(q.b, 'p_volt_full', '.im')), Cx(re.x, im.x), 'o_b->p_volt_full')
    post_cx(s, 'previous voltage kept', lambda: (s.now(q.b, 'p_volt_full_old', '.re'), s.now(q.b, 'p_volt_full_old', '.im')), Cx(q.f('p_volt_full', '.re'), q.f('p_volt_full', '.im')), 'o_b->p_volt_full_old')
    out.append(s)
    return out


COUNT = ['n_pci', 'n_cci', 'n_pred', 'n_corr', 'n_init', 'n_volt', 'n_freq']


def each(q, label, what, n, now, want):
    """for every machine (what='G') or load ('L')"""
    f, acc = label, (q.g if what == 'G' else q.l)
    cnt = 'o_b->p_ngen' if what == 'G' else 'o_b->p_ndyn_load'
    ty = 'double' if now in ('dt', 'mag', 'ang', 'ts', 'vr', 'vi', 'fr', 'wide', 'perc', 'pval') else 'int'
    nat = '[&]{ std::vector<%s> z; for (int i=0; i<%s; i++) z.push_back(f_%s[i]->%s); return z; }()' % (ty, cnt, what, now)
    q.s.post_each(label, n, lambda k: acc(k, now, old=False), want, native=nat)


def forwarded(q, what, hit, args):
    """the counter `hit` grows by one for the members concerned and no other counter changes; args: recorded value -> given one"""
    n = q.ng if what == 'G' else q.nl
    acc = q.g if what == 'G' else q.l
    on = q.on if what == 'G' else (lambda i: t.TRUE)
    for k in COUNT + (['n_wide'] if what == 'G' else ['n_post', 'n_change']):
        each(q, '%s %s' % (what, k), what, n, k, lambda i, k=k: t.ite(on(i), acc(i, k) + 1, acc(i, k)) if k == hit else acc(i, k))
    if hit is not None:
        for k, v in args.items():
            each(q, '%s given %s' % (what, k), what, n, k, lambda i, k=k, v=v: t.ite(on(i), v() if callable(v) else v, acc(i, k)))


def s_forward(c):
    """each stage reaches every machine in service and every dynamic load exactly once"""
    out = []
    def mk(meth, hit, cpp, types, rec, loads=True, gens=True, name=None, pre=None):
        q = B(c, 'DSFullBus::%s' % (name or meth)); s = q.s
        if pre: pre(q)
        ins = [s.input('a%d' % i, ty) for i, ty in enumerate(types)]
        s.call(q.b, meth, [i.x for i in ins], cargs=', '.join('in_a%d' % i for i in range(len(ins))))
        a = rec(q, [i.x for i in ins])
        forwarded(q, 'G', hit if gens else None, a)
        forwarded(q, 'L', hit if loads else None, {k: v for k, v in a.items() if k != 'wide'})
        out.append(s)
    fl = lambda q, a: {'flag': a[0]}
    st = lambda q, a: {'dt': a[0], 'flag': a[1]}
    mk('predictor_currentInjection', 'n_pci', None, ['bool'], fl)
    mk('corrector_currentInjection', 'n_cci', None, ['bool'], fl)
    mk('predictor', 'n_pred', None, ['double', 'bool'], st)
    mk('corrector', 'n_corr', None, ['double', 'bool'], st)
    mk('setVolt', 'n_volt', None, ['bool'], lambda q, a: {'vr': q.f('p_volt_full', '.re'), 'vi': q.f('p_volt_full', '.im')})
    mk('initDSVect', 'n_init', None, ['double'], lambda q, a: {'mag': q.f('p_voltage'), 'ang': q.f('p_angle'), 'ts': a[0]})
    mk('setWideAreaFreqforPSS', 'n_wide', None, ['double'], lambda q, a: {'wide': a[0]}, loads=False)
    mk('dynamicload_post_process', 'n_post', None, ['double', 'bool'], st, gens=False)
    return out



def s_freq(c):
    """bus frequency from the rate of change of the voltage angle; passed on to machines and loads per unit of 60 Hz"""
    out = []
    q = B(c, 'DSFullBus::computeBusVolFrequency'); s = q.s
    dt = s.input('dt', 'double', lambda r, sh: r.uniform(.001, .02))
    s.assume(t.lt(ZERO, dt.x))
    at = lambda y, x: t.app('atan2', (y, x), REAL)
    a0, a1 = at(q.f('p_volt_full_old_imag'), q.f('p_volt_full_old_real')), at(q.f('p_volt_full', '.im'), q.f('p_volt_full', '.re'))
    lim = t.PI * Fraction(170, 180)
    d = a1 - a0 + t.ite(t.and_(t.lt(lim, a0), t.lt(a1, ZERO)), 2 * t.PI, t.ite(t.and_(t.lt(a0, -lim), t.lt(ZERO, a1)), -2 * t.PI, ZERO))
    x0 = q.f('pbusvolfreq_old') / 60 - 1
    slip = d / dt.x / (120 * t.PI)
    rate = lambda x: (slip - x) * 10
    k1 = rate(x0); k2 = rate(x0 + k1 * dt.x)
    want = 60 * (1 + x0 + (k1 + k2) / 2 * dt.x)
    s.call(q.b, 'computeBusVolFrequency', [dt.x], cargs='in_dt')
    s.post('filtered slip of the voltage angle', q.now('p_busvolfreq'), want, native='o_b->p_busvolfreq')
    s.post('state of the filter', q.now('pbusvolfreq_old'), want, native='o_b->pbusvolfreq_old')
    r = s.call(q.b, 'getBusVolFrequency', [], ret='fr')
    s.post('reported frequency', r.x if r else None, want, native='fr')
    out.append(s)
    q = B(c, 'DSFullBus::updateFreq'); s = q.s
    dt = s.input('dt', 'double', lambda r, sh: r.uniform(.001, .02))
    s.assume(t.lt(ZERO, dt.x))
    s.gen(q.b, 'bcomputefreq', lambda r, sh: r.random() < .7)
    s.call(q.b, 'updateFreq', [dt.x], cargs='in_dt')
    on = q.f('bcomputefreq')
    for w, n, acc, ok in (('G', q.ng, q.g, q.on), ('L', q.nl, q.l, lambda i: t.TRUE)):
        each(q, w + ' reached once', w, n, 'n_freq', lambda i, acc=acc, ok=ok: acc(i, 'n_freq') + t.ite(t.and_(on, ok(i)), t.I(1), t.I(0)))
        s.post_each(w + ' given the bus frequency', n, lambda k, acc=acc: acc(k, 'fr', old=False), lambda i, acc=acc, ok=ok: t.ite(t.and_(on, ok(i)), s.now(q.b, 'p_busvolfreq') / 60, acc(i, 'fr')) if not s.limited else ZERO)
        for k in COUNT:
            if k != 'n_freq': each(q, '%s %s' % (w, k), w, n, k, lambda i, k=k, acc=acc: acc(i, k))
    out.append(s)
    q = B(c, 'DSFullBus::updateoldbusvoltage'); s = q.s
    s.call(q.b, 'updateoldbusvoltage', [])
    s.post('real part', q.now('p_volt_full_old_real'), q.f('p_volt_full', '.re'), native='o_b->p_volt_full_old_real')
    s.post('imaginary part', q.now('p_volt_full_old_imag'), q.f('p_volt_full', '.im'), native='o_b->p_volt_full_old_imag')
    s.post('frequency', q.now('pbusvolfreq_old'), q.f('p_busvolfreq'), native='o_b->pbusvolfreq_old')
    out.append(s)
    q = B(c, 'DSFullBus::getAngle'); s = q.s
    r = s.call(q.b, 'getAngle', [], ret='r')
    i = t.fresh('i', INT)
    first = [t.le(t.I(0), i), t.lt(i, q.ng), q.on(i), allk(lambda j: t.not_(q.on(j)), i)]
    s.post('angle of the first machine in service', r.x if r else None, q.g(i, 'angle'), hyps=first)
    s.post('no machine in service', r.x if r else None, ZERO, native='r', hyps=[allk(lambda j: t.not_(q.on(j)), q.ng)])
    w = ZERO
    for j in (3, 2, 1, 0): w = t.ite(t.and_(t.lt(t.I(j), q.ng), q.on(t.I(j))), q.g(t.I(j), 'angle'), w)
    s.sampled('angle', w, 'r')
    out.append(s)
    q = B(c, 'DSFullBus::setGeneratorObPowerBaseFlag'); s = q.s
    fl = s.input('fl', 'bool')
    s.call(q.b, 'setGeneratorObPowerBaseFlag', [fl.x], cargs='in_fl')
    each(q, 'flag of machines in service', 'G', q.ng, 'p_generatorObservationPowerSystemBase', lambda i: t.ite(q.on(i), fl.x, q.g(i, 'p_generatorObservationPowerSystemBase')))
    out.append(s)
    return out


def k_clean(ex, st, this, args, e):
    """identifiers are given in their canonical two-character form"""
    ex.notes.add('StringUtils::clean2Char returns a canonical identifier unchanged (assumed)')
    a = args[0]
    return ex.ev(a, st)


CLEAN = {'StringUtils::clean2Char': k_clean}
IDS = ['1 ', '2 ', '3 ', 'BL']


def s_gen(c):
    """a change of a machine's status changes the matrix by that machine's admittance"""
    out = []
    q = B(c, 'DSFullBus::setGenStatus'); s = q.s
    s.ex.contracts.update(CLEAN)
    ng = lambda r, sh: sh.setdefault('ng', r.small())
    def ids(r, sh):
        z = list(IDS); r.shuffle(z); return z[:ng(r, sh)]
    s.gen(q.b, 'p_genid', ids)
    s.gen('G', 'bStatus', lambda r, sh: bool(sh['all'][q.b.ref.val]['p_gstatus'][sh['idx']]) if sh['idx'] < len(sh['all'][q.b.ref.val]['p_gstatus']) else True)
    s.extra_fields.add(('G', 'bStatus'))
    gid = s.input('gid', 'std::string', lambda r, sh: r.choice(IDS))
    new = s.input('st', 'int', lambda r, sh: r.randrange(2))
    s.assume(t.le(t.I(0), new.x), t.le(new.x, t.I(1)))
    s.put(q.b, 'p_gen_status_change', False)
    inv = lambda i, old: t.eq(t.ne(t.select(q.f('p_gstatus', '[]') if old else s.now(q.b, 'p_gstatus', '[]'), i), t.I(0)), q.g(i, 'bStatus', old=old))
    s.assume(allk(lambda i: inv(i, True), q.ng))
    s.assume(allk(lambda i: t.and_(t.le(t.I(0), t.select(q.f('p_gstatus', '[]'), i)), t.le(t.select(q.f('p_gstatus', '[]'), i), t.I(1))), q.ng))
    i = t.fresh('i', INT)
    tag = lambda j: t.select(q.f('p_genid', '[]'), j)
    first = [t.le(t.I(0), i), t.lt(i, q.ng), t.eq(tag(i), gid.x), allk(lambda j: t.ne(tag(j), gid.x), i)]
    none = [allk(lambda j: t.ne(tag(j), gid.x), q.ng)]
    s.call(q.b, 'setGenStatus', [gid, new.x], cargs='in_gid, in_st')
    g0 = lambda j: t.select(q.f('p_gstatus', '[]'), j)
    s.post_each('statuses of the bus', q.ng, lambda k: t.select(s.now(q.b, 'p_gstatus', '[]'), k), lambda k: t.ite(t.eq(k, i), new.x, g0(k)), hyps=first)
    s.post_each('statuses of the machines', q.ng, lambda k: q.g(k, 'bStatus', old=False), lambda k: t.ite(t.eq(k, i), t.ne(new.x, t.I(0)), q.g(k, 'bStatus')), hyps=first)
    q.mode('GENSTATUSCHANGE')
    v, r = q.matrix()
    ch = t.ne(t.ne(new.x, t.I(0)), q.on(i))
    s.post('entry if the status changes', r.x if r else None, ch, hyps=first)
    post_cx(s, 'entry = admittance of the machine', q.entry(v), cite(t.ne(new.x, t.I(0)), Cx(q.g(i, 'yr'), q.g(i, 'yi')), -Cx(q.g(i, 'yr'), q.g(i, 'yi'))), hyps=first + [ch])
    s.post('no entry for an unknown machine', r.x if r else None, t.FALSE, native='r', hyps=none)
    s.post_each('nothing switched', q.ng, lambda k: t.select(s.now(q.b, 'p_gstatus', '[]'), k), g0, native='o_b->p_gstatus', hyps=none)
    w = s.buf('w', CXN, 1)
    r2 = s.call(q.b, 'matrixDiagValues', [w], cargs='w', ret='r2')
    s.post('a change is applied once', r2.x if r2 else None, t.FALSE, native='r2')
    hit, dy, dz = t.FALSE, ZERO, ZERO
    for j in (3, 2, 1, 0):
        J = t.I(j)
        m = t.and_(t.lt(J, q.ng), t.eq(tag(J), gid.x))
        cj = t.ne(t.ne(new.x, t.I(0)), q.on(J)); sg = t.ite(t.ne(new.x, t.I(0)), ONE, -ONE)
        hit = t.ite(m, cj, hit); dy = t.ite(m, t.ite(cj, sg * q.g(J, 'yr'), ZERO), dy); dz = t.ite(m, t.ite(cj, sg * q.g(J, 'yi'), ZERO), dz)
    s.sampled('entry', hit, 'r'); s.sampled('entry.re', dy, '(r ? v[0].real() : 0.0)'); s.sampled('entry.im', dz, '(r ? v[0].imag() : 0.0)')
    out.append(s)
    q = B(c, 'DSFullBus::getGenStatus'); s = q.s
    s.gen(q.b, 'p_genid', ids)
    gid = s.input('gid', 'std::string', lambda r, sh: r.choice(IDS))
    r = s.call(q.b, 'getGenStatus', [gid], cargs='in_gid', ret='r')
    r2 = s.call(q.b, 'getGenNum', [gid], cargs='in_gid', ret='r2')
    i = t.fresh('i', INT)
    tag2 = lambda j: t.select(s.old(q.b, 'p_genid', '[]'), j)
    first = [t.le(t.I(0), i), t.lt(i, q.ng), t.eq(tag2(i), gid.x), allk(lambda j: t.ne(tag2(j), gid.x), i)]
    none = [allk(lambda j: t.ne(tag2(j), gid.x), q.ng)]
    s.post('status', r.x if r else None, t.select(q.f('p_gstatus', '[]'), i), hyps=first)
    s.post('place', r2.x if r2 else None, i, hyps=first)
    s.post('unknown machine', r.x if r else None, t.I(0), native='r', hyps=none)
    s.post('unknown machine has no place', r2.x if r2 else None, t.I(-1), native='r2', hyps=none)
    w1, w2 = t.I(0), t.I(-1)
    for j in (3, 2, 1, 0):
        m = t.and_(t.lt(t.I(j), q.ng), t.eq(tag2(t.I(j)), gid.x))
        w1 = t.ite(m, t.select(q.f('p_gstatus', '[]'), t.I(j)), w1); w2 = t.ite(m, t.I(j), w2)
    s.sampled('status', w1, 'r'); s.sampled('place', w2, 'r2')
    out.append(s)
    return out


def s_load(c):
    """changes of the constant-admittance load"""
    out = []
    for P, Q in ((True, False), (False, True)):
        L = 'P' if P else 'Q'
        flag, m = 'p_Yload_change_%s_flag' % L, 'bus_Yload_change_' + L
        part = lambda z: Cx(z.re, 0) if P else Cx(0, z.im)
        for how in ('change', 'zero', 'again', 'clear', 'none'):
            q = B(c, 'DSFullBus load change %s, %s' % (L, how)); s = q.s
            s.assume(t.lt(ZERO, q.f('p_sbase'))); s.gen(q.b, 'p_sbase', lambda r, sh: r.choice([100.0, 50.0, 1000.0]))
            if how in ('change', 'clear'):
                x = s.input('x', 'double')
                s.call(q.b, 'applyConstYLoad_Change_' + L, [x.x], cargs='in_x')
                want = part(Cx(x.x, -x.x) / q.f('p_sbase') / q.V2())
            if how == 'clear': s.call(q.b, 'clearConstYLoad_Change_' + L, [])
            if how == 'none': s.put(q.b, flag, False)
            if how in ('zero', 'again'):
                s.put(q.b, 'p_bConstYLoadSettoZero_' + L, how == 'again')
                r0 = s.call(q.b, 'setConstYLoadtoZero_' + L, [], ret='r0')
                s.post('a load is removed once', r0.x if r0 else None, t.B(how == 'zero'), native='r0')
                want = part(-load_adm(q))
            q.mode(m)
            v, r = q.matrix()
            has = how in ('change', 'zero')
            s.post('entry', r.x if r else None, t.B(has), native='r')
            if has: post_cx(s, 'entry = change of the load admittance', q.entry(v), want, 'v[0]')
            out.append(s)
    q = B(c, 'DSFullBus::setConstYLoadtoValue'); s = q.s
    s.put(q.b, 'p_bConstYLoadSettoValue', False)
    zr, zi = s.input('zr', 'double'), s.input('zi', 'double')
    s.assume(t.ne(zr.x * zr.x + zi.x * zi.x, ZERO))
    r0 = s.call(q.b, 'setConstYLoadtoValue', [zr.x, zi.x], cargs='in_zr, in_zi', ret='r0')
    s.post('accepted', r0.x if r0 else None, t.TRUE, native='r0')
    q.mode('bus_Yload_change_P'); v, r = q.matrix()
    q.mode('bus_Yload_change_Q'); w = s.buf('w', CXN, 1)
    r2 = s.call(q.b, 'matrixDiagValues', [w], cargs='w', ret='r2')
    want = Cx(1) / Cx(zr.x, zi.x) - load_adm(q)
    s.post('entry P', r.x if r else None, t.TRUE, native='r'); s.post('entry Q', r2.x if r2 else None, t.TRUE, native='r2')
    post_cx(s, 'the load becomes the given impedance', lambda: q.entry(v)() + q.entry(w)(), want, 'v[0] + w[0]')
    r3 = s.call(q.b, 'setConstYLoadtoValue', [zr.x, zi.x], cargs='in_zr, in_zi', ret='r3')
    s.post('only once', r3.x if r3 else None, t.FALSE, native='r3')
    out.append(s)
    q = B(c, 'DSFullBus::applyConstYLoadShedding'); s = q.s
    x = s.input('x', 'double', lambda r, sh: r.uniform(-1.2, .2))
    s.call(q.b, 'applyConstYLoadShedding', [x.x], cargs='in_x')
    y = q.f('remainConstYLoadPerc') + x.x
    s.post('remaining fraction, never negative', q.now('remainConstYLoadPerc'), t.ite(t.le(y, ZERO), ZERO, y), native='o_b->remainConstYLoadPerc')
    s.post('shedding active', q.now('p_bconstYLoadSheddingFlag'), t.TRUE, native='o_b->p_bconstYLoadSheddingFlag')
    out.append(s)
    for meth, flag, a, b in (('scatterInjectionLoad', 'p_bscatterinjload_flag', 'p_scatterinjload_p', 'p_scatterinjload_q'),
                             ('scatterInjectionLoad_compensateY', 'p_bscatterinjload_flag_compensateY', 'p_scatterinjload_p', 'p_scatterinjload_q'),
                             ('scatterInjectionLoadConstCurrent', 'p_bscatterinjloadconstcur_flag', 'p_scatterinjload_constcur_r', 'p_scatterinjload_constcur_i')):
        q = B(c, 'DSFullBus::' + meth); s = q.s
        x, y = s.input('x', 'double'), s.input('y', 'double')
        s.call(q.b, meth, [x.x, y.x], cargs='in_x, in_y')
        s.post('active', q.now(flag), t.TRUE, native='o_b->' + flag)
        s.post('first', q.now(a), x.x, native='o_b->' + a); s.post('second', q.now(b), y.x, native='o_b->' + b)
        out.append(s)
    q = B(c, 'DSFullBus load of the contingency interface'); s = q.s
    x, y = s.input('x', 'double'), s.input('y', 'double')
    s.call(q.b, 'setLoad', [x.x, y.x], cargs='in_x, in_y')
    s.call(q.b, 'addLoadAdmittance', [])
    post_cx(s, 'admittance added', lambda: (s.now(q.b, 'p_ybusr'), s.now(q.b, 'p_ybusi')), q.Y() + Cx(x.x, -y.x) / q.V2(), 'std::complex<double>(o_b->p_ybusr,o_b->p_ybusi)')
    out.append(s)
    return out



DBR, YBR = NS + 'DSFullBranch', 'gridpack::ymatrix::YMBranch'
BVEC = ['p_reactance', 'p_resistance', 'p_tap_ratio', 'p_phase_shift', 'p_charging', 'p_shunt_admt_g1', 'p_shunt_admt_b1', 'p_shunt_admt_g2', 'p_shunt_admt_b2',
        'p_xform', 'p_shunt', 'p_branch_status', 'p_switched']


def facc(s, ref, cls, old=True):
    """vectors of a branch as declared by class cls (both YMBranch and DSFullBranch hold the element data)"""
    def g(n):
        if n == 'p_tag' and cls == DBR: n = 'p_ckt'
        if cls == DBR and n == 'p_branch_status':
            a = s.ex.fld(State() if old else s.st, ref, DBR, n).l['[]']
            k = t.fresh('k', INT)
            return t.lam(k, t.ne(t.select(a, k), t.I(0)))
        return s.ex.fld(State() if old else s.st, ref, cls, n).l['[]']
    return g


def line(s, name='br', both=True):
    """a branch between two buses; its element data are the same in both classes it is declared in (s_branch_load)"""
    br = s.obj(name, 'DSFullBranch')
    b1, b2 = s.obj('b1', 'DSFullBus'), s.obj('b2', 'DSFullBus')
    s.link(br, 'p_bus1', b1); s.link(br, 'p_bus2', b2)
    s.native('o_%s->setBus1(o_b1); o_%s->setBus2(o_b2);' % (name, name))
    linegen(s, name)
    n = s.ex.fld(State(), br.ref, DBR, 'p_elems').l['']
    s.assume(t.le(t.I(0), n), t.eq(n, s.ex.fld(State(), br.ref, YBR, 'p_elems').l[''])); sized(s, br, n)
    return br, b1, b2, n


def linegen(s, name):
    nel = lambda r, sh: sh.setdefault('nel', r.choice([0, 1, 2, 2, 3]))
    def vec(f):
        def g(r, sh):
            k = sh.setdefault('vals_%s' % f.nm, [f(r) for _ in range(nel(r, sh))])
            return list(k)
        return g
    for v in BVEC:
        f = lambda r: r.rv()
        if v in ('p_xform', 'p_shunt', 'p_switched'): f = lambda r: r.random() < .6
        if v == 'p_branch_status': f = lambda r: int(r.random() < .6)
        if v in ('p_tap_ratio', 'p_reactance'): f = lambda r: r.choice([-1, 1, 1]) * r.pos()
        f.nm = v
        s.gen(name, v, vec(f))
    def tags(r, sh):
        if 'tags' not in sh:
            z = list(IDS); r.shuffle(z); sh['tags'] = z[:nel(r, sh)]
        return list(sh['tags'])
    s.gen(name, 'p_tag', tags); s.gen(name, 'p_ckt', tags); s.gen(name, 'p_elems', nel)


def s_line(c):
    """a change of a line's status changes the four matrix entries by the pi-model of that element, once"""
    out = []
    for part in ('b1', 'b2', 'forward', 'reverse', 'statuses'):
        s = c.scen('DSFullBranch::setLineStatus, ' + part)
        s.ex.contracts.update(CLEAN)
        br, b1, b2, n = line(s)
        g = facc(s, br.ref, YBR); gd = facc(s, br.ref, DBR)
        for o in (b1, b2, br): s.put(o, 'p_line_status_change', False)
        tag = s.input('tag', 'std::string', lambda r, sh: r.choice(IDS))
        new = s.input('st', 'int', lambda r, sh: r.randrange(2))
        s.assume(t.le(t.I(0), new.x), t.le(new.x, t.I(1)))
        s.assume(allk(lambda i: Elem(g, i).ok(), n))
        on1 = t.ne(new.x, t.I(0))
        i = t.fresh('i', INT)
        first = [t.le(t.I(0), i), t.lt(i, n), t.eq(t.select(g('p_tag'), i), tag.x), allk(lambda j: t.ne(t.select(g('p_tag'), j), tag.x), i)]
        none = [allk(lambda j: t.ne(t.select(g('p_tag'), j), tag.x), n)]
        for v in BVEC + ['p_tag', 'p_elems']: s.extra_fields.add(('br', v))
        s.call(br, 'setLineStatus', [tag, new.x], cargs='in_tag, in_st')
        e = Elem(g, i)
        ch = t.ne(e.on, on1)
        sg = lambda z: cite(on1, z, -z)
        if part == 'statuses':
            s.assume(allk(lambda k: t.eq(t.select(g('p_tag'), k), t.select(gd('p_ckt'), k)), n))
            s.assume(allk(lambda k: t.eq(t.select(g('p_branch_status'), k), t.select(gd('p_branch_status'), k)), n))
            s.assume(allk(lambda k: t.and_(t.le(t.I(0), t.select(s.ex.fld(State(), br.ref, DBR, 'p_branch_status').l['[]'], k)), t.le(t.select(s.ex.fld(State(), br.ref, DBR, 'p_branch_status').l['[]'], k), t.I(1))), n))
            for cl, nm in ((YBR, 'network'), (DBR, 'events')):
                g1 = facc(s, br.ref, cl, False)
                s.post_each('status of the element, ' + nm, n, lambda k, g1=g1: t.select(g1('p_branch_status'), k), lambda k: t.ite(t.eq(k, i), on1, Elem(g, k).on), hyps=first)
                s.post_each('statuses, ' + nm, n, lambda k, g1=g1: t.select(g1('p_branch_status'), k), lambda k: Elem(g, k).on, hyps=none)
                for j in range(3):
                    w = t.ite(t.eq(t.select(g('p_tag'), t.I(j)), tag.x), on1, Elem(g, t.I(j)).on)
                    s.sampled('status %d %s' % (j, nm), w, '(%d < o_br->p_elems ? (bool)o_br->%sp_branch_status[%d] : false)' % (j, cl + '::', j), hyps=[t.lt(t.I(j), n)])
            out.append(s); continue
        end = lambda e, first_: cite(t.and_(e.xform, t.not_(e.sw) if first_ else e.sw), e.near(), e.far())
        want = {'b1': lambda e: end(e, True), 'b2': lambda e: end(e, False), 'forward': lambda e: e.y12(), 'reverse': lambda e: e.y21()}[part]
        try: m = s.P.enum('LINESTATUSCHANGE')
        except Exception as x: s.limit(str(x)); m = 0
        o = {'b1': b1, 'b2': b2}.get(part, br)
        s.call(o, 'setMode', [t.I(m)], cargs='LINESTATUSCHANGE')
        fn = {'forward': 'matrixForwardValues', 'reverse': 'matrixReverseValues'}.get(part, 'matrixDiagValues')
        v = s.buf('v', CXN, 1)
        r = s.call(o, fn, [v], cargs='v', ret='r')
        s.post('entry if the status changes', r.x if r else None, ch, hyps=first)
        post_cx(s, 'entry = pi-model of the element', lambda: Cx(s.bufat(v, 0, '.re'), s.bufat(v, 0, '.im')), sg(want(e)), hyps=first + [ch])
        post_cx(s, 'an entry for an unknown element is zero', lambda: Cx(t.ite(r.x, s.bufat(v, 0, '.re'), t.R(0)), t.ite(r.x, s.bufat(v, 0, '.im'), t.R(0))), Cx(0), hyps=none)
        hit, w = t.FALSE, Cx(0)
        known = t.or_(*[t.and_(t.lt(t.I(j), n), t.eq(t.select(g('p_tag'), t.I(j)), tag.x)) for j in range(4)])
        for j in (3, 2, 1, 0):
            ej = Elem(g, t.I(j)); mj = t.and_(t.lt(t.I(j), n), t.eq(t.select(g('p_tag'), t.I(j)), tag.x)); cj = t.ne(ej.on, on1)
            hit = t.ite(mj, cj, hit); w = cite(mj, cite(cj, sg(want(ej))), w)
        s.sampled('entry', hit, 'r', hyps=[known]); s.sampled('entry.re', w.re, '(r ? v[0].real() : 0.0)'); s.sampled('entry.im', w.im, '(r ? v[0].imag() : 0.0)')
        if part != 'forward':
            w = s.buf('w', CXN, 1)
            r2 = s.call(o, fn, [w], cargs='w', ret='r2')
            s.post('a change is applied once', r2.x if r2 else None, t.FALSE, native='r2')
        out.append(s)
    return out


def trip_mode(s, o):
    try: m = s.P.enum('branch_trip_action')
    except Exception as x: s.limit(str(x)); m = 0
    s.call(o, 'setMode', [t.I(m)], cargs='branch_trip_action')


TRIPFN = {'forward': 'matrixForwardValues', 'reverse': 'matrixReverseValues'}


def s_trip(c):
    """tripping an element takes its pi-model out of the four matrix entries, once, and leaves it out of service"""
    out = []
    for part in ('b1', 'b2', 'forward', 'reverse', 'statuses', 'all lines'):
        s = c.scen('DSFullBranch::setBranchTripAction, ' + part)
        br, b1, b2, n = line(s)
        g = facc(s, br.ref, YBR); gd = facc(s, br.ref, DBR)
        s.put(br, 'p_branchactiontripflag', False); s.put(br, 'p_vec_tripaction_branchcktidx', [])
        for b in (b1, b2):
            s.put(b, 'p_branchtripaction_from_flag', False); s.put(b, 'p_branchtripaction_to_flag', False); s.put(b, 'p_vec_tripactionbranch', [])
        ix1 = lambda r, sh: sh.setdefault('ix1', r.randrange(1, 4))
        ix2 = lambda r, sh: sh.setdefault('ix2', ix1(r, sh) + r.randrange(1, 4))
        for o, f, z in ((b1, 'p_originalIndex', ix1), (b2, 'p_originalIndex', ix2), (br, 'p_originalBus1Index', ix1), (br, 'p_originalBus2Index', ix2)): s.gen(o, f, z)
        s.assume(t.eq(s.old(b1, 'p_originalIndex'), s.old(br, 'p_originalBus1Index')), t.eq(s.old(b2, 'p_originalIndex'), s.old(br, 'p_originalBus2Index')))
        s.assume(t.ne(s.old(b1, 'p_originalIndex'), s.old(b2, 'p_originalIndex')))
        s.assume(allk(lambda i: Elem(gd, i).ok(), n))
        for v in BVEC + ['p_tag', 'p_elems', 'p_ckt']: s.extra_fields.add(('br', v))
        raw = lambda k: t.select(s.ex.fld(State(), br.ref, DBR, 'p_branch_status').l['[]'], k)
        s.assume(allk(lambda k: t.and_(t.le(t.I(0), raw(k)), t.le(raw(k), t.I(1))), n))
        i = t.fresh('i', INT)
        if part == 'all lines':
            r0 = s.call(br, 'setBranchTripAction', [], nparams=0, cargs='', ret='r0')
            hit = lambda j: t.and_(t.not_(t.select(gd('p_xform'), j)), t.eq(raw(j), t.I(1)))
        else:
            tag = s.input('tag', 'std::string', lambda r, sh: r.choice(IDS))
            r0 = s.call(br, 'setBranchTripAction', [tag], nparams=1, cargs='in_tag', ret='r0')
            hit = lambda j: t.and_(t.eq(t.select(gd('p_ckt'), j), tag.x), t.eq(raw(j), t.I(1)))
        e = Elem(gd, i)
        first = [t.le(t.I(0), i), t.lt(i, n), hit(i), allk(lambda j: t.not_(hit(j)), i)]
        none = [allk(lambda j: t.not_(hit(j)), n)]
        some = t.or_(*[t.and_(t.lt(t.I(j), n), hit(t.I(j))) for j in range(4)])
        s.post('tripped', r0.x if r0 else None, t.TRUE, hyps=first)
        s.post('nothing to trip', r0.x if r0 else None, t.FALSE, native='r0', hyps=none)
        s.sampled('found', some, 'r0')
        if part in ('statuses', 'all lines'):
            s.call(br, 'clearBranchTripAction', [], cargs='')
            for cl, nm in ((YBR, 'network'), (DBR, 'events')):
                g1 = facc(s, br.ref, cl, False); gg = facc(s, br.ref, cl)
                # elements have distinct identifiers, the same in both classes
                idq = [] if cl == DBR else [allk(lambda k: t.eq(t.eq(t.select(g('p_tag'), k), t.select(gd('p_ckt'), i)), t.eq(k, i)), n)]
                s.post_each('out of service, ' + nm, n, lambda k, g1=g1: t.select(g1('p_branch_status'), k), lambda k, gg=gg: t.and_(t.ne(k, i), Elem(gg, k).on), hyps=first + idq)
                s.post_each('statuses, ' + nm, n, lambda k, g1=g1: t.select(g1('p_branch_status'), k), lambda k, gg=gg: Elem(gg, k).on, hyps=none)
                before = t.FALSE
                for j in range(3):
                    J = t.I(j)
                    w = t.and_(Elem(gg, J).on, t.not_(t.and_(hit(J), t.not_(before))))
                    before = t.or_(before, hit(J))
                    s.sampled('status %d %s' % (j, nm), w, '(%d < o_br->p_elems ? (bool)o_br->%sp_branch_status[%d] : false)' % (j, cl + '::', j), hyps=[t.lt(J, n)])
            for o, fn in ((b1, 'matrixDiagValues'), (b2, 'matrixDiagValues'), (br, 'matrixForwardValues'), (br, 'matrixReverseValues')):
                v = s.buf('w_%s_%s' % (o.name, fn[:8]), CXN, 1)
                trip_mode(s, o)
                r = s.call(o, fn, [v], cargs='w_%s_%s' % (o.name, fn[:8]), ret='r_%s_%s' % (o.name, fn[:8]))
                s.post('a trip is applied once, %s %s' % (o.name, fn), r.x if r else None, t.FALSE, native='r_%s_%s' % (o.name, fn[:8]))
            out.append(s); continue
        end = lambda e, first_: cite(t.and_(e.xform, t.not_(e.sw) if first_ else e.sw), e.near(), e.far())
        want = {'b1': lambda e: end(e, True), 'b2': lambda e: end(e, False), 'forward': lambda e: e.y12(), 'reverse': lambda e: e.y21()}[part]
        o = {'b1': b1, 'b2': b2}.get(part, br)
        trip_mode(s, o)
        v = s.buf('v', CXN, 1)
        r = s.call(o, TRIPFN.get(part, 'matrixDiagValues'), [v], cargs='v', ret='r')
        s.post('entry if an element is tripped', r.x if r else None, t.TRUE, hyps=first)
        post_cx(s, 'entry takes the pi-model out', lambda: Cx(s.bufat(v, 0, '.re'), s.bufat(v, 0, '.im')), -want(e), hyps=first)
        s.post('no entry when nothing is tripped', r.x if r else None, t.FALSE, native='r', hyps=none)
        w = Cx(0)
        for j in (3, 2, 1, 0): w = cite(t.and_(t.lt(t.I(j), n), hit(t.I(j))), -want(Elem(gd, t.I(j))), w)
        s.sampled('entry', some, 'r'); s.sampled('entry.re', w.re, '(r ? v[0].real() : 0.0)'); s.sampled('entry.im', w.im, '(r ? v[0].imag() : 0.0)')
        out.append(s)
    return out


def s_trips(c):
    """several elements of a branch, and several branches of a bus, tripped in one action"""
    out = []
    ixs = lambda r, sh: [r.randrange(sh['nel']) for _ in range(r.choice([1, 1, 2, 3]))] if sh.get('nel') else []
    TV = ['p_reactance', 'p_resistance', 'p_tap_ratio', 'p_phase_shift', 'p_charging', 'p_xform', 'p_switched', 'p_branch_status']
    for part in ('forward', 'reverse'):
        s = c.scen('DSFullBranch, trip of several elements, ' + part)
        br, b1, b2, n = line(s)
        gd = facc(s, br.ref, DBR)
        s.gen('br', 'p_vec_tripaction_branchcktidx', ixs)
        s.put(br, 'p_branchactiontripflag', True)
        m = s.old(br, 'p_vec_tripaction_branchcktidx', '#n')
        ix = lambda j: t.select(s.old(br, 'p_vec_tripaction_branchcktidx', '[]'), j)
        s.assume(t.le(t.I(0), m), allk(lambda j: t.and_(t.le(t.I(0), ix(j)), t.lt(ix(j), n), Elem(gd, ix(j)).ok()), m))
        trip_mode(s, br)
        v = s.buf('v', CXN, 1)
        r = s.call(br, TRIPFN[part], [v], cargs='v', ret='r')
        want = {'forward': lambda e: e.y12(), 'reverse': lambda e: e.y21()}[part]
        s.post('entry', r.x if r else None, t.TRUE, native='r')
        post_cx(s, 'entry takes every tripped element out', lambda: Cx(s.bufat(v, 0, '.re'), s.bufat(v, 0, '.im')), csum(lambda j: cite(Elem(gd, ix(j)).on, -want(Elem(gd, ix(j)))), m), native='v[0]')
        out.append(s)
    s = c.scen('DSFullBus, trip of several branches')
    b, b2 = s.obj('b', 'DSFullBus'), s.obj('b2', 'DSFullBus')
    br = s.family('br', 'DSFullBranch', 3)
    linegen(s, 'br')
    s.gen('br', 'p_vec_tripaction_branchcktidx', ixs)
    s.gen('br', 'p_elems', lambda r, sh: sh.setdefault('nel', r.choice([1, 2, 3])))
    s.link_distinct(b, 'p_vec_tripactionbranch', br, lambda r, sh: r.choice([0, 1, 2, 3]), 'BaseBranchComponent')
    s.link_choice(br, 'p_bus1', [b, b2]); s.link_choice(br, 'p_bus2', [b, b2])
    s.put(b, 'p_branchtripaction_from_flag', True)
    nb = s.old(b, 'p_vec_tripactionbranch', '#n')
    s.assume(t.le(t.I(0), nb), t.ne(s.old(b, 'p_originalIndex'), s.old(b2, 'p_originalIndex')))
    s.gen(b, 'p_originalIndex', lambda r, sh: 7); s.gen(b2, 'p_originalIndex', lambda r, sh: 9)
    ref = lambda i: t.select(s.old(b, 'p_vec_tripactionbranch', '[]'), i)
    ixn = lambda i: s.at('DSFullBranch', ref(i), 'p_vec_tripaction_branchcktidx', '#n')
    ixa = lambda i, j: t.select(s.at('DSFullBranch', ref(i), 'p_vec_tripaction_branchcktidx', '[]'), j)
    acc = lambda i: facc(s, ref(i), DBR)
    i, j = t.fresh('i', INT), t.fresh('j', INT)
    s.assume(t.forall((i,), t.implies(t.and_(t.le(t.I(0), i), t.lt(i, nb)), t.and_(t.le(t.I(0), ixn(i)), t.or_(t.eq(s.at('DSFullBranch', ref(i), 'p_bus1'), b.ref), t.eq(s.at('DSFullBranch', ref(i), 'p_bus1'), b2.ref)),
             t.or_(t.eq(s.at('DSFullBranch', ref(i), 'p_bus2'), b.ref), t.eq(s.at('DSFullBranch', ref(i), 'p_bus2'), b2.ref)), t.ne(s.at('DSFullBranch', ref(i), 'p_bus1'), s.at('DSFullBranch', ref(i), 'p_bus2'))))))
    s.assume(t.forall((i, j), t.implies(t.and_(t.le(t.I(0), i), t.lt(i, nb), t.le(t.I(0), j), t.lt(j, ixn(i))), Elem(acc(i), ixa(i, j)).ok())))
    trip_mode(s, b)
    v = s.buf('v', CXN, 1)
    r = s.call(b, 'matrixDiagValues', [v], cargs='v', ret='r')
    s.post('entry', r.x if r else None, t.lt(t.I(0), nb), native='r')

    def term(i, j):
        e = Elem(acc(i), ixa(i, j))
        own = t.eq(s.at('DSFullBranch', ref(i), 'p_bus1'), b.ref)
        return cite(e.on, -cite(t.and_(e.xform, t.ne(e.sw, own)), e.near(), e.far()))
    post_cx(s, 'entry takes every tripped element of every branch out', lambda: Cx(s.bufat(v, 0, '.re'), s.bufat(v, 0, '.im')), csum(lambda i: csum(lambda j: term(i, j), ixn(i)), nb), native='v[0]', hyps=[t.lt(t.I(0), nb)])
    out.append(s)
    return out


def s_branch_load(c):
    """both places that hold the elements of a branch are filled with the same data"""
    from props.C01 import branch_bag, BRKEYS
    from props.bag import key
    s = c.scen('DSFullBranch::load')
    br = s.obj('br', 'DSFullBranch')
    b = branch_bag(s)
    for k in ('RELAY_NUMBER', 'NEW_BRANCH_TYPE'): b.never.add(key(k))
    s.call(br, 'load', [b.arg()], cargs=b.name)
    for cl, nm in ((YBR, 'network'), (DBR, 'events')):
        fld = lambda f, leaf='', cl=cl: s.ex.fld(s.st, br.ref, cl, f).l[leaf]
        s.post('number of elements, ' + nm, lambda cl=cl: s.ex.fld(s.st, br.ref, cl, 'p_elems').l[''], b.n, 'o_br->%s::p_elems' % cl)

        def vec(f, want, cl=cl, nm=nm):
            s.post('size of %s, %s' % (f, nm), lambda: s.ex.fld(s.st, br.ref, cl, f).l['#n'], b.n, '(int)o_br->%s::%s.size()' % (cl, f))
            s.post_each('%s, %s' % (f, nm), b.n, lambda k: t.select(facc(s, br.ref, cl, False)('p_tag' if f == 'p_ckt' else f), k), want, 'o_br->%s::%s' % (cl, f))
        for f, k in BRKEYS.items(): vec(f, lambda i, k=k: b.val(key(k), i))
        vec('p_tap_ratio', b.tap); vec('p_phase_shift', b.shift)
        vec('p_xform', lambda i: t.ne(b.tap(i), t.R(0))); vec('p_shunt', lambda i: t.TRUE)
        vec('p_branch_status', b.on); vec('p_switched', b.sw)
        vec('p_tag' if cl == YBR else 'p_ckt', lambda i: b.val(key('BRANCH_CKT'), i, 'std::string'))
    return s


SCENARIOS = [s_diag, s_ybus, s_fault, s_inject, s_forward, s_freq, s_gen, s_load, s_line, s_trip, s_trips, s_branch_load]
