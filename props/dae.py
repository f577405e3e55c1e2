"""Machine, exciter and governor models of the differential-algebraic simulation: what a bus holds, how it calls them."""
from fractions import Fraction
from props.common import *

DAE = 'applications/modules/dynamic_simulation_dae/'
INCS = [DAE, DAE + 'base_classes', DAE + 'model_classes']
MODELS = ['classical_gen_model', 'genrou', 'gensal', 'exdc1', 'esst1a', 'wsieg1']
BASES = ['base_gen_model', 'base_exc_model', 'base_gov_model']
SOURCES = [DAE + 'model_classes/%s.cpp' % m for m in MODELS] + [DAE + 'base_classes/%s.cpp' % m for m in BASES]
NATIVE = dict(srcs=SOURCES + NAT_BASE, headers=[DAE + 'model_classes/%s.hpp' % m for m in MODELS], incs=INCS)
INIT_X, RESID, XVEC, XDOT, FAULT, XPREV = 1, 2, 3, 4, 5, 6
CX = 'gridpack::ComplexType'
CXN = 'std::complex<double>'
ZERO = t.R(0)


class Model:
    def __init__(m, cls, kind, st, dot, prev, pos=(), ne=(), flags=(), nz=()):
        m.cls, m.kind, m.st, m.dot, m.prev, m.pos, m.ne, m.flags, m.nz, m.n = cls, kind, st, dot, prev, pos, ne, flags, nz, len(st)


def sdp(names, pre='', d='d', sfx='prev'): return names, [d + x for x in names], [x + sfx for x in names]


GENS = [Model('ClassicalGen', 'gen', ['p_delta', 'p_dw'], ['p_deltadot', 'p_dwdot'], ['p_deltaprev', 'p_dwprev'], pos=['p_H', 'p_Xdp']),
        Model('GenrouGen', 'gen', *sdp(['delta', 'dw', 'Eqp', 'Psidp', 'Psiqp', 'Edp']), pos=['H', 'Tdop', 'Tdopp', 'Tqop', 'Tqopp'], ne=[('Xdp', 'Xl'), ('Xqp', 'Xl')]),
        Model('GensalGen', 'gen', *sdp(['delta', 'dw', 'Eqp', 'Psidp', 'Psiqpp']), pos=['H', 'Tdop', 'Tdopp', 'Tqopp'], ne=[('Xdp', 'Xl')])]
EXCS = [Model('Exdc1Exc', 'exc', *sdp(['Vmeas', 'xLL', 'VR', 'Efd', 'xf']), pos=['TE', 'TF'], flags=[('VR_at_min', 'VR_at_max')], nz={'TR': 0, 'TB': 1, 'TA': 2}),
        Model('Esst1aExc', 'exc', *sdp(['Vmeas', 'xLL1', 'xLL2', 'Va', 'xf']), pos=['Tf'], flags=[('Vi_at_min', 'Vi_at_max'), ('Va_at_min', 'Va_at_max')], nz={'Tr': 0, 'Tb': 1, 'Tb1': 2, 'Ta': 3})]
GOVS = [Model('Wsieg1Gov', 'gov', *sdp(['xLL', 'xGV', 'xT1', 'xT2', 'xT3', 'xT4']), pos=['T3'], flags=[('uGV_at_min', 'uGV_at_max'), ('xGV_at_min', 'xGV_at_max')], nz={'T1': 0, 'T4': 2, 'T5': 3, 'T6': 4, 'T7': 5})]


class Bus:
    """the variables of a bus: VD, VQ, then those of the machine and of its controllers"""
    def __init__(b, s, gen, exc=None, gov=None, off=2):
        b.s, b.parts, b.n = s, [], off
        b.gen = gen
        for nm, m in (('gen', gen), ('exc', exc), ('gov', gov)):
            if m is None: continue
            o = s.obj(nm, m.cls)
            s.put(o, 'offsetb', b.n)
            if any(f['name'] == 'nx' + nm for c, f in s.P.fields_all(s.P.types[o.cls])) and m.cls != 'ClassicalGen': s.put(o, 'nx' + nm, m.n)
            b.parts.append((m, o, b.n))
            b.n += m.n
        p = {m.kind: o for m, o, off in b.parts}
        b.obj = p
        if 'gen' in p:
            for k, f in (('exc', 'xciter'), ('gov', 'overnor')):
                has = k in p
                F = {'exc': 'p_hasExciter', 'gov': 'p_hasGovernor'}[k]
                if has:
                    s.put(p['gen'], F, True)
                    s.link(p['gen'], {'exc': 'p_exciter', 'gov': 'p_governor'}[k], p[k])
                    s.link(p[k], 'p_gen', p['gen'])
                    s.ex.dyn[p[k].ref] = p[k].cls
                else: s.put(p['gen'], F, False)
        for m, o, off in b.parts:
            s.ex.dyn[o.ref] = o.cls
            for f in m.pos:
                s.assume(t.lt(ZERO, s.old(o, f))); s.gen(o, f, lambda r, sh: r.pos())
            for f, g in m.ne: s.assume(t.ne(s.old(o, f), s.old(o, g)))
            if m.cls == 'GenrouGen':      # the (disabled) saturation term divides by these
                s.sample_pre.append(t.ne(s.old(o, 'Xd'), s.old(o, 'Xl')))

    def shared(b):
        """the voltage and the shift are the same for every model of the bus (DSimBus sets them)"""
        s = b.s
        vd, vq, sh = s.input('VD', 'double'), s.input('VQ', 'double'), s.input('shift', 'double')
        b.V, b.shift = (vd.x, vq.x), sh.x
        b.states()
        s.assume(t.lt(ZERO, vd.x * vd.x + vq.x * vq.x))
        for m, o, off in b.parts:
            for f, v, c in (('VD', vd, 'in_VD'), ('VQ', vq, 'in_VQ'), ('shift', sh, 'in_shift')):
                if s.P.owner(o.cls, f) is None: continue
                s.set(o, f, {'': v.x}); s.native('o_%s->%s = %s;' % (o.name, f, c))

    def x(b, o, f): return b.vars[o.name, f]

    def states(b, fields=('st', 'dot')):
        s = b.s
        b.vars = {}
        for m, o, off in b.parts:
            for k in fields:
                for f in getattr(m, k):
                    v = s.input('%s_%s' % (o.name, f), 'double', lambda r, sh: r.uniform(-.5, .5) if f.endswith('dw') else r.rv())
                    s.set(o, f, {'': v.x}); s.native('o_%s->%s = in_%s_%s;' % (o.name, f, o.name, f))
                    b.vars[o.name, f] = v.x
            if m.cls == 'GenrouGen': s.sample_pre.append(t.not_(t.and_(*[t.eq(b.vars[o.name, f], ZERO) for f in m.st[2:]])))

    def residual(b, mode):
        """run every model: residual rows, then the current injected by the machine"""
        s = b.s
        b.F = []
        for m, o, off in b.parts:
            s.call(o, 'setMode', [t.I(mode)], cargs='%d' % mode)
            v = s.buf('F_' + o.name, CXN, m.n)
            s.call(o, 'vectorValues', [v], cargs='F_' + o.name)
            b.F.append(v)
        if 'gen' in b.obj:
            b.ID, b.IQ = s.outvar('IGD', 'double', '0.0'), s.outvar('IGQ', 'double', '0.0')
            for v in (b.ID, b.IQ): s.ex.write(s.st, v[0][1], Val(s.type('double'), {'': ZERO}))
            s.call(b.obj['gen'], 'getCurrent', [s.outptr(b.ID), s.outptr(b.IQ)], cargs='&IGD, &IGQ')

    def columns(b):
        """the columns of the bus block, zero but for the network rows of the voltage columns"""
        s = b.s
        s.nref += 1000
        base = s.nref
        t.FRESH.add(base)
        b.cols = [base + 10 + i for i in range(b.n)]
        for r in b.cols: t.FRESH.add(r)
        pt = [ty for ty in s.P.types.values() if ty.k == 'ptr' and ty.to is not None and ty.to.s.replace('const ', '') == CXN]
        el = s.type(CXN)
        s.native('std::vector<std::vector<%s> > jm(%d, std::vector<%s>(%d)); %s *jac[%d]; for(int i=0;i<%d;i++) jac[i] = jm[i].data();' % (CXN, b.n, CXN, b.n, CXN, b.n, b.n))
        key = ('M', pt[0].s if pt else CXN + ' *', 'mem')
        for i, r in enumerate(b.cols):
            for leaf, val in (('^b', t.I(r)), ('^o', t.I(0))):
                s.ex.rawset(s.st, key, (t.I(base), t.I(i)), leaf, INT, val)
            for j in range(b.n):
                for leaf in ('.re', '.im'): s.ex.rawset(s.st, ('M', el.s, 'mem'), (t.I(r), t.I(j)), leaf, REAL, ZERO)
        b.acc = {}
        for i in (0, 1):
            for j in (0, 1):
                v = s.input('net%d%d' % (i, j), 'double')
                b.acc[i, j] = v.x
                s.ex.rawset(s.st, ('M', el.s, 'mem'), (t.I(b.cols[i]), t.I(j)), '.re', REAL, v.x)
                s.native('jac[%d][%d] = in_net%d%d;' % (i, j, i, j))
        return Val(None, {'^b': t.I(base), '^o': t.I(0)})

    def J(b, col, row, leaf='.re'):
        el = b.s.type(CXN)
        return b.s.ex.rawget(b.s.st, ('M', el.s, 'mem'), (t.I(b.cols[col]), t.I(row)), leaf, REAL)

    def jacobian(b, hyps=(), only=None):
        """every entry of the block is the derivative of its residual row, plus shift times the derivative in the rate"""
        s = b.s
        jv = b.columns()
        for m, o, off in b.parts: s.call(o, 'setJacobian', [jv], cargs='jac')
        var = [(b.V[0], None, 'VD'), (b.V[1], None, 'VQ')]
        while len(var) < b.parts[0][2]: var.append((None, None, '-'))
        for m, o, off in b.parts:
            for f, g in zip(m.st, m.dot): var.append((b.x(o, f), b.x(o, g), f))
        rows = []
        if 'gen' in b.obj: rows += [(0, 'IQ', lambda: s.outval(b.IQ)), (1, 'ID', lambda: s.outval(b.ID))]
        for (m, o, off), F in zip(b.parts, b.F):
            for i, f in enumerate(m.st): rows.append((off + i, f, lambda F=F, i=i: s.bufat(F, i, '.re')))
        if s.limited: b.fd(rows, var, only)
        else:
            for row, rn, res in rows:
                if only and rn not in only: continue
                r = res()
                for col, (x, xd, cn) in enumerate(var):
                    w = t.diff(r, x) if x is not None else ZERO
                    if xd is not None: w = w + b.shift * t.diff(r, xd)
                    if (col, row) in b.acc: w = w + b.acc[col, row]
                    s.post('d(%s)/d(%s)' % (rn, cn), lambda: b.J(col, row), w, native='jac[%d][%d].real()' % (col, row), hyps=hyps)
        s.ensure('real block', lambda: t.and_(*[t.eq(b.J(c, r, '.im'), ZERO) for c in range(b.n) for r, _, _ in rows]))

    def fd(b, rows, var, only):
        """the verifier cannot execute the functions: compare the block with difference quotients on samples"""
        s = b.s
        setx = []
        for col, (x, xd, cn) in enumerate(var):
            if col < 2:
                at = ' '.join('o_%s->%s += h;' % (o.name, ('VD', 'VQ')[col]) for m, o, off in b.parts if s.P.owner(o.cls, 'VD') is not None)
                setx.append('case %d: %s break;' % (col, at))
            for m, o, off in b.parts:
                if off <= col < off + m.n:
                    setx.append('case %d: o_%s->%s += h; break;' % (col, o.name, m.st[col - off]))
                    setx.append('case %d: o_%s->%s += h; break;' % (100 + col, o.name, m.dot[col - off]))
        ev = ''.join('o_%s->vectorValues(F_%s);' % (o.name, o.name) for m, o, off in b.parts)
        ev += ''.join('for(int i=0;i<%d;i++) F[%d+i] = F_%s[i].real();' % (m.n, off, o.name) for m, o, off in b.parts)
        if 'gen' in b.obj: ev += 'double d_=0, q_=0; o_gen->getCurrent(&d_, &q_); F[0]=q_; F[1]=d_;'
        s.native('bool inside = %s;' % ("fabs(o_exc->getFieldVoltage() - o_exc->Va) < 1e-9" if 'exc' in b.obj and b.obj['exc'].cls == 'Esst1aExc' else 'true'))
        s.native('auto mv = [&](int c, double h) { switch(c) { %s } };' % ' '.join(setx))
        s.native('auto rs = [&](std::vector<double> &F) { F.assign(%d, 0.0); %s };' % (b.n, ev))
        s.native("""auto fd = [&](int c) { std::vector<double> a, m, z, w, r(%d); const double h = 1e-5;
          mv(c, h); rs(a); mv(c, -2*h); rs(m); mv(c, h); rs(z); mv(c, h/2); rs(w); mv(c, -h/2);
          for(size_t i=0;i<r.size();i++) { double f=(a[i]-z[i])/h, g=(z[i]-m[i])/h, k=(w[i]-z[i])/(h/2), e=1e-3*(1+fabs(f)); r[i] = (fabs(f-g)>e || fabs(f-k)>e || fabs(z[i])*1e-16/h>1e-4*(1+fabs(f))) ? NAN : (a[i]-m[i])/(2*h); }
          return r; };""" % b.n)
        s.native('std::vector<std::vector<double> > fx(%d), fxd(%d); for(int c=0;c<%d;c++) { fx[c] = fd(c); fxd[c] = fd(100+c); }' % (b.n, b.n, b.n))
        s.native('auto okd = [&](int c, int r, double base) { if (!inside) return true; double d = fx[c][r] + (c>=2 ? in_shift*fxd[c][r] : 0.0) + base, j = jac[c][r].real(); return !(fabs(d) < 1e6) || fabs(d-j) <= 5e-3*(1+fabs(d)+fabs(j)+fabs(in_shift)); };')
        for row, rn, res in rows:
            if only and rn not in only: continue
            for col, (x, xd, cn) in enumerate(var):
                s.sampled('d(%s)/d(%s)' % (rn, cn), t.TRUE, 'okd(%d, %d, %s)' % (col, row, 'in_net%d%d' % (col, row) if (col, row) in b.acc else '0.0'))


def alloc(b):
    """the coupling arrays the machine allocates in load()"""
    s, gen = b.s, b.obj['gen']
    for kind, fs in (('exc', ('xexc_loc', 'dEfd_dxexc', 'dEfd_dxgen')), ('gov', ('xgov_loc', 'dPmech_dxgov'))):
        if kind not in b.obj: continue
        for f in fs:
            s.nref += 100
            t.FRESH.add(s.nref)
            s.ex.setfld(s.st, gen.ref, gen.cls, f, {'^b': t.I(s.nref), '^o': t.I(0)})
            s.native('o_gen->%s = (decltype(o_gen->%s))malloc(64*sizeof(double));' % (f, f))


def flags(b):
    """limit flags: at most one of a pair; a state is differential only if its time constant is not zero"""
    s = b.s
    for m, o, off in b.parts:
        for lo, hi in m.flags: s.assume(t.not_(t.and_(s.old(o, lo), s.old(o, hi))))
        if m.nz:
            ar = s.ex.fld(State(), o.ref, o.cls, 'iseq_diff').l['[]']
            for f, k in m.nz.items():
                fl = t.select(ar, t.I(k))
                d = t.ne(fl, t.I(0)) if fl.sort == INT else fl
                s.assume(t.implies(d, t.ne(s.old(o, f), ZERO)))
            if m.kind == 'exc' and m.cls != 'Exdc1Exc':
                s.put(o, 'Klr', 0.0)




def field_limits(b):
    """lower and upper limit of the ESST1A field voltage, by the documented formula"""
    s = b.s
    e, g = b.obj['exc'], b.obj['gen']
    lad = s.call(g, 'getFieldCurrent', cpp='')
    if s.limited: return None
    VT = t.sqrt(b.V[0] * b.V[0] + b.V[1] * b.V[1])
    return VT * s.old(e, 'Vrmin'), VT * s.old(e, 'Vrmax') - s.old(e, 'Kc') * lad.x


def inside(b):
    """the field voltage is strictly inside its limits"""
    s, e = b.s, b.obj['exc']
    s.gen(e, 'Vrmin', lambda r, sh: r.uniform(-90, -30)); s.gen(e, 'Vrmax', lambda r, sh: r.uniform(30, 90)); s.gen(e, 'Kc', lambda r, sh: r.uniform(0, .1))
    lim = field_limits(b)
    if lim:
        h = [t.lt(lim[0], b.x(e, 'Va')), t.lt(b.x(e, 'Va'), lim[1])]
        s.sample_pre += h; s.call_pre += h


def k_field_voltage(b):
    """contract of Esst1aExc::getFieldVoltage for a bus whose field voltage is strictly inside its limits: it is Va"""
    def k(ex, st, this, args, e):
        x, g = b.obj['exc'], b.obj['gen']
        r = ex.call_body(b.s.func('getFieldCurrent', g.cls), Obj(g.ref, ex.P.types[g.cls]), [], st, e)
        f = lambda n: ex.fld(st, x.ref, x.cls, n).l['']
        VT, va = t.sqrt(f('VD') * f('VD') + f('VQ') * f('VQ')), f('Va')
        ex.oblige(st, 'pre', 'field voltage inside its limits at getFieldVoltage', e.get('l'), t.and_(t.lt(VT * f('Vrmin'), va), t.lt(va, VT * f('Vrmax') - f('Kc') * r.l[''])))
        ex.setfld(st, x.ref, x.cls, 'LadIfd', r.l[''])
        return Val(e['t'], {'': va})
    return {'Esst1aExc::getFieldVoltage': k, 'BaseExcModel::getFieldVoltage': k}
