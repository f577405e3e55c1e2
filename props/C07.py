"""Jacobian blocks of the differential-algebraic machine, exciter and governor models are the derivatives of their residuals."""
from props.dae import *


def s_gen_jac(c):
    out = []
    for m in GENS:
        for off in (2, 5):
            for mode in (RESID, FAULT):
                s = c.scen('%s block at offset %d, %s' % (m.cls, off, 'fault' if mode == FAULT else 'normal'))
                b = Bus(s, m, off=off)
                b.shared(); b.residual(mode); b.jacobian()
                out.append(s)
    return out


def s_ctrl_jac(c):
    out = []
    for g in GENS[1:]:
        for e, gv in [(e, None) for e in EXCS] + [(None, GOVS[0]), (EXCS[0], GOVS[0])]:
            for mode in (RESID, FAULT):
                s = c.scen('%s with %s, %s' % (g.cls, ' and '.join(m.cls for m in (e, gv) if m), 'fault' if mode == FAULT else 'normal'))
                b = Bus(s, g, e, gv)
                b.shared(); alloc(b); flags(b)
                if e is not None and e.cls == 'Esst1aExc' and mode == RESID:
                    inside(b)
                    s.ex.contracts.update(k_field_voltage(b))
                b.residual(mode); b.jacobian()
                s.samples = 60
                out.append(s)
    return out


def s_field_voltage(c):
    out = []
    for g in GENS[1:]:
        s = c.scen('ESST1A field voltage with %s' % g.cls)
        b = Bus(s, g, EXCS[1])
        b.shared(); alloc(b); flags(b)
        for f, lo, hi in (('Vrmin', -2, 2), ('Vrmax', -2, 2), ('Kc', 0, 1)): s.gen(b.obj['exc'], f, lambda r, sh, lo=lo, hi=hi: r.uniform(lo, hi))
        lim = field_limits(b)
        r = s.call(b.obj['exc'], 'getFieldVoltage', ret='ef')
        va = b.x(b.obj['exc'], 'Va')
        want = ZERO
        if lim:
            lo, hi = lim
            want = t.ite(t.lt(va, lo), lo, va)
            want = t.ite(t.lt(hi, want), hi, want)
            s.post('field voltage', lambda: r.x, want, native='ef')
            l, h, v = (t.fresh(n, REAL) for n in ('lo', 'hi', 'va'))
            w = t.ite(t.lt(v, l), l, v)
            s.lemmas.append(('strictly inside the limits it is Va', [t.lt(l, v), t.lt(v, h)], t.eq(t.ite(t.lt(h, w), h, w), v)))
        out.append(s)
    return out


def s_clamped(c):
    """field voltage held at its lower limit: it no longer depends on Va (known finding)"""
    s = c.scen('GensalGen with Esst1aExc, field voltage at its limit')
    b = Bus(s, GENS[2], EXCS[1])
    b.shared(); alloc(b); flags(b)
    e = b.obj['exc']
    s.gen(e, 'Vrmin', lambda r, sh: r.uniform(30, 90)); s.gen(e, 'Vrmax', lambda r, sh: r.uniform(9000, 19000)); s.gen(e, 'Kc', lambda r, sh: 0.0)
    s.sample_pre.append(t.lt(b.x(e, 'Va') + 1, t.sqrt(b.V[0] * b.V[0] + b.V[1] * b.V[1]) * s.old(e, 'Vrmin')))
    b.residual(RESID)
    jv = b.columns()
    for m, o, off in b.parts: s.call(o, 'setJacobian', [jv], cargs='jac')
    s.sampled('d(Eqp)/d(Va)', ZERO, 'jac[10][4].real()')
    s.extra_fields |= {('exc', 'Vrmin'), ('exc', 'Vrmax'), ('exc', 'Kc')}
    s.samples = 60
    return s


SCENARIOS = [s_gen_jac, s_ctrl_jac, s_field_voltage, s_clamped]
