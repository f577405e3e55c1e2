"""Power-flow Jacobian = derivative of the mismatch equations."""
from props.pf import *
import props.C02 as c2

CON = c2.CON


def own_injection(s, bus, v, a):
    """the injection at `bus` as a function of its own magnitude v and angle a (neighbours, admittances fixed)"""
    nb = s.old(bus, 'p_branches', '#n')
    refs = s.old(bus, 'p_branches', '[]')
    b = Bus(s, bus)

    def flow(k):
        ref = refs[k]
        r1, r2 = s.at(BR, ref, 'p_bus1'), s.at(BR, ref, 'p_bus2')
        y12, y21 = brY(s, ref)
        B1, B2 = Bus(s, r1), Bus(s, r2)
        return cite(t.eq(bus.ref, r1), brPQ(v, B2.V, a - B2.A, y12), brPQ(v, B1.V, a - B1.A, y21))
    yii = Cx(b.x('p_ybusr'), b.x('p_ybusi'))
    return Cx(v * v, 0) * yii.conj() + csum(flow, nb)


def s_diag(c):
    """derivatives of the equations of a bus with respect to its own unknowns, evaluated by the real code after a mismatch"""
    out = []
    for kind in ('PQ', 'PV'):
        s = c.scen('PFBus::diagonalJacobianValues %s bus' % kind, contracts=CON)
        bus, oth, f = c2.network(s)
        b = coupled(s, bus)
        s.assume(t.ne(b.V, t.R(0)))
        # no branch from a bus to itself
        nb, refs = s.old(bus, 'p_branches', '#n'), s.old(bus, 'p_branches', '[]')
        s.assume(allk(lambda i: t.ne(s.at(BR, refs[i], 'p_bus1'), s.at(BR, refs[i], 'p_bus2')), nb))
        s.put(bus, 'p_isPV', kind == 'PV')
        s.put(bus, 'p_isolated', False)
        s.call(bus, 'setReferenceBus', [t.FALSE], cargs='false')
        rv, jv = s.buf('rv', 'double', 2), s.buf('jv', 'double', 4)
        s.call(bus, 'rhsValues', [rv], cargs='rv')
        n = s.call(bus, 'diagonalJacobianValues', [jv], cargs='jv', ret='n')
        v, a = t.var('v_own', REAL), t.var('a_own', REAL)
        w = own_injection(s, bus, v, a)
        back = {v: b.V, a: b.A}
        d = lambda fn, x: t.subst(t.diff(fn, x), back)
        s.post('number of entries', n.x if n else None, t.I(4 if kind == 'PQ' else 1), native='n')
        s.post('dP/dtheta', lambda: s.bufat(jv, 0), d(w.re, a), native='jv[0]')
        if kind == 'PQ':
            s.post('dQ/dtheta', lambda: s.bufat(jv, 1), d(w.im, a), native='jv[1]')
            s.post('dP/dV', lambda: s.bufat(jv, 2), d(w.re, v), native='jv[2]')
            s.post('dQ/dV', lambda: s.bufat(jv, 3), d(w.im, v), native='jv[3]')
        out.append(s)
    return out


def s_off(c):
    """derivatives of the equations at one end of a branch with respect to the unknowns at the other end"""
    out = []
    for dirn in ('forward', 'reverse'):
        for pv1 in (0, 1):
            for pv2 in (0, 1):
                s = c.scen('PFBranch::%sJacobianValues %s-%s' % (dirn, ('PQ', 'PV')[pv1], ('PQ', 'PV')[pv2]))
                br = s.obj('br', BR); b1, b2 = s.obj('b1', BUS), s.obj('b2', BUS)
                gens_bus(s, 'b1'); gens_bus(s, 'b2')
                ends(s, br, b1, b2)
                for o, pv in ((b1, pv1), (b2, pv2)):
                    s.put(o, 'p_isPV', bool(pv)); s.put(o, 'p_isolated', False)
                    s.call(o, 'setReferenceBus', [t.FALSE], cargs='false')
                s.put(br, 'p_active', True)
                s.put(br, 'p_mode', MODES['Jacobian'])
                B1, B2 = Bus(s, b1), Bus(s, b2)
                # the mismatch evaluation that precedes the Jacobian leaves the angle difference on the branch
                p, q = s.outvar('p', 'double'), s.outvar('q', 'double')
                s.call(br, 'getPQ', [b1.ref, s.outptr(p), s.outptr(q)], cargs='o_b1.get(), &p, &q')
                jv = s.buf('jv', 'double', 4)
                n = s.call(br, '%sJacobianValues' % dirn, [jv], cargs='jv', ret='n')
                isz, jsz = s.outvar('isz', 'int'), s.outvar('jsz', 'int')
                ok = s.call(br, 'matrixForwardSize' if dirn == 'forward' else 'matrixReverseSize', [s.outptr(isz), s.outptr(jsz)], cargs='&isz, &jsz', ret='ok')
                vj, aj = t.var('v_other', REAL), t.var('a_other', REAL)
                y12, y21 = brY(s, br.ref)
                if dirn == 'forward':
                    w = brPQ(B1.V, vj, B1.A - aj, y12); back = {vj: B2.V, aj: B2.A}
                    rows, cols = 2 - pv1, 2 - pv2
                else:
                    w = brPQ(B2.V, vj, B2.A - aj, y21); back = {vj: B1.V, aj: B1.A}
                    rows, cols = 2 - pv2, 2 - pv1
                eqs = [('P', w.re), ('Q', w.im)][:rows]
                unk = [('theta', aj), ('V', vj)][:cols]
                s.post('block present', ok.x if ok else None, t.TRUE, native='ok')
                s.post('rows = equations at this end', lambda: s.outval(isz), t.I(rows), native='isz')
                s.post('columns = unknowns at the far end', lambda: s.outval(jsz), t.I(cols), native='jsz')
                s.post('number of entries', n.x if n else None, t.I(rows * cols), native='n')
                k = 0
                for un, uv in unk:
                    for en, ev in eqs:
                        s.post('d%s/d%s' % (en, un), (lambda k=k: s.bufat(jv, k)), t.subst(t.diff(ev, uv), back), native='jv[%d]' % k)
                        k += 1
                out.append(s)
    return out


def s_jac(c):
    """PFBranch::getJacobian: the four sensitivities seen from either end, per unit own voltage for the magnitude columns"""
    out = []
    for end in (1, 2):
        s = c.scen('PFBranch::getJacobian from bus %d' % end)
        br = s.obj('br', BR); b1, b2 = s.obj('b1', BUS), s.obj('b2', BUS)
        gens_bus(s, 'b1'); gens_bus(s, 'b2')
        ends(s, br, b1, b2)
        jv = s.buf('jv', 'double', 4)
        B1, B2 = Bus(s, b1), Bus(s, b2)
        th = s.old(br, 'p_theta')
        s.call(br, 'getJacobian', [(b1 if end == 1 else b2).ref, jv], cargs='o_b%d.get(), jv' % end)
        y12, y21 = brY(s, br.ref)
        y, vf, d = (y12, B2.V, th) if end == 1 else (y21, B1.V, -th)
        vj, dj = t.var('v_other', REAL), t.var('a_diff', REAL)
        w = brPQ(t.R(1), vj, dj, y)
        back = {vj: vf, dj: d}
        for k, (nm, e, x, sg) in enumerate((('dP/dtheta', w.re, dj, -1), ('dQ/dtheta', w.im, dj, -1), ('dP/dV', w.re, vj, 1), ('dQ/dV', w.im, vj, 1))):
            s.post(nm, (lambda k=k: s.bufat(jv, k)), t.subst(t.diff(e, x), back) * sg, native='jv[%d]' % k)
        out.append(s)
    return out


SCENARIOS = [s_diag, s_off, s_jac]
