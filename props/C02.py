"""Power-flow mismatch = network equations."""
from props.pf import *
from props.bag import Bag, key


def s_getPQ(c):
    """power into the network through a branch, from either end"""
    out = []
    for end in (1, 2):
        s = c.scen('PFBranch::getPQ from bus %d' % end)
        br = s.obj('br', BR); b1, b2 = s.obj('b1', BUS), s.obj('b2', BUS)
        gens_bus(s, 'b1'); gens_bus(s, 'b2')
        ends(s, br, b1, b2)
        p, q = s.outvar('p', 'double'), s.outvar('q', 'double')
        me = b1 if end == 1 else b2
        s.call(br, 'getPQ', [me.ref, s.outptr(p), s.outptr(q)], cargs='o_b%d.get(), &p, &q' % end)
        y12, y21 = brY(s, br.ref)
        B1, B2 = Bus(s, b1), Bus(s, b2)
        d = B1.A - B2.A
        w = brPQ(B1.V, B2.V, d if end == 1 else -d, y12 if end == 1 else y21)
        s.post('P', lambda: s.outval(p), w.re, native='p')
        s.post('Q', lambda: s.outval(q), w.im, native='q')
        s.post('angle difference remembered', lambda: s.now(br, 'p_theta'), d, native='o_br->p_theta')
        out.append(s)
    return out


def k_getPQ(ex, st, this, args, e):
    """contract of PFBranch::getPQ"""
    ref = this[0][1].ref
    S = type('S', (), dict(ex=ex, st=st))()
    who = ex.ptrref(ex.ev(args[0], st))
    pp, qq = ex.ev(args[1], st), ex.ev(args[2], st)
    b1 = ex.fld(st, ref, BR, 'p_bus1').l['']; b2 = ex.fld(st, ref, BR, 'p_bus2').l['']
    B1, B2 = Bus(S, b1, False), Bus(S, b2, False)
    y12, y21 = brY(S, ref, st)
    d = B1.A - B2.A
    w1, w2 = brPQ(B1.V, B2.V, d, y12), brPQ(B1.V, B2.V, -d, y21)
    is1, is2 = t.eq(who, b1), t.eq(who, b2)
    ex.oblige(st, 'pre', 'getPQ is asked by a bus at one of its ends', e.get('l'), t.or_(is1, is2))
    for ptr, arg, a, b in ((pp, args[1], w1.re, w2.re), (qq, args[2], w1.im, w2.im)):
        lvs = ex.deref(ptr, arg['t'])
        ex.writeg(st, lvs, Val(lvs[0][1].ty, {'': t.ite(is1, a, b)}))
    ex.setfld(st, ref, BR, 'p_theta', d)
    return None


CON = {'PFBranch::getPQ': k_getPQ}


def s_getPQ_any(c):
    s = c.scen('PFBranch::getPQ contract')
    s.proof_only = True
    br = s.obj('br', BR)
    who = t.var('who', INT)
    p, q = s.outvar('p', 'double'), s.outvar('q', 'double')
    s.call(br, 'getPQ', [who, s.outptr(p), s.outptr(q)])
    b1, b2 = s.old(br, 'p_bus1'), s.old(br, 'p_bus2')
    s.assume(t.or_(t.eq(who, b1), t.eq(who, b2)))
    B1, B2 = Bus(s, b1), Bus(s, b2)
    y12, y21 = brY(s, br.ref)
    d = B1.A - B2.A
    w1, w2 = brPQ(B1.V, B2.V, d, y12), brPQ(B1.V, B2.V, -d, y21)
    is1 = t.eq(who, b1)
    s.post('P', lambda: s.outval(p), t.ite(is1, w1.re, w2.re))
    s.post('Q', lambda: s.outval(q), t.ite(is1, w1.im, w2.im))
    s.post('angle difference remembered', lambda: s.now(br, 'p_theta'), d)
    return s


def network(s):
    """a bus, its neighbours and any number of branches between them"""
    bus, oth = s.obj('bus', BUS), s.obj('oth', BUS)
    f = s.family('brs', BR)
    gens_bus(s, 'bus'); gens_bus(s, 'oth')
    s.link_family(bus, 'p_branches', f)
    s.link_choice(f, 'p_bus1', [bus, oth])
    s.link_choice(f, 'p_bus2', [bus, oth], lambda r, sh: oth if sh['p_bus1'] == bus.ref.val else bus)
    for x in ('p_ybusr_frwd', 'p_ybusi_frwd', 'p_ybusr_rvrs', 'p_ybusi_rvrs'): s.extra_fields.add(('brs', x))
    s.extra_fields |= {('oth', 'p_vMag_ptr'), ('oth', 'p_vAng_ptr'), ('bus', 'p_vMag_ptr'), ('bus', 'p_vAng_ptr')}
    s.assume(t.le(t.I(0), s.old(bus, 'p_branches', '#n')))
    nb = s.old(bus, 'p_branches', '#n')
    refs = s.old(bus, 'p_branches', '[]')
    s.assume(allk(lambda i: t.or_(t.eq(s.at(BR, refs[i], 'p_bus1'), bus.ref), t.eq(s.at(BR, refs[i], 'p_bus2'), bus.ref)), nb))
    return bus, oth, f


def injection(s, bus):
    """U conj(Y_ii U + sum over branches Y_ij U_j)"""
    nb = s.old(bus, 'p_branches', '#n')
    refs = s.old(bus, 'p_branches', '[]')
    b = Bus(s, bus)

    def flow(k):
        ref = refs[k]
        r1, r2 = s.at(BR, ref, 'p_bus1'), s.at(BR, ref, 'p_bus2')
        y12, y21 = brY(s, ref)
        B1, B2 = Bus(s, r1), Bus(s, r2)
        return cite(t.eq(bus.ref, r1), brPQ(B1.V, B2.V, B1.A - B2.A, y12), brPQ(B2.V, B1.V, B2.A - B1.A, y21))
    yii = Cx(b.x('p_ybusr'), b.x('p_ybusi'))
    return Cx(b.V * b.V, 0) * yii.conj() + csum(flow, nb)


def s_rhs(c):
    """PFBus::rhsValues"""
    out = []
    for kind in ('PQ', 'PV'):
        s = c.scen('PFBus::rhsValues %s bus' % kind, contracts=CON)
        bus, oth, f = network(s)
        b = coupled(s, bus)
        s.put(bus, 'p_isPV', kind == 'PV')
        s.put(bus, 'p_isolated', False)
        ref = [x for x in ('p_refBus',)]
        s.call(bus, 'setReferenceBus', [t.FALSE], cargs='false')
        rv = s.buf('rv', 'double', 2)
        n = s.call(bus, 'rhsValues', [rv], cargs='rv', ret='n')
        w = injection(s, bus)
        s.post('number of equations', n.x if n else None, t.I(2 if kind == 'PQ' else 1), native='n')
        s.post('real power mismatch', lambda: s.bufat(rv, 0), w.re - b.x('p_P0'), native='rv[0]')
        if kind == 'PQ': s.post('reactive power mismatch', lambda: s.bufat(rv, 1), w.im - b.x('p_Q0'), native='rv[1]')
        s.post('real injection remembered', lambda: s.now(bus, 'p_Pinj'), w.re, native='o_bus->p_Pinj')
        s.post('reactive injection remembered', lambda: s.now(bus, 'p_Qinj'), w.im, native='o_bus->p_Qinj')
        out.append(s)
    return out


def s_sbus(c):
    """PFBus::setSBus: scheduled injection = (in-service generation - in-service load)/base"""
    s = c.scen('PFBus::setSBus')
    bus = s.obj('bus', BUS); gens_bus(s, 'bus')
    b = Bus(s, bus)
    s.assume(t.lt(t.R(0), b.x('p_sbase')))
    s.call(bus, 'setSBus', [])
    on = lambda v, i: t.eq(t.select(b.vec(v), i), t.I(1))
    tot = lambda v, stt: csum(lambda i: t.ite(on(stt, i), t.select(b.vec(v), i), t.R(0)), b.size(stt))
    s.assume(t.le(t.I(0), b.size('p_gstatus')), t.le(t.I(0), b.size('p_lstatus')))
    s.post('P0', lambda: s.now(bus, 'p_P0'), (tot('p_pg', 'p_gstatus') - tot('p_pl', 'p_lstatus')) / b.x('p_sbase'), native='o_bus->p_P0')
    s.post('Q0', lambda: s.now(bus, 'p_Q0'), (tot('p_qg', 'p_gstatus') - tot('p_ql', 'p_lstatus')) / b.x('p_sbase'), native='o_bus->p_Q0')
    return s


SCENARIOS = [s_getPQ, s_getPQ_any, s_rhs, s_sbus]


def s_flow(c):
    """PFBranch::getComplexPower: power entering an element at its 'from' bus, in MVA"""
    s = c.scen('PFBranch::getComplexPower')
    br = s.obj('br', BR); b1, b2 = s.obj('b1', BUS), s.obj('b2', BUS)
    gens_bus(s, 'b1'); gens_bus(s, 'b2'); ends(s, br, b1, b2)
    ym.elems(s, 'br')
    for v in ym.VECS + ['p_elems']: s.extra_fields.add(('br', v))
    s.gen('br', 'p_tag', lambda r, sh: ['%d ' % i for i in range(sh.setdefault('nel', r.choice([1, 1, 2, 3])))])
    tag = s.input('tag', 'std::string', lambda r, sh: '%d ' % r.choice([0, 0, 1, 2, 9]))
    n = s.ex.fld(State(), br.ref, YBR, 'p_elems').l['']
    g = lambda nm: s.ex.fld(State(), br.ref, YBR, nm).l['[]']
    idx = t.var('idx', INT)
    s.assume(t.le(t.I(0), n)); ym.sized(s, br, n)
    r = s.call(br, 'getComplexPower', [tag], cargs='in_tag', ret='r')
    e = ym.Elem(g, idx)
    B1, B2 = Bus(s, b1), Bus(s, b2)
    u1, u2 = B1.U, B2.U
    # idx is the first element carrying the tag
    first = [t.select(g('p_branch_status'), idx), t.le(t.I(0), idx), t.lt(idx, n), t.eq(t.select(g('p_tag'), idx), tag.x), allk(lambda i: t.ne(t.select(g('p_tag'), i), tag.x), idx)]
    yii = cite(t.and_(e.xform, t.not_(e.sw)), e.near(), e.far())
    s.assume(allk(lambda i: ym.Elem(g, i).ok(), n))
    w = u1 * (yii * u1 + e.y12() * u2).conj() * Cx(s.old(br, 'p_sbase', ''))
    post_cx(s, 'S = U1 conj(Y11 U1 + Y12 U2)', r, w, None, hyps=first)
    none = [allk(lambda i: t.ne(t.select(g('p_tag'), i), tag.x), n)]
    post_cx(s, 'unknown element carries no power', r, Cx(0, 0), 'r', hyps=none)
    w2 = Cx(0, 0)
    for i in (3, 2, 1, 0):
        ei = ym.Elem(g, t.I(i))
        yi = cite(t.and_(ei.xform, t.not_(ei.sw)), ei.near(), ei.far())
        w2 = cite(t.and_(t.lt(t.I(i), n), t.eq(ei.tag, tag.x)), u1 * (yi * u1 + ei.y12() * u2).conj() * Cx(s.old(br, 'p_sbase', '')), w2)
    on = [allk(lambda i: t.or_(t.select(g('p_branch_status'), i), t.ne(t.select(g('p_tag'), i), tag.x)), n)]
    s.sampled('S.re', w2.re, 'r.real()', hyps=on); s.sampled('S.im', w2.im, 'r.imag()', hyps=on)
    return s


def exchanged_angle(s, b2, a):
    """neighbours see the same angle up to whole turns, within half a turn of zero"""
    s.post('exchanged angle: same direction (cos)', lambda: t.cos(b2.A), t.cos(a), native='cos(*o_bus->p_vAng_ptr)')
    s.post('exchanged angle: same direction (sin)', lambda: t.sin(b2.A), t.sin(a), native='sin(*o_bus->p_vAng_ptr)')
    s.ensure('exchanged angle at most half a turn', lambda: t.and_(t.le(-t.PI, b2.A), t.le(b2.A, t.PI)), native='fabs(*o_bus->p_vAng_ptr) < 3.1415926535897942')


def s_exchange(c):
    """buffer set-up, reset and accessors keep what neighbours see equal to the bus"""
    out = []
    for what in ('setXCBuf', 'resetVoltage'):
        s = c.scen('PFBus::' + what)
        bus = s.obj('bus', BUS); gens_bus(s, 'bus')
        b = Bus(s, bus); b2 = Bus(s, bus, False)
        if what == 'setXCBuf':
            buf = s.buf('buf', 'double', 3)
            s.native('memset(buf, 0x55, sizeof buf);')
            s.call(bus, 'setXCBuf', [buf], cargs='buf')
            s.post('magnitude kept', lambda: b2.x('p_v'), b.x('p_v'), native='o_bus->p_v')
            a, v = b.x('p_a'), b.x('p_v')
            s.post('exchanged regulation flag', lambda: b2.ptr('p_PV_ptr', 'bool'), b.x('p_isPV'), native='*o_bus->p_PV_ptr')
        else:
            apart(s, bus)
            s.gen('bus', 'p_angle', lambda r, sh: r.ang() * 1.5)
            s.call(bus, 'resetVoltage', [])
            a, v = b.x('p_angle'), b.x('p_voltage')
            s.post('angle', lambda: b2.x('p_a'), a, native='o_bus->p_a')
            s.post('magnitude', lambda: b2.x('p_v'), v, native='o_bus->p_v')
        s.post('exchanged magnitude', lambda: b2.V, v, native='*o_bus->p_vMag_ptr')
        exchanged_angle(s, b2, a)
        r = s.call(bus, 'getVoltage', [], ret='gv'); q = s.call(bus, 'getPhase', [], ret='ga')
        s.post('voltage as seen by others', r.x if r else None, v, native='gv')
        s.post('angle as seen by others (sin)', t.sin(q.x) if q else None, t.sin(a), native='sin(ga)')
        s.post('angle as seen by others (cos)', t.cos(q.x) if q else None, t.cos(a), native='cos(ga)')
        out.append(s)
    s = c.scen('PFBus::getComplexVoltage')
    bus = s.obj('bus', BUS); gens_bus(s, 'bus')
    b = Bus(s, bus)
    r = s.call(bus, 'getComplexVoltage', [], ret='u')
    post_cx(s, 'V exp(j theta)', r, b.U, 'u')
    out.append(s)
    return out


def s_updates(c):
    """Newton update: subtract the correction, keep the exchanged values in step"""
    out = []
    for pv in (False, True):
        for typ in ('double', 'std::complex<double>'):
            s = c.scen('PFBus::setValues %s %s' % ('PV' if pv else 'PQ', typ))
            bus = s.obj('bus', BUS); gens_bus(s, 'bus')
            b = Bus(s, bus)
            apart(s, bus)
            s.put(bus, 'p_isPV', pv)
            dx = s.input('dx', 'std::vector<%s>' % typ, lambda r, sh, typ=typ: [r.ang() * 1.5, r.rv()] if typ == 'double' else [complex(r.ang() * 1.5, r.rv()), complex(r.rv(), r.rv())])
            lf = '' if typ == 'double' else '.re'
            buf = s.buf('buf', typ, 2)
            s.native('buf[0]=in_dx[0]; buf[1]=in_dx[1];')
            for i in range(2):
                for leaf, so in s.P.leaves(buf.elt):
                    s.ex.rawset(s.st, ('M', buf.elt.s, 'mem'), (buf.l['^b'], t.I(i)), leaf, so, t.select(dx.l['[]' + leaf], t.I(i)))
            s.assume(t.ne(b.f('p_vMag_ptr').l['^b'], buf.l['^b']), t.ne(b.f('p_vAng_ptr').l['^b'], buf.l['^b']))
            s.call(bus, 'setValues', [buf], cargs='buf', pred=lambda f, typ=typ: ('complex' in f['params'][0]['t'].s) == (typ != 'double'))
            da, dv = t.select(dx.l['[]' + lf], t.I(0)), t.select(dx.l['[]' + lf], t.I(1))
            b2 = Bus(s, bus, False)
            s.post('angle', lambda: b2.x('p_a'), b.x('p_a') - da, native='o_bus->p_a')
            v = b.x('p_v') - (0 if pv else dv)
            s.post('magnitude', lambda: b2.x('p_v'), v, native='o_bus->p_v')
            s.post('exchanged magnitude', lambda: b2.V, v, native='*o_bus->p_vMag_ptr')
            exchanged_angle(s, b2, b.x('p_a') - da)
            out.append(s)
    return out


SCENARIOS += [s_flow, s_updates]
SCENARIOS += [s_exchange]


GENK = dict(p_pg='GENERATOR_PG', p_qg='GENERATOR_QG', p_qmax='GENERATOR_QMAX', p_qmin='GENERATOR_QMIN')


def s_load(c):
    """what load() makes of the data of a bus: generators and loads with their status, regulation, voltage"""
    out = []
    s = c.scen('PFBus::load')
    bus = s.obj('bus', BUS); gens_bus(s, 'bus')
    apart(s, bus)
    for x in ('p_savePg', 'p_savePl', 'p_saveQl'): s.extra_fields.add(('bus', x))
    K = key
    gk = [K(x) for x in ('GENERATOR_PG', 'GENERATOR_QG', 'GENERATOR_VS', 'GENERATOR_STAT', 'GENERATOR_QMAX', 'GENERATOR_QMIN', 'GENERATOR_ID')]
    lk = [K(x) for x in ('LOAD_PL', 'LOAD_QL', 'LOAD_IP', 'LOAD_IQ', 'LOAD_YP', 'LOAD_YQ', 'LOAD_STATUS', 'LOAD_ID')]
    base = [K(x) for x in ('CASE_SBASE', 'BUS_SHUNT_GL', 'BUS_SHUNT_BL', 'BUS_TYPE', 'BUS_VOLTAGE_MAG', 'BUS_VOLTAGE_ANG')]
    b = Bag(s, required=gk + lk + base, sizes=(1, 1, 2, 3, 4))
    b.gen(K('CASE_SBASE'), lambda r, sh: r.choice([100.0, 1.0, r.pos()])); b.gen(K('BUS_TYPE'), lambda r, sh: r.choice([1, 2, 2, 3, 4]))
    b.gen(K('GENERATOR_NUMBER'), lambda r, sh: b.size(sh, r)); b.gen(K('LOAD_NUMBER'), lambda r, sh: r.choice([b.size(sh, r), b.size(sh, r), 0]))
    for x in ('GENERATOR_STAT', 'LOAD_STATUS'): b.gen(K(x), lambda r, sh: r.choice([0, 1, 1]))
    b.gen(K('BUS_VOLTAGE_ANG'), lambda r, sh: r.uniform(-170, 170))
    b.gen(K('GENERATOR_ID'), lambda r, sh: r.choice(['1 ', '2 '])); b.gen(K('LOAD_ID'), lambda r, sh: r.choice(['1 ', '2 ']))
    s.assume(t.ne(b.val(K('CASE_SBASE')), t.R(0)))
    ng = t.ite(b.has(K('GENERATOR_NUMBER'), None, 'int'), b.val(K('GENERATOR_NUMBER'), None, 'int'), t.I(0))
    nl = t.ite(b.has(K('LOAD_NUMBER'), None, 'int'), b.val(K('LOAD_NUMBER'), None, 'int'), t.I(0))
    s.assume(t.le(t.I(0), ng), t.le(t.I(0), nl))
    s.sample_pre.append(t.lt(t.I(0), ng))
    s.call(bus, 'load', [b.arg()], cargs=b.name)
    on = lambda i: t.ne(b.val(K('GENERATOR_STAT'), i, 'int'), t.I(0))
    ty = b.val(K('BUS_TYPE'), None, 'int')
    now = lambda f: (lambda: s.now(bus, f))
    def vec(f, n, want):
        s.post('size of ' + f, lambda: s.now(bus, f, '#n'), n, '(int)o_bus->%s.size()' % f)
        s.post_each(f, n, lambda k: t.select(s.now(bus, f, '[]'), k), want, 'o_bus->' + f)
    s.post('generators', now('p_ngen'), ng, 'o_bus->p_ngen'); s.post('loads', now('p_nload'), nl, 'o_bus->p_nload')
    for f, k in GENK.items():
        vec(f, ng, lambda i, k=k: t.ite(on(i), b.val(K(k), i), t.R(0)))
    vec('p_savePg', ng, lambda i: t.ite(on(i), b.val(K('GENERATOR_PG'), i), t.R(0)))
    for f in ('p_qmax', 'p_qmin'): vec(f + '_orig', ng, lambda i, f=f: t.ite(on(i), b.val(K(GENK[f]), i), t.R(0)))
    vec('p_gstatus', ng, lambda i: b.val(K('GENERATOR_STAT'), i, 'int'))
    vec('p_gid', ng, lambda i: b.val(K('GENERATOR_ID'), i, 'std::string'))
    pt = lambda i: b.get(K('GENERATOR_PMAX'), i, 'double', 0)
    pb = lambda i: b.get(K('GENERATOR_PMIN'), i, 'double', 0)
    vec('p_pt', ng, pt); vec('p_pb', ng, pb)
    cap = lambda i: t.ite(on(i), pt(i) - pb(i), t.R(0))
    tot = csum(cap, ng)
    share = t.and_(t.ne(tot, t.R(0)), t.lt(t.I(1), ng))
    vec('p_pFac', ng, lambda i: t.ite(share, cap(i) / tot, t.ite(t.eq(i, t.I(0)), t.R(1), cap(i))))
    for f, p, q in (('p_pl', 'LOAD_PL', 'P'), ('p_ql', 'LOAD_QL', 'Q')):
        w = lambda i, p=p, q=q: b.val(K(p), i) + (1 if q == 'P' else -1) * (b.val(K('LOAD_I' + q), i) + b.val(K('LOAD_Y' + q), i))
        vec(f, nl, w); vec({'p_pl': 'p_savePl', 'p_ql': 'p_saveQl'}[f], nl, w)
    vec('p_lstatus', nl, lambda i: b.val(K('LOAD_STATUS'), i, 'int'))
    vec('p_lid', nl, lambda i: b.val(K('LOAD_ID'), i, 'std::string'))
    s.post('base power', now('p_sbase'), b.val(K('CASE_SBASE')), 'o_bus->p_sbase')
    i = t.fresh('i', INT)
    live = lambda i: t.eq(b.val(K('GENERATOR_STAT'), i, 'int'), t.I(1))
    anyon = t.exists((i,), t.and_(t.le(t.I(0), i), t.lt(i, ng), live(i)))
    s.ensure('regulates when a generator of a PV bus is in service', lambda: t.eq(s.now(bus, 'p_isPV'), t.and_(t.eq(ty, t.I(2)), anyon)))
    any4 = t.or_(*[t.and_(t.lt(t.I(j), ng), live(t.I(j))) for j in range(4)])
    s.sampled('regulates', t.and_(t.eq(ty, t.I(2)), any4), 'o_bus->p_isPV')
    s.post('regulation remembered', now('p_saveisPV'), (lambda: None) if s.limited else s.now(bus, 'p_isPV'))
    last = t.fresh('last', INT)
    h = [t.le(t.I(0), last), t.lt(last, ng), live(last)]
    j = t.fresh('j', INT)
    h.append(t.forall((j,), t.implies(t.and_(t.lt(last, j), t.lt(j, ng)), t.not_(live(j)))))
    s.ensure('voltage setpoint of the last generator in service', lambda: t.implies(t.and_(*h), t.eq(s.now(bus, 'p_v'), b.val(K('GENERATOR_VS'), last))))
    s.ensure('voltage without generator', lambda: t.implies(t.not_(anyon), t.eq(s.now(bus, 'p_v'), b.val(K('BUS_VOLTAGE_MAG')))))
    w = b.val(K('BUS_VOLTAGE_MAG'))
    for q in range(4): w = t.ite(t.and_(t.lt(t.I(q), ng), live(t.I(q))), b.val(K('GENERATOR_VS'), t.I(q)), w)
    s.sampled('voltage', w, 'o_bus->p_v')
    s.post('angle', now('p_a'), b.val(K('BUS_VOLTAGE_ANG')) * t.PI / 180, 'o_bus->p_a')
    b2 = Bus(s, bus, False)
    s.post('exchanged magnitude', lambda: b2.V, s.now(bus, 'p_v') if not s.limited else None, '*o_bus->p_vMag_ptr - o_bus->p_v') if False else None
    exchanged_angle(s, b2, b.val(K('BUS_VOLTAGE_ANG')) * t.PI / 180)
    out.append(s)

    s = c.scen('PFBranch::load')
    br = s.obj('br', BR)
    ym.elems(s, 'br')
    b = ym.branch_bag(s)
    b.required |= {K('BRANCH_RATING_' + x) for x in 'ABC'}
    s.call(br, 'load', [b.arg()], cargs=b.name)
    at = lambda f, cls, leaf='': (lambda: s.ex.fld(s.st, br.ref, cls, f).l[leaf])
    def vec(f, want, cls=BR):
        nat = 'o_br->%s::%s' % (cls.split('::')[-1], f)
        s.post('size of %s %s' % (cls.split('::')[-1], f), at(f, cls, '#n'), b.n, '(int)%s.size()' % nat)
        s.post_each('%s %s' % (cls.split('::')[-1], f), b.n, lambda k: t.select(at(f, cls, '[]')(), k), want, nat)
    clamp = lambda x: t.ite(t.and_(t.lt(x, t.R(1e-5)), t.le(t.R(0), x)), t.R(1e-5), t.ite(t.and_(t.lt(t.R(-1e-5), x), t.lt(x, t.R(0))), t.R(-1e-5), x))
    for cls in (BR, YBR):
        s.post('number of elements ' + cls, at('p_elems', cls), b.n, 'o_br->%s::p_elems' % cls.split('::')[-1])
        for f, k in ym.BRKEYS.items():
            if f != 'p_reactance': vec(f, lambda i, k=k: b.val(K(k), i), cls)
        vec('p_reactance', lambda i, cls=cls: clamp(b.val(K('BRANCH_X'), i)) if cls == BR else b.val(K('BRANCH_X'), i), cls)
        vec('p_tap_ratio', b.tap, cls); vec('p_phase_shift', b.shift if cls == YBR else lambda i: -b.shift(i), cls)
        vec('p_xform', lambda i: t.ne(b.tap(i), t.R(0)), cls); vec('p_branch_status', b.on, cls)
        vec('p_ckt' if cls == BR else 'p_tag', lambda i: b.val(K('BRANCH_CKT'), i, 'std::string'), cls)
    vec('p_switched', b.sw, YBR)
    for x in 'ABC': vec('p_rate' + x, lambda i, x=x: b.val(K('BRANCH_RATING_' + x), i))
    s.post('base power', at('p_sbase', BR), b.val(K('CASE_SBASE')), 'o_br->p_sbase')
    st = K('BRANCH_STATUS')
    s.assume(allk(lambda i: t.implies(b.has(st, i, 'int'), t.or_(t.eq(b.val(st, i, 'int'), t.I(0)), t.eq(b.val(st, i, 'int'), t.I(1)))), b.n))
    i = t.fresh('i', INT)
    rng = t.and_(t.le(t.I(0), i), t.lt(i, b.n), b.on(i))
    s.ensure('takes part whenever an element is in service', lambda: t.implies(t.exists((i,), t.and_(rng, b.has(st, i, 'int'))), at('p_active', BR)()))
    s.sampled('takes part', t.TRUE, 'o_br->PFBranch::p_active', hyps=[t.or_(*[t.and_(t.lt(t.I(j), b.n), b.has(st, t.I(j), 'int'), b.on(t.I(j))) for j in range(4)])])
    out.append(s)

    s = c.scen('PFBranch::setBranchStatus')
    br = s.obj('br', BR); ym.elems(s, 'br')
    for cls in (BR, YBR):
        for f in ('p_branch_status', 'p_elems', 'p_active'): s.extra_fields.add(('br', f))
    s.gen('br', 'p_ckt', lambda r, sh: sh.setdefault('tags', [r.choice(['1 ', '2 ', '3 ', 'BL']) for i in range(sh.setdefault('nel', r.choice([0, 1, 1, 2, 3])))]))
    s.gen('br', 'p_tag', lambda r, sh: sh.setdefault('tags', [r.choice(['1 ', '2 ', '3 ', 'BL']) for i in range(sh.setdefault('nel', r.choice([0, 1, 1, 2, 3])))]))
    tag = s.input('tag', 'std::string', lambda r, sh: r.choice(['1 ', '2 ', '3 ', 'BL', '9 ']))
    on = s.input('on', 'bool', lambda r, sh: r.random() < .5)
    F = lambda cls, f, st=None: s.ex.fld(st or State(), br.ref, cls, f).l
    n = F(BR, 'p_branch_status')['#n']
    ck = F(BR, 'p_ckt')['[]']
    # both classes carry the same element list (load scenario)
    s.assume(t.le(t.I(0), n), t.eq(F(YBR, 'p_elems')[''], n), allk(lambda i: t.eq(t.select(F(YBR, 'p_tag')['[]'], i), t.select(ck, i)), n))
    idx = t.fresh('idx', INT)
    first = [t.le(t.I(0), idx), t.lt(idx, n), t.eq(t.select(ck, idx), tag.x), allk(lambda i: t.ne(t.select(ck, i), tag.x), idx)]
    none = [allk(lambda i: t.ne(t.select(ck, i), tag.x), n)]
    s.call(br, 'setBranchStatus', [tag, on], cargs='in_tag, in_on')
    for cls in (BR, YBR):
        sh_ = cls.split('::')[-1]
        a0 = F(cls, 'p_branch_status')['[]']
        s.post_each(sh_ + ': that element switched', n, lambda k: t.select(F(cls, 'p_branch_status', s.st)['[]'], k), lambda k: t.ite(t.eq(k, idx), on.x, t.select(a0, k)), hyps=first)
        s.post_each(sh_ + ': nothing switched', n, lambda k: t.select(F(cls, 'p_branch_status', s.st)['[]'], k), lambda k: t.select(a0, k), hyps=none)
        s.post(sh_ + ': takes part', lambda: F(cls, 'p_active', s.st)[''], t.or_(F(cls, 'p_active')[''], on.x), hyps=first)
        s.post(sh_ + ': participation kept', lambda: F(cls, 'p_active', s.st)[''], F(cls, 'p_active')[''], hyps=none)
        for q in range(3):
            before = t.or_(*([t.FALSE] + [t.eq(t.select(ck, t.I(j)), tag.x) for j in range(q)]))
            hit = t.and_(t.not_(before), t.eq(t.select(ck, t.I(q)), tag.x))
            s.sampled('%s element %d' % (sh_, q), t.ite(hit, on.x, t.select(a0, t.I(q))), '(%d < o_br->p_elems ? (bool)o_br->%s::p_branch_status[%d] : false)' % (q, sh_, q), hyps=[t.lt(t.I(q), n)])
    out.append(s)
    return out


def s_ybus(c):
    """the power-flow classes keep the admittances of the Y-matrix classes"""
    out = []
    s = c.scen('PFBus::setYBus', contracts={'YMBus::setYBus': lambda ex, st, this, args, e: None})
    bus = s.obj('bus', BUS)
    s.proof_only = True
    s.call(bus, 'setYBus', [])
    for f in ('p_ybusr', 'p_ybusi'):
        s.post(f, lambda f=f: s.ex.fld(s.st, bus.ref, BUS, f).l[''], s.ex.fld(State(), bus.ref, YBUS, f).l[''])
    out.append(s)
    s = c.scen('PFBranch::setYBus', contracts={'YMBranch::setYBus': lambda ex, st, this, args, e: None})
    br = s.obj('br', BR); b1, b2 = s.obj('b1', BUS), s.obj('b2', BUS)
    gens_bus(s, 'b1'); gens_bus(s, 'b2'); ends(s, br, b1, b2)
    s.proof_only = True
    s.call(br, 'setYBus', [])
    for f in ('p_ybusr_frwd', 'p_ybusi_frwd', 'p_ybusr_rvrs', 'p_ybusi_rvrs'):
        s.post(f, lambda f=f: s.ex.fld(s.st, br.ref, BR, f).l[''], s.ex.fld(State(), br.ref, YBR, f).l[''])
    out.append(s)
    return out


SCENARIOS += [s_load, s_ybus]
