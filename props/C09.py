"""Changes of the operating point: setting, scaling, switching and resetting generation and loads; outages and their
restoration; the solved state written back to the case."""
from props.pf import *
from props.bag import *
import props.C02 as c2

GF = ('p_pg', 'p_qg', 'p_pFac', 'p_qmax', 'p_qmin', 'p_gstatus', 'p_gid', 'p_savePg', 'p_pt', 'p_pb', 'p_qmax_orig', 'p_qmin_orig', 'p_pFac_orig')
LF = ('p_pl', 'p_ql', 'p_lstatus', 'p_lid', 'p_savePl', 'p_saveQl')
SF = ('p_v', 'p_a', 'p_voltage', 'p_angle', 'p_isPV', 'p_saveisPV', 'p_type', 'p_sbase', 'p_ngen', 'p_nload')
TAGS = ['1 ', '2 ', '3 ', 'G1', 'L1', '9 ']


class Item:
    """the first item of a bus with the given identifier"""
    def __init__(m, s, ids, n, tag):
        m.s, m.ids, m.n, m.tag = s, ids, n, tag
        m.idx = t.fresh('idx', INT)
        m.is_ = lambda i: t.eq(t.select(ids, t.lift(i, INT)), tag)
        m.first = [t.le(t.I(0), m.idx), t.lt(m.idx, n), m.is_(m.idx), allk(lambda i: t.not_(m.is_(i)), m.idx)]
        m.none = [allk(lambda i: t.not_(m.is_(i)), n)]

    def seen(m):
        """the search loop of the code stops exactly there: from here on talk about the index it found"""
        for K in list(m.s.ex.__dict__.get('exit_index', {}).values()) if m.s.limited is None else []:
            m.s.ensure('search finds the item', lambda: t.eq(K, m.idx), hyps=m.first)
            m.first = [t.subst(h, {m.idx: K}) for h in m.first]
            m.idx = K
            return

    def hit(m, q): return t.and_(m.is_(q), *[t.not_(m.is_(j)) for j in range(q)])

    def exists(m): return t.or_(*[t.and_(t.lt(t.I(q), m.n), m.is_(q)) for q in range(4)])


def prep(s, samples=None):
    bus = s.obj('bus', BUS); gens_bus(s, 'bus')
    b = Bus(s, bus)
    ng, nl = b.size('p_gid'), b.size('p_lid')
    s.assume(t.le(t.I(0), ng), t.le(t.I(0), nl), t.eq(b.x('p_ngen'), ng), t.eq(b.x('p_nload'), nl))
    for f in GF: s.assume(t.eq(b.size(f), ng))
    for f in LF: s.assume(t.eq(b.size(f), nl))
    for f in GF + LF + SF: s.extra_fields.add(('bus', f))
    s.gen('bus', 'p_type', lambda r, sh: r.choice([1, 2, 2, 3]))
    for f in ('p_qmax_orig', 'p_qmin_orig', 'p_pFac_orig'):
        s.gen('bus', f, lambda r, sh: [r.rv() for _ in range(sh.setdefault('ngen', r.choice([0, 1, 1, 2, 3])))])
    apart(s, bus)
    return bus, b, ng, nl


def frame(s, bus, b, change, n, label='', hyps=()):
    """fields named in change take the given values (function of the index, or a term); all others keep theirs"""
    b2 = Bus(s, bus, False)
    for f in GF + LF:
        m = n[0] if f in GF else n[1]
        if f in change and change[f] is None: continue
        w = change.get(f, lambda i, f=f: t.select(b.vec(f), i))
        s.post_each('%s%s' % (f, label), m, lambda k, f=f: t.select(b2.vec(f), k), w, None if hyps else 'o_bus->' + f, hyps=hyps)
        s.post('size of %s%s' % (f, label), lambda f=f: b2.size(f), m, None if hyps else '(int)o_bus->%s.size()' % f, hyps=hyps)
    for f in SF:
        if f in change and change[f] is None: continue
        w = change[f] if f in change else b.x(f)
        s.post('%s%s' % (f, label), lambda f=f: b2.x(f), w, None if hyps else 'o_bus->%s' % f, hyps=hyps)
    if label.endswith('found)') and s.limited is None: pass
    others(s, bus, set(GF + LF + SF) | set(change), label, hyps)


def others(s, bus, named, label, hyps=()):
    """every other field of the bus keeps its value"""
    if s.limited: return
    eqs = []
    try:
        for c, f in s.P.fields_all(s.P.types[BUS]):
            if f['name'] in named and c == BUS or s.P.kind(f['t']) not in ('scalar', 'str', 'complex'): continue
            o, n = s.ex.fld(State(), bus.ref, c, f['name']).l, s.ex.fld(s.st, bus.ref, c, f['name']).l
            eqs += [t.eq(n[k], o[k]) for k in o if k in n and n[k] is not o[k]]
    except (ToolLimit, KeyError, AttributeError, TypeError) as e: s.limit(str(e)); return
    s.ensure('the rest of the bus%s' % label, t.and_(*eqs), hyps=hyps)


def at_item(s, bus, b, it, change, n):
    """change holds for the first item with the identifier; nothing changes when there is none"""
    ch = {f: (lambda k, f=f: t.ite(t.eq(k, it.idx), change[f](k), t.select(b.vec(f), k))) if f in GF + LF else change[f] for f in change}
    frame(s, bus, b, ch, n, ' (item found)', it.first)
    frame(s, bus, b, {}, n, ' (no such item)', it.none)
    for f in change:
        if f in GF + LF:
            for q in range(3):
                w = t.ite(it.hit(q), change[f](t.I(q)), t.select(b.vec(f), t.I(q)))
                s.sampled('%s of item %d' % (f, q), w, '(%d < (int)o_bus->%s.size() ? o_bus->%s[%d] : %s)' % (q, f, f, q, '0'), hyps=[t.lt(t.I(q), it.n)])
    for f in GF + LF:
        if f not in change:
            s.sampled_each = None
            for q in range(3):
                s.sampled('%s of item %d kept' % (f, q), t.select(b.vec(f), t.I(q)), '(%d < (int)o_bus->%s.size() ? o_bus->%s[%d] : %s)' % (q, f, f, q, 'std::string()' if f in ('p_gid', 'p_lid') else '0'), hyps=[t.lt(t.I(q), n[0] if f in GF else n[1])])


def tagin(s): return s.input('tag', 'std::string', lambda r, sh: r.choice(TAGS))


def s_set(c):
    out = []
    # generator and load setpoints
    for what, fn, f, ids, K in (('generator', 'setGeneratorRealPower', 'p_pg', 'p_gid', 'GENERATOR_PG'), ('load', 'setLoadRealPower', 'p_pl', 'p_lid', 'LOAD_PL')):
        s = c.scen('PFBus::' + fn)
        bus, b, ng, nl = prep(s)
        tag = tagin(s); v = s.input('v', 'double')
        bag = Bag(s, sizes=(3,))
        it = Item(s, b.vec(ids), ng if what == 'generator' else nl, tag.x)
        s.call(bus, fn, [tag, v, bag.ref], cargs='in_tag, in_v, %s.get()' % bag.name)
        at_item(s, bus, b, it, {f: lambda k: v.x}, (ng, nl))
        k = t.fresh('k', INT)
        s.ensure('case data follow the setpoint', lambda: t.and_(t.eq(bag.val(key(K), it.idx, 'double', '', s.st), v.x), bag.has(key(K), it.idx, 'double', s.st)), hyps=it.first)
        s.ensure('other case data kept', lambda: t.implies(t.ne(k, it.idx), t.eq(bag.val(key(K), k, 'double', '', s.st), bag.val(key(K), k))), hyps=it.first)
        for q in range(3):
            s.sampled('case datum %d' % q, t.ite(it.hit(q), v.x, t.R(0)), '[&]{ double x=0; %s->getValue("%s", &x, %d); return x; }()' % (bag.name, key(K), q), hyps=[t.lt(t.I(q), it.n), it.hit(q)])
        out.append(s)
    # scaling of a generator towards its limits
    s = c.scen('PFBus::scaleGeneratorRealPower')
    bus, b, ng, nl = prep(s)
    tag = tagin(s); v = s.input('v', 'double', lambda r, sh: r.choice([0.0, r.uniform(-1, 1), r.uniform(0, 1), 1.0, -1.0]))
    ids, on = b.vec('p_gid'), b.vec('p_gstatus')
    it = Item(s, b.vec('p_gid'), ng, tag.x)
    it.is_ = lambda i: t.and_(t.eq(t.select(ids, t.lift(i, INT)), tag.x), t.ne(t.select(on, t.lift(i, INT)), t.I(0)))
    it.first = [t.le(t.I(0), it.idx), t.lt(it.idx, ng), it.is_(it.idx), allk(lambda i: t.not_(it.is_(i)), it.idx)]
    it.none = [allk(lambda i: t.not_(it.is_(i)), ng)]
    s.call(bus, 'scaleGeneratorRealPower', [tag, v], cargs='in_tag, in_v')
    pg, pt, pb = b.vec('p_pg'), b.vec('p_pt'), b.vec('p_pb')
    x = lambda k: t.select(pg, k) + t.ite(t.lt(t.R(0), v.x), v.x * (t.select(pt, k) - t.select(pg, k)), v.x * (t.select(pg, k) - t.select(pb, k)))
    at_item(s, bus, b, it, {'p_pg': x}, (ng, nl))
    out.append(s)
    # scaling of a load
    s = c.scen('PFBus::scaleLoadPower')
    bus, b, ng, nl = prep(s)
    tag = tagin(s); v = s.input('v', 'double')
    it = Item(s, b.vec('p_lid'), nl, tag.x)
    ids, on = b.vec('p_lid'), b.vec('p_lstatus')
    it.is_ = lambda i: t.and_(t.eq(t.select(ids, t.lift(i, INT)), tag.x), t.eq(t.select(on, t.lift(i, INT)), t.I(1)))
    it.first = [t.le(t.I(0), it.idx), t.lt(it.idx, nl), it.is_(it.idx), allk(lambda i: t.not_(it.is_(i)), it.idx)]
    it.none = [allk(lambda i: t.not_(it.is_(i)), nl)]
    s.call(bus, 'scaleLoadPower', [tag, v], cargs='in_tag, in_v')
    at_item(s, bus, b, it, {'p_pl': lambda k: v.x * t.select(b.vec('p_pl'), k), 'p_ql': lambda k: v.x * t.select(b.vec('p_ql'), k)}, (ng, nl))
    out.append(s)
    return out


def s_reset(c):
    s = c.scen('PFBus::resetPower')
    bus, b, ng, nl = prep(s)
    s.call(bus, 'resetPower', [])
    frame(s, bus, b, dict(p_pg=lambda k: t.select(b.vec('p_savePg'), k), p_pl=lambda k: t.select(b.vec('p_savePl'), k), p_ql=lambda k: t.select(b.vec('p_saveQl'), k),
                          p_v=b.x('p_voltage'), p_a=b.x('p_angle')), (ng, nl))
    b2 = Bus(s, bus, False)
    s.post('exchanged magnitude', lambda: b2.V, b.x('p_voltage'), '*o_bus->p_vMag_ptr')
    return s


def s_outage(c):
    """taking a generator out and putting it back"""
    out = []
    s = c.scen('PFBus::setGenStatus')
    bus, b, ng, nl = prep(s)
    tag = tagin(s); on = s.input('on', 'bool', lambda r, sh: r.random() < .5)
    it = Item(s, b.vec('p_gid'), ng, tag.x)
    s.call(bus, 'setGenStatus', [tag, on], cargs='in_tag, in_on')
    at_item(s, bus, b, it, dict(p_gstatus=lambda k: t.ite(on.x, t.I(1), t.I(0)), **{f: (lambda k, f=f: t.ite(on.x, t.select(b.vec(f + '_orig'), k), t.R(0))) for f in ('p_pFac', 'p_qmax', 'p_qmin')}), (ng, nl))
    out.append(s)

    s = c.scen('PFBus::getGenStatus; outage; restoration')
    bus, b, ng, nl = prep(s)
    tag = tagin(s)
    it = Item(s, b.vec('p_gid'), ng, tag.x)
    # state of a bus outside contingencies: a generator in service has its own limits and share, one out of service has none
    g0 = lambda f, k: t.select(b.vec(f), k)
    own = ('p_pFac', 'p_qmax', 'p_qmin')
    inv = lambda k: t.and_(t.or_(t.eq(g0('p_gstatus', k), t.I(0)), t.eq(g0('p_gstatus', k), t.I(1))),
             *[t.eq(g0(f, k), t.ite(t.eq(g0('p_gstatus', k), t.I(1)), g0(f + '_orig', k), t.R(0))) for f in own])
    s.assume(allk(inv, ng))
    for f in ('p_pFac', 'p_qmax', 'p_qmin'):
        s.gen('bus', f + '_orig', lambda r, sh, f=f: sh.setdefault(f + 'o', [r.rv() for _ in range(sh.setdefault('ngen', r.choice([0, 1, 1, 2, 3])))]))
        s.gen('bus', f, lambda r, sh, f=f: [x if y else 0.0 for x, y in zip(sh.setdefault(f + 'o', [r.rv() for _ in range(sh.setdefault('ngen', r.choice([0, 1, 1, 2, 3])))]), sh.setdefault('gst', [r.choice([0, 1, 1]) for _ in range(sh.setdefault('ngen', r.choice([0, 1, 1, 2, 3])))]))])
    s.gen('bus', 'p_gstatus', lambda r, sh: sh.setdefault('gst', [r.choice([0, 1, 1]) for _ in range(sh.setdefault('ngen', r.choice([0, 1, 1, 2, 3])))]))
    st = s.call(bus, 'getGenStatus', [tag], cargs='in_tag', ret='was')
    if st is not None:
        s.post('status reported', st.x, t.eq(g0('p_gstatus', it.idx), t.I(1)), hyps=it.first)
        s.post('status of an unknown generator', st.x, t.FALSE, hyps=it.none)
    w = t.FALSE
    for q in range(4): w = t.or_(w, t.and_(t.lt(t.I(q), ng), it.hit(q), t.eq(g0('p_gstatus', t.I(q)), t.I(1))))
    s.sampled('status reported', w, 'was')
    s.call(bus, 'setGenStatus', [tag, t.FALSE], cargs='in_tag, false')
    s.call(bus, 'setGenStatus', [tag, st if st is not None else t.FALSE], cargs='in_tag, was')
    it.seen()
    k = t.fresh('k', INT)
    b2 = Bus(s, bus, False)
    for f in own + ('p_gstatus',):
        s.ensure('%s restored (item found)' % f, lambda f=f: t.eq(t.select(b2.vec(f), k), t.select(b.vec(f), k)),
                 hyps=it.first + [t.le(t.I(0), k), t.lt(k, ng), inv(k), inv(it.idx)])
    change = {f: None for f in own + ('p_gstatus',)}
    frame(s, bus, b, change, (ng, nl), ' (item found)', it.first)
    frame(s, bus, b, {}, (ng, nl), ' (no such item)', it.none)
    for f in GF:
        if f != 'p_gid':
            for q in range(3): s.sampled('%s of item %d restored' % (f, q), t.select(b.vec(f), t.I(q)), '(%d < (int)o_bus->%s.size() ? o_bus->%s[%d] : 0)' % (q, f, f, q), hyps=[t.lt(t.I(q), ng)])
    out.append(s)

    # switching through the case data: regulation follows the generators in service
    s = c.scen('PFBus::setGeneratorStatus')
    bus, b, ng, nl = prep(s)
    tag = tagin(s); on = s.input('on', 'int', lambda r, sh: r.choice([0, 1]))
    s.assume(t.or_(t.eq(on.x, t.I(0)), t.eq(on.x, t.I(1))))
    bag = Bag(s, sizes=(3,))
    it = Item(s, b.vec('p_gid'), ng, tag.x)
    s.call(bus, 'setGeneratorStatus', [tag, on, bag.ref], cargs='in_tag, in_on, %s.get()' % bag.name)
    off = t.eq(on.x, t.I(0))
    keep = lambda f: (lambda k: t.ite(off, t.R(0), t.select(b.vec(f), k)))
    live = lambda k: t.ne(t.ite(t.eq(k, it.idx), on.x, t.select(b.vec('p_gstatus'), k)), t.I(0))
    i = t.fresh('i', INT)
    some = t.exists((i,), t.and_(t.le(t.I(0), i), t.lt(i, ng), live(i)))
    change = dict(p_gstatus=lambda k: on.x, p_pg=keep('p_pg'), p_qg=keep('p_qg'), p_isPV=None, p_saveisPV=None, p_v=None)
    ch = {f: (lambda k, f=f: t.ite(t.eq(k, it.idx), change[f](k), t.select(b.vec(f), k))) if f in GF + LF else None for f in change}
    frame(s, bus, b, ch, (ng, nl), ' (item found)', it.first)
    frame(s, bus, b, {}, (ng, nl), ' (no such item)', it.none)
    b2 = Bus(s, bus, False)
    s.ensure('regulates while a generator of a PV bus is in service', lambda: t.eq(b2.x('p_isPV'), t.and_(t.eq(b.x('p_type'), t.I(2)), some)), hyps=it.first)
    liveq = lambda q: t.and_(t.lt(t.I(q), ng), t.ne(t.ite(it.hit(q), on.x, t.select(b.vec('p_gstatus'), t.I(q))), t.I(0)))
    s.sampled('regulates', t.and_(t.eq(b.x('p_type'), t.I(2)), t.or_(*[liveq(q) for q in range(4)])), 'o_bus->p_isPV', hyps=[it.exists()])
    for f in ('p_gstatus', 'p_pg', 'p_qg'):
        for q in range(3):
            s.sampled('%s of item %d' % (f, q), t.ite(it.hit(q), change[f](t.I(q)), t.select(b.vec(f), t.I(q))), '(%d < (int)o_bus->%s.size() ? o_bus->%s[%d] : 0)' % (q, f, f, q), hyps=[t.lt(t.I(q), ng)])
    out.append(s)

    for fn in ('setIsPV',):
        s = c.scen('PFBus::setIsPV; resetIsPV')
        bus, b, ng, nl = prep(s)
        pv = s.input('pv', 'int', lambda r, sh: r.choice([0, 1]))
        s.assume(t.or_(t.eq(pv.x, t.I(0)), t.eq(pv.x, t.I(1))))
        s.assume(t.ne(b.f('p_PV_ptr').l['^b'], t.I(0)))
        s.call(bus, 'setIsPV', [pv], cargs='in_pv')
        b2 = Bus(s, bus, False)
        s.post('regulation', lambda: b2.x('p_isPV'), t.eq(pv.x, t.I(1)), 'o_bus->p_isPV')
        s.post('exchanged regulation', lambda: b2.ptr('p_PV_ptr', 'bool'), t.eq(pv.x, t.I(1)), '*o_bus->p_PV_ptr')
        s.call(bus, 'resetIsPV', [])
        s.post('regulation restored', lambda: b2.x('p_isPV') if False else Bus(s, bus, False).x('p_isPV'), b.x('p_isPV'), 'o_bus->p_isPV')
        s.post('exchanged regulation restored', lambda: Bus(s, bus, False).ptr('p_PV_ptr', 'bool'), b.x('p_isPV'), '*o_bus->p_PV_ptr')
        out.append(s)
    return out


def pi(): return t.mul(t.R(4), t.app('atan', (t.R(1),), REAL))


def s_save(c):
    """the solved state is written back to the case data"""
    out = []
    for fn in ('saveData', 'saveDataAlsotoOrg'):
        for kind in ('load', 'PV', 'reference'):
            s = c.scen('PFBus::%s %s bus' % (fn, kind), contracts=c2.CON)
            bus, oth, f = c2.network(s)
            b = coupled(s, bus)
            ng, nl = b.size('p_pFac'), b.size('p_pl')
            s.assume(t.le(t.I(0), ng), t.le(t.I(0), nl), t.eq(b.size('p_lstatus'), nl), t.eq(b.size('p_ql'), nl), t.eq(b.size('p_pg'), ng), t.eq(b.size('p_qg'), ng), t.lt(t.R(0), b.x('p_sbase')))
            s.call(bus, 'setReferenceBus', [t.B(kind == 'reference')], cargs='true' if kind == 'reference' else 'false')
            s.put(bus, 'p_isolated', False)
            s.put(bus, 'p_isPV', kind == 'PV')
            bag = Bag(s, sizes=(3,))
            s.call(bus, fn, [bag.byval()], cargs=bag.name)
            w0 = None
            if kind == 'reference':
                w0 = c2.injection(s, bus)
                b2 = Bus(s, bus, False)
                s.post('real injection', lambda: b2.x('p_Pinj'), w0.re, 'o_bus->p_Pinj')
                s.post('reactive injection', lambda: b2.x('p_Qinj'), w0.im, 'o_bus->p_Qinj')
                w = Cx(b2.x('p_Pinj'), b2.x('p_Qinj')) if s.limited is None else w0
            else: w = Cx(b.x('p_Pinj'), b.x('p_Qinj'))
            on = lambda i: t.eq(t.select(b.vec('p_lstatus'), i), t.I(1))
            tot = lambda v: csum(lambda i: t.ite(on(i), t.select(b.vec(v), i), t.R(0)), nl)
            sb = b.x('p_sbase')
            bag.post('magnitude', 'BUS_PF_VMAG', b.V)
            bag.post('angle in degrees', 'BUS_PF_VANG', t.div(t.mul(t.R(180), b.A), pi()))
            bag.post('type', 'BUS_TYPE', b.x('p_type'), ct='int')
            org = fn != 'saveData'
            if org:
                bag.post('case magnitude', key('BUS_VOLTAGE_MAG'), b.V, present=bag.has(key('BUS_VOLTAGE_MAG')), hyps=[bag.has(key('BUS_VOLTAGE_MAG'))])
                bag.post('case angle', key('BUS_VOLTAGE_ANG'), t.div(t.mul(t.R(180), b.A), pi()), present=bag.has(key('BUS_VOLTAGE_ANG')), hyps=[bag.has(key('BUS_VOLTAGE_ANG'))])
            share = lambda k: t.select(b.vec('p_pFac'), k)
            P = lambda k: share(k) * (w.re + tot('p_pl') / sb)
            Q = lambda k: share(k) * (w.im + tot('p_ql') / sb)
            if not org and kind != 'reference': P = lambda k: t.select(b.vec('p_pg'), k) / sb
            if not org and kind == 'load': Q = lambda k: t.select(b.vec('p_qg'), k) / sb
            PS = (lambda k: share(k) * (w0.re + tot('p_pl') / sb)) if w0 else P
            QS = (lambda k: share(k) * (w0.im + tot('p_ql') / sb)) if w0 else Q
            k = t.fresh('k', INT)
            rng = [t.le(t.I(0), k), t.lt(k, ng)]
            for nm, K, W, WS in (('real power', 'GENERATOR_PF_PGEN', P, PS), ('reactive power', 'GENERATOR_PF_QGEN', Q, QS)):
                s.post('%s of the generators' % nm, lambda K=K: bag.val(K, k, st=s.st), W(k), hyps=rng)
                s.post('%s of the generators is stored' % nm, lambda K=K: bag.has(K, k, 'double', s.st), t.TRUE, hyps=rng)
                for q in range(2):
                    s.sampled('%s of generator %d' % (nm, q), WS(t.I(q)), '[&]{ double x=-1e300; %s->getValue("%s", &x, %d); return x; }()' % (bag.name, K, q), hyps=[t.lt(t.I(q), ng)])
            if org:
                for nm, K, W, WS in (('real power', key('GENERATOR_PG'), P, PS), ('reactive power', key('GENERATOR_QG'), Q, QS)):
                    had = bag.has(K, k)
                    s.post('case %s of the generators' % nm, lambda K=K: bag.val(K, k, st=s.st), sb * W(k), hyps=rng + [had])
                    for q in range(2):
                        s.sampled('case %s of generator %d' % (nm, q), sb * WS(t.I(q)), '[&]{ double x=-1e300; %s->getValue("%s", &x, %d); return x; }()' % (bag.name, K, q), hyps=[t.lt(t.I(q), ng), bag.has(K, t.I(q))])
            out.append(s)
    return out


def s_lists(c):
    """what the analyses read: margins, loads, margins of participation"""
    out = []
    def vecs(s, spec):
        lvs = {}
        for nm, ct in spec:
            lv = lvs[nm] = s.outvar(nm, 'std::vector<%s>' % ct)
            ty = lv[0][1].ty
            s.ex.write(s.st, lv[0][1], Val(ty, {l: (t.fresh('n', INT) if l == '#n' else t.fresh(nm, so)) for l, so in s.P.leaves(ty)}))
        return lvs
    for fn, spec, src in (('getGeneratorMargins', (('tag', 'std::string'), ('cur', 'double'), ('lo', 'double'), ('hi', 'double'), ('on', 'int')), ('p_gid', 'p_savePg', 'p_pb', 'p_pt', 'p_gstatus')),
                          ('getLoadPower', (('tag', 'std::string'), ('pl', 'double'), ('ql', 'double'), ('on', 'int')), ('p_lid', 'p_savePl', 'p_saveQl', 'p_lstatus'))):
        s = c.scen('PFBus::' + fn)
        bus, b, ng, nl = prep(s)
        lv = vecs(s, spec)
        s.call(bus, fn, [lv[nm] for nm, ct in spec], cargs=', '.join(nm for nm, ct in spec))
        for (nm, ct), f in zip(spec, src):
            k = t.fresh('k', INT)
            n = ng if fn.startswith('getG') else nl
            s.post('number of %s' % nm, lambda nm=nm: s.outval(lv[nm], '#n'), n, '(int)%s.size()' % nm)
            s.post('list %s' % nm, lambda nm=nm: t.select(s.outval(lv[nm], '[]'), k), t.select(b.vec(f), k), hyps=[t.le(t.I(0), k), t.lt(k, n)])
            for q in range(3):
                s.sampled('%s %d' % (nm, q), t.select(b.vec(f), t.I(q)), '(%d < (int)%s.size() ? %s[%d] : %s)' % (q, nm, nm, q, 'std::string()' if ct == 'std::string' else '0'), hyps=[t.lt(t.I(q), n)])
        out.append(s)
    return out


def s_param(c):
    out = []
    # parameters by name: every generator with the identifier
    for m in ('set', 'shift'):
        s = c.scen('PFBus::setParam' if m == 'set' else 'PFBus::setParam (shift)')
        bus, b, ng, nl = prep(s)
        tag = tagin(s); v = s.input('v', 'double'); at = s.input('at', 'int', lambda r, sh: r.choice([7, 7, 7, 8]))
        s.gen('bus', 'p_originalIndex', lambda r, sh: 7)
        mine = t.eq(at.x, s.old(bus, 'p_originalIndex'))
        if m == 'set':
            nm = s.input('nm', 'std::string', lambda r, sh: r.choice([key('GENERATOR_PG'), key('GENERATOR_QG'), 'LOAD_PL']))
            s.call(bus, 'setParam', [nm, at, tag, v], cargs='in_nm, in_at, in_tag, in_v')
            hit = lambda k, K: t.and_(mine, t.eq(nm.x, t.S(key(K))), t.eq(t.select(b.vec('p_gid'), k), tag.x))
            ch = dict(p_pg=lambda k: t.ite(hit(k, 'GENERATOR_PG'), v.x, t.select(b.vec('p_pg'), k)), p_qg=lambda k: t.ite(hit(k, 'GENERATOR_QG'), v.x, t.select(b.vec('p_qg'), k)))
        else:
            s.call(bus, 'setParam', [at, tag, v], cargs='in_at, in_tag, in_v', nparams=3)
            ch = dict(p_pg=lambda k: t.select(b.vec('p_pg'), k) + t.ite(t.and_(mine, t.eq(t.select(b.vec('p_gid'), k), tag.x)), v.x, t.R(0)))
        frame(s, bus, b, ch, (ng, nl))
        out.append(s)
    return out


SCENARIOS = [s_set, s_reset, s_outage, s_save, s_lists, s_param]
