"""Reactive limits: PV bus whose generators cannot supply the reactive power becomes PQ at the limit, and can be put back."""
from props.pf import *

GV = ('p_pg', 'p_qg', 'p_qmax', 'p_qmin')
LV = ('p_pl', 'p_ql')


def prep(s):
    bus = s.obj('bus', BUS)
    gens_bus(s, 'bus')
    b = Bus(s, bus)
    s.assume(t.lt(t.R(0), b.x('p_sbase')), t.le(t.I(0), b.size('p_gstatus')), t.le(t.I(0), b.size('p_lstatus')))
    for v in GV: s.assume(t.eq(b.size(v), b.size('p_gstatus')))
    for v in LV: s.assume(t.eq(b.size(v), b.size('p_lstatus')))
    # sampled generators have qmin <= qmax, injections around the limits
    s.gen('bus', 'p_Qinj', lambda r, sh: r.choice([r.rv(), r.rv() * 3, -r.pos()]))
    s.gen('bus', 'p_qlim_fixed', lambda r, sh: False)
    s.call(bus, 'setReferenceBus', [t.FALSE], cargs='false')
    s.native('o_bus->p_PV_ptr = new bool(o_bus->p_isPV);')
    return bus, b


def inv(s, b):
    """a bus that still regulates its voltage is not held at a limit"""
    if s.P.owner(BUS, 'p_qlim_fixed'): s.assume(t.not_(b.x('p_qlim_fixed')))


def tot(s, b, v, stt, st=None):
    return csum(lambda i: t.ite(t.eq(t.select(b.vec(stt), i), t.I(1)), t.select(b.vec(v), i), t.R(0)), b.size(stt))


def unchanged(s, bus, b, names, sizes=True):
    b2 = Bus(s, bus, False)
    for v in names:
        if sizes: s.post('%s: same length' % v, lambda v=v: b2.size(v), b.size(v), native='o_bus->%s.size()' % v)
        s.post_each('%s unchanged' % v, b.size(v), lambda k, v=v: t.select(b2.vec(v), k), lambda k, v=v: t.select(b.vec(v), k), native='o_bus->%s' % v)


def s_chk(c):
    s = c.scen('PFBus::chkQlim')
    bus, b = prep(s)
    inv(s, b)
    r = s.call(bus, 'chkQlim', [], ret='r')
    b2 = Bus(s, bus, False)
    need = b.x('p_Qinj') * b.x('p_sbase') + tot(s, b, 'p_ql', 'p_lstatus')
    qmax, qmin = tot(s, b, 'p_qmax', 'p_gstatus'), tot(s, b, 'p_qmin', 'p_gstatus')
    pv = b.x('p_isPV')
    over, under = t.and_(pv, t.lt(qmax, need)), t.and_(pv, t.lt(need, qmin), t.not_(t.lt(qmax, need)))
    s.post('reports a violation exactly when the limits cannot supply the bus', r.x if r else None, t.or_(over, under), native='r')
    s.post('bus stops regulating', lambda: b2.x('p_isPV'), t.and_(pv, t.not_(t.or_(over, under))), native='o_bus->p_isPV')
    unchanged(s, bus, b, ('p_gstatus', 'p_lstatus', 'p_pg', 'p_pl', 'p_ql', 'p_qmax', 'p_qmin'))
    s.call(bus, 'setSBus', [])
    P = (tot(s, b, 'p_pg', 'p_gstatus') - tot(s, b, 'p_pl', 'p_lstatus')) / b.x('p_sbase')
    ql = tot(s, b, 'p_ql', 'p_lstatus')
    s.post('real power schedule is kept', lambda: s.now(bus, 'p_P0'), P, native='o_bus->p_P0')
    for what, hyp, q in (('held at the upper limits', over, qmax), ('held at the lower limits', under, qmin), ('as scheduled', t.not_(t.or_(over, under)), tot(s, b, 'p_qg', 'p_gstatus'))):
        s.post('reactive generation ' + what, lambda: s.now(bus, 'p_Q0'), (q - ql) / b.x('p_sbase'), native='o_bus->p_Q0', hyps=[hyp])
    return s


def s_restore(c):
    """any number of checks followed by a clear puts the bus back"""
    out = []
    for seq in (('chkQlim', 'clearQlim'), ('chkQlim', 'chkQlim', 'clearQlim'), ('clearQlim',), ('chkQlim', 'clearQlim', 'clearQlim')):
        s = c.scen('PFBus ' + '; '.join(seq))
        bus, b = prep(s)
        inv(s, b)
        for m in seq: s.call(bus, m, [])
        b2 = Bus(s, bus, False)
        s.post('regulation restored', lambda: b2.x('p_isPV'), b.x('p_isPV'), native='o_bus->p_isPV')
        unchanged(s, bus, b, ('p_gstatus', 'p_lstatus', 'p_pg', 'p_qg', 'p_pl', 'p_ql', 'p_qmax', 'p_qmin'))
        s.call(bus, 'setSBus', [])
        s.post('real power schedule', lambda: s.now(bus, 'p_P0'), (tot(s, b, 'p_pg', 'p_gstatus') - tot(s, b, 'p_pl', 'p_lstatus')) / b.x('p_sbase'), native='o_bus->p_P0')
        s.post('reactive schedule', lambda: s.now(bus, 'p_Q0'), (tot(s, b, 'p_qg', 'p_gstatus') - tot(s, b, 'p_ql', 'p_lstatus')) / b.x('p_sbase'), native='o_bus->p_Q0')
        if s.P.owner(BUS, 'p_qlim_fixed'):
            s.ensure('a regulating bus is not held at a limit', lambda: t.not_(b2.x('p_qlim_fixed')))
        out.append(s)
    return out


SCENARIOS = [s_chk, s_restore]
