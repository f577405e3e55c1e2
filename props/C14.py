"""Power-flow network: the checks and the dispatch of all buses and branches, for networks of any size."""
import os
from fractions import Fraction
from props.common import *
from props.bag import key

GHOST = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
PFM = 'applications/modules/powerflow/pf_factory_module.cpp'
PFC = COMP + 'pf_matrix/pf_components.cpp'
YMC = COMP + 'y_matrix/ymatrix_components.cpp'
INCS = [GHOST]
DST = 'parallel/distributed.cpp'
SOURCES = [PFM, PFC, YMC, DST] + BASE_SRC + [dict(src=GHOST + '/net_ghosts.cpp', keep='/repo/src/|' + GHOST)]
NATIVE = dict(srcs=[PFM, PFC, YMC, DST, GHOST + '/net_ghosts.cpp', GHOST + '/net_native.cpp', 'configuration/no_print.cpp'] + NAT_BASE, headers=[GHOST + '/net_ghosts.hpp'], incs=INCS,
              libs=['-Wl,--unresolved-symbols=ignore-all'], pre='#include "net_native.hpp"\nusing namespace gridpack::powerflow;')
ZERO, ONE = t.R(0), t.R(1)
BASEFAC = 'BaseFactory<gridpack::network::BaseNetwork<gridpack::powerflow::PFBus, gridpack::powerflow::PFBranch>>'


class N:
    """a network of any size seen by one of any number of processes, and the factory working on it"""
    def __init__(q, c, name, safety=False, buses=True, branches=False):
        q.s = s = c.scen(name, safety=safety)
        q.net, q.fac = s.obj('net', 'GhostNet'), s.obj('fac', 'GhostFactory')
        s.link(q.fac, 'p_network', q.net)
        for b in s.P.bases(q.fac.cls):
            if 'BaseFactory<' in b: s.ex.setfld(s.st, q.fac.ref, b, 'p_network', {'': q.net.ref})
        q.buses = s.family('B', 'PFBus', 4)
        q.procs, q.others, q.me = s.input('procs', 'int', lambda r, sh: sh.setdefault('procs', r.choice([1, 1, 2, 3]))), s.input('others', 'int', lambda r, sh: sh['procs'] - 1 - (r.random() < .3 and sh['procs'] > 1)), s.input('me', 'int', lambda r, sh: 0)
        s.native('g_procs = in_procs; g_others = in_others < in_procs ? in_others : in_procs-1; g_me = in_me;')
        s.assume(t.le(t.I(1), q.procs.x), t.le(t.I(0), q.others.x), t.lt(q.others.x, q.procs.x))
        q.contracts()
        if buses:
            s.links.append((q.net, 'p_buses.p_bus', q.buses))
            def gb(r, sh):
                n = r.randrange(0, 5)
                return [dict(p_activeBus=r.random() < .7, p_originalBusIndex=r.randrange(1, 9), p_globalBusIndex=i, p_branchNeighbors=[], p_bus=q.buses.base + i, p_data=0, p_refFlag=False) for i in range(n)]
            s.gen(q.net, 'p_buses', gb)
            a = q.nb('[].p_bus')
            s.ex.distinct.add(a); t.INJECTIVE.add(a)
            s.assume(t.le(t.I(0), q.nb('#n')))
            s.skip_fields.discard('p_buses')
        if branches:
            q.branches = s.family('L', 'PFBranch', 4)
            s.links.append((q.net, 'p_branches.p_branch', q.branches))
            def gl(r, sh):
                n = r.randrange(0, 5)
                return [dict(p_activeBranch=r.random() < .7, p_globalBranchIndex=i, p_originalBusIndex1=r.randrange(1, 9), p_originalBusIndex2=r.randrange(1, 9), p_globalBusIndex1=0, p_globalBusIndex2=0,
                             p_localBusIndex1=0, p_localBusIndex2=0, p_branch=q.branches.base + i, p_data=i) for i in range(n)]
            s.gen(q.net, 'p_branches', gl)
            a = q.bl('[].p_branch')
            s.ex.distinct.add(a); t.INJECTIVE.add(a)
            s.assume(t.le(t.I(0), q.bl('#n')))
            s.skip_fields.discard('p_branches')

    def nb(q, leaf): return q.s.old(q.net, 'p_buses', leaf)
    def nbus(q): return q.nb('#n')
    def active(q, i): return t.select(q.nb('[].p_activeBus'), i)
    def bus(q, i, f, leaf='', old=True): return q.s.at('PFBus', t.select(q.nb('[].p_bus'), i), f, leaf, old=old)

    def contracts(q):
        s = q.s
        def group(ex, st, this, args, e): return Val(e['t'], {'': t.I(7)})
        def nnodes(ex, st, this, args, e): return Val(e['t'], {'': q.procs.x})
        def nodeid(ex, st, this, args, e): return Val(e['t'], {'': q.me.x})
        s.ex.contracts.update({'Communicator::getGroup': group, 'GA_Pgroup_nnodes': nnodes, 'GA_Pgroup_nodeid': nodeid, 'GA_Pgroup_igop': q.igop})

    def ref(q, i): return t.select(q.nb('[].p_bus'), i)
    def bl(q, leaf): return q.s.old(q.net, 'p_branches', leaf)
    def nbranch(q): return q.bl('#n')
    def brref(q, i): return t.select(q.bl('[].p_branch'), i)
    def active_branch(q, i): return t.select(q.bl('[].p_activeBranch'), i)
    def br(q, i, f, leaf='', old=True): return q.s.at('PFBranch', q.brref(i), f, leaf, old=old)

    def origidx(q, i): return q.s.at('BaseBusComponent', t.select(q.nb('[].p_bus'), i), 'p_originalIndex', '')

    def igop(q, ex, st, this, args, e):
        """sum over the processes: one integer; the others contribute q.others"""
        p, n, op = ex.ev(args[1], st), ex.ev(args[2], st).x, ex.ev(args[3], st).x
        ex.oblige(st, 'pre', 'sum of one integer', e.get('l'), t.and_(t.eq(n, t.I(1)), t.eq(op, t.S('+'))))
        l = ex.deref(p, args[1]['t'])
        v = ex.readg(st, l)
        ex.writeg(st, l, Val(v.ty, {'': v.x + q.others.x}))
        return Val(e['t'], {'': t.I(0)})

    def world(q, b):
        """true on every process"""
        return t.and_(b, t.eq(q.others.x, q.procs.x - t.I(1)))


def mem(s, v, **k): return s.ex.rawget(State(), ('M', 'double', 'mem'), v, '', REAL)


def volt(q, i): return mem(q.s, (q.bus(i, 'p_vMag_ptr', '^b'), q.bus(i, 'p_vMag_ptr', '^o')))
def inside(q, i): return t.and_(t.le(q.bus(i, 'p_vmin'), volt(q, i)), t.le(volt(q, i), q.bus(i, 'p_vmax')))


def voltage(q, area):
    """checkVoltageViolations: verdict and records"""
    s = q.s
    a = s.input('area', 'int', lambda r, sh: r.randrange(0, 3)) if area else None
    r = s.call(q.fac, 'checkVoltageViolations', [a] if area else [], 'in_area' if area else '', ret='r', nparams=len([a] if area else []))
    bad = lambda i: t.and_(q.active(i), t.not_(q.bus(i, 'p_ignore')), t.eq(q.bus(i, 'p_area'), a.x) if area else t.TRUE, t.not_(inside(q, i)))
    s.post('true iff every active bus that counts is inside its limits on every process', r.x if r else None, q.world(allk(lambda i: t.not_(bad(i)), q.nbus())), native='r')
    old, now = (lambda l: s.old(q.fac, 'p_violations', l)), (lambda l: s.now(q.fac, 'p_violations', l))
    one = lambda i: t.ite(bad(i), t.I(1), t.I(0))
    cnt = lambda i: csum(one, i)
    at = lambda i: old('#n') + cnt(i)
    s.post('as many records as buses in violation', now('#n'), at(q.nbus()), native='(int)o_fac->p_violations.size()')
    idx = lambda i: t.select(q.nb('[].p_bus'), i)
    s.post_each('each bus in violation has its record', q.nbus(), lambda i: t.ite(bad(i), t.select(now('[].bus1'), at(i)), t.I(0)), lambda i: t.ite(bad(i), q.origidx(i), t.I(0)))
    flag = lambda i: t.ite(bad(i), t.ite(t.and_(t.select(now('[].bus_violation'), at(i)), t.not_(t.select(now('[].line_violation'), at(i)))), t.I(1), t.I(0)), t.I(1))
    s.post_each('and it says that it is of a bus', q.nbus(), flag, lambda i: t.I(1))
    s.post_each('and it names no second bus', q.nbus(), lambda i: t.ite(bad(i), t.select(now('[].bus2'), at(i)), t.I(-1)), lambda i: t.I(-1))
    return s


def s_voltage(c): return [voltage(N(c, 'PFFactoryModule::checkVoltageViolations'), False), voltage(N(c, 'PFFactoryModule::checkVoltageViolations(area)'), True)]


def each_bus(q, label, field, want, leaf='', native=None):
    """the field of every bus of the network; natively the vector over the buses of the network"""
    s = q.s
    nat = '[&]{ std::vector<double> v; for (auto &d : o_net->p_buses) v.push_back(%s); return v; }()' % (native or 'd.p_bus->%s' % field)
    s.post_each(label, q.nbus(), lambda i: q.bus(i, field, leaf, old=False), want, native=nat)


def s_ignore(c):
    out = []
    q = N(c, 'PFFactoryModule::ignoreVoltageViolations'); q.s.call(q.fac, 'ignoreVoltageViolations')
    each_bus(q, 'exactly the active buses outside their limits are ignored from now on', 'p_ignore', lambda i, q=q: t.or_(t.and_(q.active(i), t.not_(inside(q, i))), q.bus(i, 'p_ignore')))
    out.append(q.s)
    q = N(c, 'PFFactoryModule::clearVoltageViolations'); q.s.call(q.fac, 'clearVoltageViolations')
    each_bus(q, 'every active bus counts again', 'p_ignore', lambda i, q=q: t.and_(t.not_(q.active(i)), q.bus(i, 'p_ignore')))
    out.append(q.s)
    q = N(c, 'PFFactoryModule::setVoltageLimits'); s = q.s
    a, b = s.input('lo', 'double', lambda r, sh: r.pos()), s.input('hi', 'double', lambda r, sh: r.pos())
    s.call(q.fac, 'setVoltageLimits', [a, b], 'in_lo, in_hi')
    each_bus(q, 'lower limit of every bus', 'p_vmin', lambda i: a.x)
    each_bus(q, 'upper limit of every bus', 'p_vmax', lambda i: b.x)
    out.append(s)
    q = N(c, 'PFFactoryModule::resetVoltages'); s = q.s
    s.call(q.fac, 'resetVoltages')
    each_bus(q, 'every active bus starts from its initial voltage', 'p_v', lambda i, q=q: t.ite(q.active(i), q.bus(i, 'p_voltage'), q.bus(i, 'p_v')))
    each_bus(q, 'every active bus starts from its initial angle', 'p_a', lambda i, q=q: t.ite(q.active(i), q.bus(i, 'p_angle'), q.bus(i, 'p_a')))
    out.append(s)
    return out


def in_zone(q, i, area, zone): return t.and_(t.eq(q.bus(i, 'p_area'), area), t.or_(t.le(zone, t.I(0)), t.eq(q.bus(i, 'p_zone'), zone)))


def az(s, *names): return [s.input(n, 'int', lambda r, sh: r.randrange(-1, 3)) for n in names]


def s_rtpr(c):
    q = N(c, 'PFFactoryModule::setRTPRParams'); s = q.s
    sa, sz, la, lz = az(s, 'sa', 'sz', 'la', 'lz')
    gs, ls = s.input('gs', 'double', lambda r, sh: r.pos()), s.input('ls', 'double', lambda r, sh: r.pos())
    s.call(q.fac, 'setRTPRParams', [sa, sz, la, lz, gs, ls], 'in_sa, in_sz, in_la, in_lz, in_gs, in_ls')
    src, snk = (lambda i: in_zone(q, i, sa.x, sz.x)), (lambda i: in_zone(q, i, la.x, lz.x))
    each_bus(q, 'the buses of the source area are sources', 'p_source', src)
    each_bus(q, 'the buses of the sink area are sinks', 'p_sink', snk)
    each_bus(q, 'every bus scales by the factor of its role', 'p_rtpr_scale', lambda i: t.ite(snk(i), ls.x, t.ite(src(i), gs.x, ONE)))
    return s


# ---- which component gets which call -------------------------------------------------------------------------------------
def counter(ex, st, what, ref): return ex.rawget(st, ('H', 'PFBus'), (ref,), '.!' + what, INT)
def bump(ex, st, what, ref): ex.rawset(st, ('H', 'PFBus'), (ref,), '.!' + what, INT, counter(ex, st, what, ref) + t.I(1))


class Calls:
    """contracts that count the calls a component gets (and oblige their arguments)"""
    def __init__(k, q, ybus=False, exch=False):
        k.q, k.s = q, q.s
        k.s.input('seed', 'int', lambda r, sh: r.randrange(1, 1 << 20))
        k.s.native('g_fillbus(o_net.get(), f_B, %s, in_seed); GCopies was = g_copies(o_net.get());' % ('&f_L' if ybus else '0') + (' g_exchange(o_net.get(), in_seed);' if exch else ''))

    def native(k, each='', area=None, check=None, ybus=False):
        """natively: what the same calls do to copies of the buses (d.p_activeBus, b)"""
        s = k.s
        if ybus: nat = 'g_ybus(o_net.get())'
        elif check is not None: nat = 'g_qlim(o_net.get(), was, %s, %s, %s)' % (area or '-99', 'true' if check else 'false', 'r' if check else 'true')
        else: nat = '[&]{ for (int i = 0; i < (int)was.size(); i++) { PFB &b = *was[i]; auto &d = o_net->p_buses[i]; (void)d; %s; } return g_equal(o_net.get(), was); }()' % each
        s.sampled('each bus is what these calls make of it', t.TRUE, native='(bool)' + nat)

    def on(k, key, what, args=(), order=None, ret=None):
        def con(ex, st, this, a, e):
            ref = this[0][1].ref
            for n, want in args:
                v = ex.ev(a[n], st)
                ex.oblige(st, 'pre', 'argument %d of %s' % (n, key), e.get('l'), t.eq(v.l[''], want))
            if order is not None: ex.oblige(st, 'pre', 'order of %s' % key, e.get('l'), order(st))
            bump(ex, st, what, ref)
            return Val(e['t'], {'': ret(ref)} if ret else {})
        k.s.ex.contracts[key] = con

    def n(k, what, ref, st=None): return counter(k.s.ex, st or k.s.st, what, ref)
    def once(k, label, what, cnt, ref, when=lambda i: t.TRUE):
        k.s.post_each(label, cnt, lambda i: k.n(what, ref(i)), lambda i: k.n(what, ref(i), State()) + t.ite(when(i), t.I(1), t.I(0)))


def s_setup(c):
    out = []
    q = N(c, 'PFFactoryModule::setYBus', branches=True); s = q.s; k = Calls(q, ybus=True)
    k.on('PFBranch::setYBus', 'br')
    k.on('PFBus::setYBus', 'bus')
    s.call(q.fac, 'setYBus')
    k.once('every branch computes its admittances once', 'br', q.nbranch(), q.brref)
    k.once('every bus sums up its own once', 'bus', q.nbus(), q.ref)
    k.native(ybus=True)
    out.append(s)
    q = N(c, 'PFFactoryModule::setSBus'); k = Calls(q)
    k.on('PFBus::setSBus', 'bus')
    q.s.call(q.fac, 'setSBus')
    k.once('every bus computes its injection once', 'bus', q.nbus(), q.ref)
    k.native('b.setSBus()')
    out.append(q.s)
    q = N(c, 'PFFactoryModule::resetPower'); k = Calls(q)
    k.on('PFBus::resetPower', 'bus')
    q.s.call(q.fac, 'resetPower')
    k.once('every bus gets its loads and generators back', 'bus', q.nbus(), q.ref)
    k.native('b.resetPower()')
    out.append(q.s)
    for nm, key in (('updatePg', 'GENERATOR_PG'), ('updateQg', 'GENERATOR_QG')):
        q = N(c, 'PFFactoryModule::' + nm); s = q.s; k = Calls(q)
        b, g, v = s.input('b', 'int', lambda r, sh: 1), s.input('g', 'std::string', lambda r, sh: '1 '), s.input('v', 'double', lambda r, sh: r.rv())
        k.on('PFBus::setParam', 'bus', args=[(0, t.S(key)), (1, b.x), (2, g.x), (3, v.x)])
        s.call(q.fac, nm, [b, g, v], 'in_b, in_g, in_v')
        k.once('every bus gets the new value once', 'bus', q.nbus(), q.ref)
        k.native('b.setParam("%s", in_b, in_g, in_v)' % key)
        out.append(s)
    return out


def s_qlim(c):
    out = []
    for area in (False, True):
        q = N(c, 'PFFactoryModule::checkQlimViolations' + ('(area)' if area else '')); s = q.s; k = Calls(q, exch=True)
        a = az(s, 'area')[0] if area else None
        lim = lambda ref: t.app('over_limit', (ref,), BOOL)
        fresh = lambda st: t.eq(counter(s.ex, st, 'exchanged', t.I(0)), counter(s.ex, State(), 'exchanged', t.I(0)))
        k.on('PFBus::chkQlim', 'chk', order=fresh, ret=lim)
        k.on('PFBus::pushIsPV', 'push', order=lambda st: t.not_(fresh(st)))
        def upd(ex, st, this, a, e): bump(ex, st, 'exchanged', t.I(0)); return Val(e['t'], {})
        s.ex.contracts['updateBuses'] = upd
        r = s.call(q.fac, 'checkQlimViolations', [a] if area else [], 'in_area' if area else '', ret='r', nparams=1 if area else 0)
        mine = lambda i, q=q, a=a: t.and_(q.active(i), t.eq(q.bus(i, 'p_area'), a.x) if a else t.TRUE)
        s.post('true iff no bus of any process is over its limits', r.x if r else None, q.world(allk(lambda i: t.not_(t.and_(mine(i), lim(q.ref(i)))), q.nbus())))
        k.once('every active bus is checked once', 'chk', q.nbus(), q.ref, mine)
        k.once('after the exchange every ghost takes over what its owner decided', 'push', q.nbus(), q.ref, lambda i, q=q: t.not_(q.active(i)))
        k.native(check=True, area='in_area' if area else None)
        out.append(s)
    q = N(c, 'PFFactoryModule::clearQlimViolations'); s = q.s; k = Calls(q, exch=True)
    fresh = lambda st: t.eq(counter(s.ex, st, 'exchanged', t.I(0)), counter(s.ex, State(), 'exchanged', t.I(0)))
    k.on('PFBus::clearQlim', 'chk', order=fresh)
    k.on('PFBus::pushIsPV', 'push', order=lambda st: t.not_(fresh(st)))
    s.ex.contracts['updateBuses'] = upd
    s.call(q.fac, 'clearQlimViolations')
    k.once('every active bus is cleared once', 'chk', q.nbus(), q.ref, q.active)
    k.once('after the exchange every ghost takes over what its owner decided', 'push', q.nbus(), q.ref, lambda i, q=q: t.not_(q.active(i)))
    k.native(check=False)
    out.append(s)
    return out


def lone_native(q, what):
    return ('[&]{ std::vector<double> v; for (auto &d : o_net->p_buses) { std::vector<boost::shared_ptr<gridpack::component::BaseComponent> > nb; d.p_bus->getNeighborBranches(nb); '
            'v.push_back(%s); } return v; }()' % what)


def lone(q, i):
    """every line element of every branch of the bus is off"""
    s = q.s
    b = q.ref(i)
    brs = lambda leaf: s.at('BaseBusComponent', b, 'p_branches', leaf)
    def on(j):
        l = t.select(brs('[]'), j)
        st = s.at('YMBranch', l, 'p_branch_status', '[]')
        k = t.fresh('k', INT)
        return t.exists((k,), t.and_(t.le(t.I(0), k), t.lt(k, s.at('YMBranch', l, 'p_branch_status', '#n')), t.ne(t.select(st, k), t.I(0)) if st.sort[2] == INT else t.select(st, k)))
    j = t.fresh('j', INT)
    return t.not_(t.exists((j,), t.and_(t.le(t.I(0), j), t.lt(j, brs('#n')), on(j))))


def lone_net(c, name):
    q = N(c, name, branches=True); s = q.s
    s.link_family(q.buses, 'p_branches', q.branches)
    i = t.fresh('i', INT)
    s.assume(t.forall((i,), t.le(t.I(0), s.at('BaseBusComponent', i, 'p_branches', '#n'))), t.forall((i,), t.le(t.I(0), s.at('YMBranch', i, 'p_branch_status', '#n'))))
    return q


def s_lone(c):
    out = []
    q = lone_net(c, 'PFFactoryModule::checkLoneBus'); s = q.s
    r = s.call(q.fac, 'checkLoneBus', [t.I(0)], '(std::ofstream*)0', ret='r')
    s.post('true iff no active bus of any process is cut off', r.x if r else None, q.world(allk(lambda i: t.not_(t.and_(q.active(i), lone(q, i))), q.nbus())), native='r')
    each_bus(q, 'a cut-off bus does not take part', 'p_isolated', lambda i: t.or_(q.bus(i, 'p_isolated'), t.and_(q.active(i), lone(q, i))))
    out.append(s)
    q = lone_net(c, 'PFFactoryModule::clearLoneBus'); s = q.s
    s.call(q.fac, 'checkLoneBus', [t.I(0)], '(std::ofstream*)0')
    s.call(q.fac, 'clearLoneBus')
    each_bus(q, 'every bus is what it was before the check', 'p_isolated', lambda i, q=q: q.bus(i, 'p_isolated'))
    out.append(s)
    return out


def s_scale(c):
    out = []
    for fn, key, ids in (('scaleGeneratorRealPower', 'PFBus::scaleGeneratorRealPower', 'p_gid'), ('scaleLoadPower', 'PFBus::scaleLoadPower', 'p_lid')):
        q = N(c, 'PFFactoryModule::' + fn); s = q.s; k = Calls(q)
        v = s.input('v', 'double', lambda r, sh: r.rv()); a, z = az(s, 'area', 'zone')
        i = t.fresh('i', INT)
        s.assume(t.forall((i,), t.le(t.I(0), s.at('PFBus', i, ids, '#n'))))
        def con(ex, st, this, args, e, s=s, v=v, ids=ids):
            ref = this[0][1].ref
            tag, val = ex.ev(args[0], st).x, ex.ev(args[1], st).x
            n = counter(ex, st, 'bus', ref) - counter(ex, State(), 'bus', ref)
            ex.oblige(st, 'pre', 'next one of the list', e.get('l'), t.eq(tag, t.select(s.at('PFBus', ref, ids, '[]'), n)))
            ex.oblige(st, 'pre', 'factor', e.get('l'), t.eq(val, v.x))
            bump(ex, st, 'bus', ref)
            return Val(e['t'], {})
        s.ex.contracts[key] = con
        s.call(q.fac, fn, [v, a, z], 'in_v, in_area, in_zone')
        k.native('if (g_in(b, in_area, in_zone)) for (auto &g : std::vector<std::string>(b.%s)) b.%s(g, in_v)' % (ids, fn))
        s.post_each('every one on the buses of the area is scaled once', q.nbus(), lambda i: k.n('bus', q.ref(i)), lambda i: k.n('bus', q.ref(i), State()) + t.ite(in_zone(q, i, a.x, z.x), q.bus(i, ids, '#n'), t.I(0)))
        out.append(s)
    return out


def s_totals(c):
    """totals of an area over all processes: the buses of a process are counted where they are active"""
    out = []
    for fn in ('getTotalLoadRealPower', 'getGeneratorMargins'):
        q = N(c, 'PFFactoryModule::' + fn); s = q.s
        a, z = az(s, 'area', 'zone')
        rest = [s.input('rest%d' % i, 'double', lambda r, sh: r.rv()) for i in range(3)]
        s.native('g_ncall = 0; g_rest[0] = in_rest0; g_rest[1] = in_rest1; g_rest[2] = in_rest2;')
        cnt = [0]
        def dsum(ex, st, this, args, e, cnt=cnt, rest=rest):
            v, n = ex.ev(args[0], st), ex.ev(args[1], st).x
            ex.oblige(st, 'pre', 'sum of one number', e.get('l'), t.eq(n, t.I(1)))
            l = ex.deref(v, args[0]['t'])
            x = ex.readg(st, l)
            ex.writeg(st, l, Val(x.ty, {'': x.x + rest[cnt[0]].x})); cnt[0] += 1
            return Val(e['t'], {})
        s.ex.contracts['Communicator::sum'] = dsum
        nf, sf = ('p_nload', 'p_lstatus') if fn.startswith('getT') else ('p_ngen', 'p_gstatus')
        vs = ['p_savePl'] if fn.startswith('getT') else ['p_savePg', 'p_pb', 'p_pt']
        for f in ('p_nload', 'p_ngen'): s.gen(q.buses, f, lambda r, sh: sh.setdefault('n', r.small()))
        i = t.fresh('i', INT)
        s.assume(t.forall((i,), t.le(t.I(0), s.at('PFBus', i, nf))))
        tot = lambda f: csum(lambda i: t.ite(t.and_(q.active(i), in_zone(q, i, a.x, z.x)), csum(lambda j: t.ite(t.ne(t.select(q.bus(i, sf, '[]'), j), t.I(0)), t.select(q.bus(i, f, '[]'), j), ZERO), q.bus(i, nf)), ZERO), q.nbus())
        if fn.startswith('getT'):
            r = s.call(q.fac, fn, [a, z], 'in_area, in_zone', ret='r')
            s.post('load in service on the buses of the area, of all processes', r.x if r else None, tot('p_savePl') + rest[0].x, native='r')
        else:
            o = [s.outvar(n, 'double') for n in ('total', 'pmin', 'pmax')]
            s.call(q.fac, fn, [a, z] + [s.outptr(x) for x in o], 'in_area, in_zone, &total, &pmin, &pmax')
            for k, (n, f) in enumerate((('total', 'p_savePg'), ('pmin', 'p_pb'), ('pmax', 'p_pt'))):
                s.post('%s of the generators in service on the buses of the area, of all processes' % n, lambda k=k: s.outval(o[k]), tot(f) + rest[k].x, native=n)
        out.append(s)
    return out


# ---- line overloads ------------------------------------------------------------------------------------------------------
class Lines:
    """the case data of the branches (two ratings per line, either may be missing) and the flows on the lines"""
    def __init__(g, q):
        g.q, g.s = q, q.s
        s = q.s
        i, a, b = t.fresh('i', INT), t.fresh('a', INT), t.fresh('b', INT)
        g.net = s.net = q.net
        # the data collections are numbered like the branches
        s.set(q.net, 'p_branches', {'[].p_data': t.lam(i, i)})
        s.assume(t.forall((i,), t.le(t.I(0), g.n(i))))
        def getval(ex, st, this, args, e):
            ref = this[0][1].ref
            nm = ex.ev(args[0], st)
            nm = nm.x if nm.x.op == 'c' else None
            if nm is None: raise ToolLimit('key of a case datum')
            l = ex.deref(ex.ev(args[1], st), args[1]['t'])
            if nm.val == key('BRANCH_NUM_ELEMENTS'): ex.writeg(st, l, Val(ex.readg(st, l).ty, {'': g.n(ref)})); return Val(e['t'], {'': t.TRUE})
            k = ex.ev(args[2], st).x
            w = {key('BRANCH_RATING_A'): 'A', key('BRANCH_RATING_B'): 'B'}.get(nm.val)
            if w is None: ex.oblige(st, 'pre', 'case datum of a line check: %s' % nm.val, e.get('l'), t.FALSE); w = 'other'
            v = ex.readg(st, l)
            ex.writeg(st, l, Val(v.ty, {'': t.ite(g.has(w, ref, k), g.rate(w, ref, k), v.x)}))
            return Val(e['t'], {'': g.has(w, ref, k)})
        def power(ex, st, this, args, e):
            ref, tag = this[0][1].ref, ex.ev(args[0], st).x
            return Val(e['t'], {'.re': t.app('flow_p', (ref, tag), REAL), '.im': t.app('flow_q', (ref, tag), REAL)})
        seed = s.input('seed', 'int', lambda r, sh: r.randrange(1, 1 << 20))
        for f in ('p_ckt', 'p_tag'): s.gen(q.branches, f, lambda r, sh: ['1 ', '2 ', 'BL'][:sh.setdefault('n', r.small())])
        s.extra_fields.update([('L', 'p_ckt'), ('L', 'p_tag'), ('L', 'p_ignore')])
        s.native('g_fill(o_net.get(), f_B, f_L, in_seed); int n0 = o_fac->p_violations.size(); (void)n0;')
        def ignore(ex, st, this, args, e):
            return Val(e['t'], {'': t.app('ignored', (this[0][1].ref, ex.ev(args[0], st).x), BOOL)})
        s.ex.contracts.update({'PFBranch::getIgnore': ignore, 'DataCollection::getValue': getval, 'PFBranch::getComplexPower': power})

    def n(g, i): return g.s.at('YMBranch', g.q.brref(i), 'p_tag', '#n')
    def tag(g, i, k): return t.select(g.s.at('YMBranch', g.q.brref(i), 'p_tag', '[]'), k)
    def has(g, w, i, k): return t.app('has_rate' + w, (i, k), BOOL)
    def rate(g, w, i, k): return t.app('rate' + w, (i, k), REAL)

    def over(g, i, k):
        """line k of branch i carries more than its rating (the emergency rating if chosen and given)"""
        useb = g.s.old(g.q.fac, 'p_rateB')
        b = t.and_(useb, g.has('B', i, k))
        r = t.ite(b, g.rate('B', i, k), g.rate('A', i, k))
        p, q = (t.app(n, (g.q.brref(i), g.tag(i, k)), REAL) for n in ('flow_p', 'flow_q'))
        return t.and_(t.or_(b, g.has('A', i, k)), t.lt(ZERO, r), t.lt(r, t.sqrt(p * p + q * q)))

    def ignored(g, i, k): return t.app('ignored', (g.q.brref(i), g.tag(i, k)), BOOL)


def lines(c, name, natives=True):
    q = N(c, name, branches=True)
    g = Lines(q)
    return q, g, q.s


def s_lines(c):
    out = []
    for area in (False, True):
        q, g, s = lines(c, 'PFFactoryModule::checkLineOverloadViolations' + ('(area)' if area else ''))
        a = az(s, 'area')[0] if area else None
        r = s.call(q.fac, 'checkLineOverloadViolations', [a] if area else [], 'in_area' if area else '', ret='r', nparams=1 if area else 0)
        end = lambda i, f: s.at('PFBus', s.at('BaseBranchComponent', q.brref(i), f), 'p_area')
        mine = lambda i: t.and_(q.active_branch(i), t.or_(t.eq(end(i, 'p_bus1'), a.x), t.eq(end(i, 'p_bus2'), a.x)) if area else t.TRUE)
        bad = lambda i, k: t.and_(mine(i), t.not_(g.ignored(i, k)), g.over(i, k))
        s.ensure('true iff no line that counts is overloaded on any process', (lambda: t.eq(r.x, q.world(allk(lambda i: allk(lambda k: t.not_(bad(i, k)), g.n(i)), q.nbranch())))) if r else None, native='r == (g_bad(o_net.get(), o_fac->p_rateB, %s) == 0 && g_others == g_procs-1)' % ('in_area' if area else '-99'))
        s.ensure('as many records as overloaded lines', lambda: t.eq(s.now(q.fac, 'p_violations', '#n'), s.old(q.fac, 'p_violations', '#n') + csum(lambda i: t.ite(mine(i), csum(lambda k: t.ite(t.and_(t.not_(g.ignored(i, k)), g.over(i, k)), t.I(1), t.I(0)), g.n(i)), t.I(0)), q.nbranch())),
                 native='(int)o_fac->p_violations.size() == n0 + g_bad(o_net.get(), o_fac->p_rateB, %s)' % ('in_area' if area else '-99'))
        s.sampled('each record names its line', t.TRUE, native='(bool)g_records(o_net.get(), o_fac.get(), n0, %s)' % ('in_area' if area else '-99'))
        out.append(s)
    return out


def s_ignlines(c):
    """marking lines as ignored: exactly the overloaded lines of the active branches; every line counts again afterwards"""
    out = []
    for fn in ('ignoreLineOverloadViolations', 'clearLineOverloadViolations'):
        ign = fn.startswith('ignore')
        q, g, s = lines(c, 'PFFactoryModule::' + fn)
        j, k = t.fresh('j', INT), t.fresh('k', INT)
        def seti(ex, st, this, args, e, ign=ign, g=g, q=q, j=j, k=k):
            ref, tag, flag = this[0][1].ref, ex.ev(args[0], st).x, ex.ev(args[1], st).l['']
            ex.oblige(st, 'pre', 'only the lines meant are marked', e.get('l'), t.exists([j], t.exists([k], t.and_(
                t.le(t.I(0), j), t.lt(j, q.nbranch()), t.eq(ref, q.brref(j)), t.le(t.I(0), k), t.lt(k, g.n(j)), t.eq(tag, g.tag(j, k)), g.over(j, k) if ign else t.TRUE))))
            ex.oblige(st, 'pre', 'mark', e.get('l'), flag if ign else t.not_(flag))
            bump(ex, st, 'mark', ref)
            return Val(e['t'], {})
        s.ex.contracts['PFBranch::setIgnore'] = seti
        s.native('std::vector<std::vector<bool> > was; for (auto &d : o_net->p_branches) was.push_back(std::vector<bool>(d.p_branch->p_ignore.begin(), d.p_branch->p_ignore.end()));')
        s.call(q.fac, fn)
        s.post_each('as many lines of every active branch are marked as %s' % ('are overloaded' if ign else 'it has'), q.nbranch(), lambda i: counter(s.ex, s.st, 'mark', q.brref(i)),
                    lambda i: counter(s.ex, State(), 'mark', q.brref(i)) + t.ite(q.active_branch(i), csum(lambda k: t.ite(g.over(i, k), t.I(1), t.I(0)), g.n(i)) if ign else g.n(i), t.I(0)))
        s.sampled('exactly these lines are marked', t.TRUE, native='(bool)[&]{ for (int i = 0; i < (int)o_net->p_branches.size(); i++) { auto &d = o_net->p_branches[i]; for (int k = 0; k < (int)d.p_branch->p_ckt.size(); k++) if ((bool)d.p_branch->p_ignore[k] != '
                 + ('(was[i][k] || (d.p_activeBranch && g_over(o_net.get(), o_fac->p_rateB, i, k)))' if ign else '(was[i][k] && !d.p_activeBranch)') + ') return false; } return true; }()')
        out.append(s)
    return out


def s_flags(c):
    out = []
    s = c.scen('PFBranch::setIgnore', safety=False)
    b = s.obj('br', 'PFBranch')
    for f in ('p_ckt', 'p_ignore'): s.gen(b, f, (lambda r, sh: ['1 ', '2 ', 'BL'][:sh.setdefault('n', r.small())]) if f == 'p_ckt' else (lambda r, sh: [r.random() < .5 for _ in range(sh.setdefault('n', r.small()))]))
    tag, fl = s.input('tag', 'std::string', lambda r, sh: r.choice(['1 ', '2 ', 'BL', '3 '])), s.input('fl', 'bool', lambda r, sh: r.random() < .5)
    n = s.old(b, 'p_ckt', '#n')
    s.assume(t.le(t.I(0), n), t.eq(s.old(b, 'p_ignore', '#n'), n))
    s.call(b, 'setIgnore', [tag, fl], 'in_tag, in_fl')
    ck = lambda k: t.select(s.old(b, 'p_ckt', '[]'), k)
    s.post_each('the named line and no other', n, lambda k: t.select(s.now(b, 'p_ignore', '[]'), k), lambda k: t.ite(t.eq(ck(k), tag.x), fl.x, t.select(s.old(b, 'p_ignore', '[]'), k)),
                native='std::vector<double>(o_br->p_ignore.begin(), o_br->p_ignore.end())')
    out.append(s)
    res = out
    for v in (False, True):
        s = c.scen('PFBranch::getIgnore(%s)' % ('known line' if v else 'unknown line'), safety=False)
        b = s.obj('br', 'PFBranch')
        N_ = lambda r, sh: sh.setdefault('n', r.randrange(1, 4))
        s.gen(b, 'p_ckt', lambda r, sh: ['1 ', '2 ', 'BL'][:N_(r, sh)])
        s.gen(b, 'p_ignore', lambda r, sh: [r.random() < .5 for _ in range(N_(r, sh))])
        n = s.old(b, 'p_ckt', '#n')
        k0 = s.input('k', 'int', lambda r, sh: sh.setdefault('k', r.randrange(0, N_(r, sh))))
        tag = s.input('tag', 'std::string', lambda r, sh, v=v: ['1 ', '2 ', 'BL'][sh.setdefault('k', r.randrange(0, N_(r, sh)))] if v else '9 ')
        ck = lambda k, s=s, b=b: t.select(s.old(b, 'p_ckt', '[]'), k)
        i = t.fresh('i', INT)
        inn = t.and_(t.le(t.I(0), i), t.lt(i, n))
        s.assume(t.le(t.I(0), n), t.eq(s.old(b, 'p_ignore', '#n'), n))
        if v: s.assume(t.le(t.I(0), k0.x), t.lt(k0.x, n), t.eq(tag.x, ck(k0.x)), t.forall((i,), t.implies(t.and_(inn, t.ne(i, k0.x)), t.ne(ck(i), tag.x))))
        else: s.assume(t.forall((i,), t.implies(inn, t.ne(ck(i), tag.x))))
        r = s.call(b, 'getIgnore', [tag], 'in_tag', ret='r')
        s.post('its mark' if v else 'counts', r.x if r else None, t.select(s.old(b, 'p_ignore', '[]'), k0.x) if v else t.FALSE, native='r')
        res.append(s)
    q = N(c, 'PFFactoryModule::useRateB', buses=False); s = q.s
    f = s.input('f', 'bool', lambda r, sh: r.random() < .5)
    s.call(q.fac, 'useRateB', [f], 'in_f')
    s.post('the ratings chosen', s.now(q.fac, 'p_rateB'), f.x, native='o_fac->p_rateB')
    res.append(s)
    q = N(c, 'PFFactoryModule::clearViolations', buses=False); s = q.s
    s.extra_fields.add(('fac', 'p_violations'))
    s.call(q.fac, 'clearViolations')
    s.post('no records left', s.now(q.fac, 'p_violations', '#n'), t.I(0), native='(int)o_fac->p_violations.size()')
    res.append(s)
    return res


def linelist(c, fits):
    """the check of listed lines; fits: the three lists have equally many entries"""
    q, g, s = lines(c, 'PFFactoryModule::checkLineOverloadViolations(list%s)' % ('' if fits else ' with missing entries'))
    s.native('o_net->setMap();')
    s.gen(q.net, 'p_branches', lambda r, sh: [dict(p_activeBranch=r.random() < .7, p_globalBranchIndex=i, p_originalBusIndex1=a, p_originalBusIndex2=b, p_globalBusIndex1=0, p_globalBusIndex2=0,
                                                   p_localBusIndex1=0, p_localBusIndex2=0, p_branch=q.branches.base + i, p_data=i) for i, (a, b) in enumerate(ends(r, sh))])
    def ends(r, sh): return sh.setdefault('ends', [r.choice([(1, 2), (2, 1), (1, 3), (2, 3)]) for _ in range(r.randrange(0, 5))])
    def size(n, r, sh):
        if fits: return sh.setdefault('len', r.randrange(1, 5))
        return sh.setdefault('lens', r.choice([dict(b1=2, b2=1, tg=2), dict(b1=1, b2=1, tg=0), dict(b1=0, b2=2, tg=2), dict(b1=3, b2=3, tg=4)]))[n]
    def entry(n, r, sh):
        a, b = sh.setdefault('pairs', [r.choice(ends(r, sh) + [(3, 2)]) for _ in range(5)])[sh.setdefault('at' + n, 0)]
        sh['at' + n] += 1
        return a if n == 'b1' else b if n == 'b2' else r.choice(['1 ', '2 ', 'BL'])
    vs = []
    for n, ty in (('b1', 'int'), ('b2', 'int'), ('tg', 'std::string'), ('vi', 'bool')):
        x = s.input(n, 'std::vector<%s>' % ty, lambda r, sh, n=n: [r.random() < .5 for _ in range(r.randrange(0, 3))] if n == 'vi' else [entry(n, r, sh) for _ in range(size(n, r, sh))])
        o = s.outvar('o' + n, 'std::vector<%s>' % ty, 'in_' + n)
        s.ex.write(s.st, o[0][1], x)
        vs.append((x, o))
    (b1, _), (b2, _), (tg, _), (vi, ovi) = vs
    n = b1.l['#n']
    fit = t.and_(t.eq(b2.l['#n'], n), t.eq(tg.l['#n'], n))
    s.assume(t.le(t.I(1 if fits else 0), n), fit if fits else t.not_(fit))
    I, J = t.fresh('i', INT), t.fresh('j', INT)
    nloc = lambda i: t.app('nloc!', (t.select(b1.l['[]'], i), t.select(b2.l['[]'], i)), INT)
    loc = lambda i, j: t.app('loc!', (t.select(b1.l['[]'], i), t.select(b2.l['[]'], i), j), INT)
    s.assume(t.forall((I,), t.le(t.I(0), nloc(I))), t.forall((I, J), t.implies(t.and_(t.le(t.I(0), J), t.lt(J, nloc(I))), t.and_(t.le(t.I(0), loc(I, J)), t.lt(loc(I, J), q.nbranch())))))
    def indices(ex, st, this, args, e):
        x, y = ex.ev(args[0], st).x, ex.ev(args[1], st).x
        j = t.fresh('j', INT)
        return Val(e['t'], {'#n': t.app('nloc!', (x, y), INT), '[]': t.lam(j, t.app('loc!', (x, y, j), INT))})
    oth = lambda i: t.app('others!', (i,), INT)
    s.assume(t.forall((I,), t.le(t.I(0), oth(I))))
    def isum(ex, st, this, args, e):
        p, m = ex.ev(args[0], st), ex.ev(args[1], st).x
        l = ex.deref(p, args[0]['t'])
        l = l[0][1] if isinstance(l, list) else l
        ex.oblige(st, 'pre', 'sum over one number per listed line', e.get('l'), t.and_(t.eq(m, n), t.eq(l.idx[-1], t.I(0))))
        a = ex.rawget(st, l.root, l.idx[:-1], l.path, t.ARR(INT, INT))
        j = t.fresh('j', INT)
        ex.rawset(st, l.root, l.idx[:-1], l.path, t.ARR(INT, INT), t.lam(j, t.select(a, j) + oth(j)))
        return Val(e['t'], {})
    s.ex.contracts.update({'getLocalBranchIndices': indices, 'Communicator::sum': isum})
    r = s.call(q.fac, 'checkLineOverloadViolations', [v[1] for v in vs], 'ob1, ob2, otg, ovi', ret='r', nparams=4)
    s.sampled('as the lines listed', t.TRUE, native='(bool)g_list(o_net.get(), o_fac->p_rateB, in_b1, in_b2, in_tg, ovi, r)')
    if not fits:
        s.post('not passed', r.x if r else None, t.FALSE)
        return s
    over = lambda i: t.not_(allk(lambda j: allk(lambda k: t.not_(t.and_(t.eq(g.tag(loc(i, j), k), t.select(tg.l['[]'], i)), t.not_(g.ignored(loc(i, j), k)), g.over(loc(i, j), k))), g.n(loc(i, j))), nloc(i)))
    good = lambda i: t.and_(t.not_(over(i)), t.eq(oth(i), t.I(0)))
    s.post('one verdict per listed line', lambda: s.outval(ovi, '#n'), n)
    s.post_each('no process holds the listed line overloaded', n, lambda i: t.select(s.outval(ovi, '[]'), i), good)
    s.ensure('true iff no listed line is overloaded', (lambda: t.eq(r.x, allk(lambda i: t.select(s.outval(ovi, '[]'), i), n))) if r else None)
    return s


def s_linelist(c): return [linelist(c, True), linelist(c, False)]


SCENARIOS = [s_voltage, s_ignore, s_rtpr, s_setup, s_qlim, s_lone, s_scale, s_totals, s_lines, s_ignlines, s_flags, s_linelist]
