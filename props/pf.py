"""Power-flow component specifications shared by C02-C06."""
from props.common import *
import props.C01 as ym

YMS = ym.YM
PFS = COMP + 'pf_matrix/pf_components.cpp'
SOURCES = [PFS, YMS] + BASE_SRC
NATIVE = dict(srcs=[PFS, YMS] + NAT_BASE, headers=['gridpack/applications/components/pf_matrix/pf_components.hpp'],
              pre='using namespace gridpack::powerflow; using gridpack::ymatrix::YMBus; using gridpack::ymatrix::YMBranch;',
              incs=['applications/components/y_matrix', 'applications/components/pf_matrix'])
BUS = 'gridpack::powerflow::PFBus'
BR = 'gridpack::powerflow::PFBranch'
YBUS = 'gridpack::ymatrix::YMBus'
YBR = 'gridpack::ymatrix::YMBranch'
# PowerflowMode in the header: YBus, Jacobian, RHS, S_Cal, State
MODES = dict(YBus=0, Jacobian=1, RHS=2, S_Cal=3, State=4)


class Bus:
    """a power-flow bus as its contracts see it; ref may be symbolic"""
    def __init__(b, s, o, old=True):
        b.s, b.o = s, o
        b.ref = o.ref if isinstance(o, Ob) else o
        b.st = State() if old else s.st

    def f(b, name, cls=BUS): return b.s.ex.fld(b.st, b.ref, cls, name)
    def x(b, name, cls=BUS): return b.f(name, cls).l['']

    def ptr(b, name, cty='double'):
        """value of the exchanged variable"""
        v = b.f(name).l
        so = BOOL if cty == 'bool' else REAL
        return b.s.ex.rawget(b.st, ('M', cty, 'mem'), (v['^b'], v['^o']), '', so)

    @property
    def V(b): return b.ptr('p_vMag_ptr')
    @property
    def A(b): return b.ptr('p_vAng_ptr')

    def vec(b, name): return b.f(name).l['[]']
    def size(b, name): return b.f(name).l['#n']
    @property
    def U(b): return polar(b.V, b.A)


def gens_bus(s, name):
    """random states in which the exchange buffer agrees with the bus"""
    s.gen(name, 'p_v', lambda r, sh: sh.setdefault('V', r.pos()))
    s.gen(name, 'p_vMag_ptr', lambda r, sh: [sh.setdefault('V', r.pos())])
    s.gen(name, 'p_vAng_ptr', lambda r, sh: [sh.setdefault('A', r.ang())])
    s.gen(name, 'p_a', lambda r, sh: sh.setdefault('A', r.ang()))
    s.gen(name, 'p_sbase', lambda r, sh: r.choice([100.0, 1.0, 10.0, r.pos()]))
    s.gen(name, 'p_PV_ptr', lambda r, sh: [sh.setdefault('PV', r.random() < .5)])
    s.gen(name, 'p_isPV', lambda r, sh: sh.setdefault('PV', r.random() < .5))
    for g in ('p_pg', 'p_qg', 'p_pFac', 'p_savePg', 'p_qmax', 'p_qmin', 'p_qmax_orig', 'p_qmin_orig', 'p_pFac_orig', 'p_vs', 'p_pt', 'p_pb'):
        s.gen(name, g, lambda r, sh: [r.rv() for _ in range(sh.setdefault('ngen', r.choice([0, 1, 1, 2, 3])))])
    s.gen(name, 'p_gstatus', lambda r, sh: [r.choice([0, 1, 1]) for _ in range(sh.setdefault('ngen', r.choice([0, 1, 1, 2, 3])))])
    s.gen(name, 'p_gid', lambda r, sh: [r.choice(['1 ', '2 ', '3 ', 'G1']) for _ in range(sh.setdefault('ngen', r.choice([0, 1, 1, 2, 3])))])
    s.gen(name, 'p_ngen', lambda r, sh: sh.setdefault('ngen', r.choice([0, 1, 1, 2, 3])))
    for g in ('p_pl', 'p_ql', 'p_savePl', 'p_saveQl'):
        s.gen(name, g, lambda r, sh: [r.rv() for _ in range(sh.setdefault('nld', r.choice([0, 1, 1, 2, 3])))])
    s.gen(name, 'p_lstatus', lambda r, sh: [r.choice([0, 1, 1]) for _ in range(sh.setdefault('nld', r.choice([0, 1, 1, 2, 3])))])
    s.gen(name, 'p_lid', lambda r, sh: [r.choice(['1 ', '2 ', '3 ', 'L1']) for _ in range(sh.setdefault('nld', r.choice([0, 1, 1, 2, 3])))])
    s.gen(name, 'p_nload', lambda r, sh: sh.setdefault('nld', r.choice([0, 1, 1, 2, 3])))
    s.gen(name, 'p_isolated', lambda r, sh: r.random() < .15)
    s.gen(name, 'p_refBus', lambda r, sh: r.random() < .2)
    s.gen(name, 'p_referenceBus', lambda r, sh: r.random() < .2)


def coupled(s, o):
    """representation invariant of a bus: the exchanged magnitude and angle are those of the bus"""
    b = Bus(s, o)
    s.assume(t.ne(b.f('p_vMag_ptr').l['^b'], t.I(0)), t.ne(b.f('p_vAng_ptr').l['^b'], t.I(0)), t.eq(b.x('p_v'), b.V))
    return b


def ends(s, br, b1, b2):
    """the branch joins b1 and b2"""
    s.link(br, 'p_bus1', b1); s.link(br, 'p_bus2', b2)
    s.native('o_%s->setBus1(o_%s); o_%s->setBus2(o_%s);' % (br.name, b1.name, br.name, b2.name))


def apart(s, *objs):
    """exchange buffers of different buses are different memory"""
    bs = [Bus(s, o) for o in objs]
    for b in bs:
        p, q = b.f('p_vMag_ptr').l, b.f('p_vAng_ptr').l
        s.assume(t.ne(p['^b'], t.I(0)), t.ne(q['^b'], t.I(0)), t.or_(t.ne(p['^b'], q['^b']), t.ne(p['^o'], q['^o'])))


def brY(s, ref, st=None):
    st = st or State()
    x = lambda n: s.ex.fld(st, ref, BR, n).l['']
    return Cx(x('p_ybusr_frwd'), x('p_ybusi_frwd')), Cx(x('p_ybusr_rvrs'), x('p_ybusi_rvrs'))


def brPQ(v1, v2, d, y):
    """real and reactive power from this end: Re/Im of U1 conj(Y U2), d = angle difference seen from this end"""
    sflow = Cx(v1 * v2, 0) * polar(t.R(1), d) * y.conj()
    return sflow
