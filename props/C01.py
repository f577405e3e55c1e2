"""Bus admittance matrix = sum of pi-models of the elements in service."""
from props.common import *
from props.bag import Bag, key

TITLE = 'Y-bus equals the sum of the pi-models of the elements in service'
YM = COMP + 'y_matrix/ymatrix_components.cpp'
SOURCES = [YM] + BASE_SRC
NATIVE = dict(srcs=[YM] + NAT_BASE, headers=['gridpack/applications/components/y_matrix/ymatrix_components.hpp'], pre='using namespace gridpack::ymatrix;')
BR = 'gridpack::ymatrix::YMBranch'
BUS = 'gridpack::ymatrix::YMBus'
YBR = 'gridpack::ymatrix::YMBranch'
VECS = ['p_reactance', 'p_resistance', 'p_tap_ratio', 'p_phase_shift', 'p_charging', 'p_shunt_admt_g1', 'p_shunt_admt_b1', 'p_shunt_admt_g2',
        'p_shunt_admt_b2', 'p_xform', 'p_shunt', 'p_branch_status', 'p_switched', 'p_tag']


class Elem:
    """the i-th transmission element of a branch, read from the state the accessor g(field) sees"""
    def __init__(e, g, i):
        f = lambda n: t.select(g(n), i)
        e.r, e.x, e.b = f('p_resistance'), f('p_reactance'), f('p_charging')
        e.tap, e.shift = f('p_tap_ratio'), f('p_phase_shift')
        e.g1, e.b1, e.g2, e.b2 = f('p_shunt_admt_g1'), f('p_shunt_admt_b1'), f('p_shunt_admt_g2'), f('p_shunt_admt_b2')
        e.xform, e.shunt, e.on, e.sw = f('p_xform'), f('p_shunt'), f('p_branch_status'), f('p_switched')
        e.tag = f('p_tag')

    @property
    def y(e): return 1 / Cx(e.r, e.x)
    @property
    def a(e): return polar(e.tap, e.shift)

    # pi-model, 'near' is the tap side
    def near(e): return (e.y + Cx(0, e.b / 2)) / e.a.abs2()
    def far(e): return e.y + Cx(0, e.b / 2)
    # current into bus1 per unit voltage at bus2 / the other way round (tap on bus1 side unless switched)
    def y12(e): return cite(e.xform, cite(e.sw, -e.y / e.a, -e.y / e.a.conj()), -e.y)
    def y21(e): return cite(e.xform, cite(e.sw, -e.y / e.a.conj(), -e.y / e.a), -e.y)
    def line_adm(e): return cite(t.and_(e.on, t.not_(e.xform)), e.y)

    def xf_self(e, first):
        """transformer diagonal term seen from bus1 (first) or the other end"""
        return cite(t.and_(e.on, e.xform), cite(t.ne(e.sw, first) if isinstance(first, T) else (t.not_(e.sw) if first else e.sw), e.near(), e.far()))

    def shunt_self(e, is1, is2):
        own = cite(is1, Cx(e.g1, e.b1), cite(is2, Cx(e.g2, e.b2)))
        return cite(t.and_(e.on, e.shunt), own + cite(e.xform, Cx(0, 0), Cx(0, e.b / 2)))

    def ok(e):
        """a non-degenerate element"""
        return t.and_(t.ne(e.r * e.r + e.x * e.x, t.R(0)), t.implies(e.xform, t.ne(e.tap, t.R(0))))


def acc(s, o, old=True):
    def g(n):
        v = s.ex.fld(State() if old else s.st, o.ref if isinstance(o, Ob) else o, s.cls(BR), n)
        return v.l['[]']
    return g


def vecgen(f):
    def g(r, s):
        n = s.setdefault('nel', r.choice([0, 1, 1, 2, 3]))
        return [f(r) for _ in range(n)]
    return g


def branch(s, name='br', loops=True):
    """a branch whose two ends may be any buses"""
    br = s.obj(name, BR)
    elems(s, name)
    s.assume(t.le(t.I(0), s.old(br, 'p_elems')))
    return br


def elems(s, name):
    for v in VECS:
        f = lambda r: r.rv()
        if v in ('p_xform', 'p_shunt', 'p_branch_status', 'p_switched'): f = lambda r: r.random() < .6
        if v in ('p_tap_ratio', 'p_reactance'): f = lambda r: r.choice([-1, 1, 1]) * r.pos()
        if v == 'p_tag': f = lambda r: r.choice(['1 ', '2 ', '3 ', 'BL'])
        s.gen(name, v, vecgen(f))
    s.gen(name, 'p_elems', lambda r, sh: sh.setdefault('nel', r.choice([0, 1, 1, 2, 3])))


def sized(s, br, n):
    """class invariant: the arrays of a branch have one entry per element (what load and addParam leave, see s_load, s_param)"""
    for v in VECS: s.assume(t.eq(s.ex.fld(State(), br.ref, YBR, v).l['#n'], n))


def n_of(s, br, old=True): return s.old(br, 'p_elems') if old else s.now(br, 'p_elems')


def nondegenerate(s, br):
    g = acc(s, br)
    s.assume(allk(lambda i: Elem(g, i).ok(), s.old(br, 'p_elems')))


def s_offdiag(c):
    """YMBranch::setYBus: forward/reverse admittance = sum over elements in service"""
    s = c.scen('YMBranch::setYBus')
    br = branch(s); nondegenerate(s, br)
    g = acc(s, br)
    s.call(br, 'setYBus', [])
    n = s.old(br, 'p_elems')
    w = csum(lambda i: cite(Elem(g, i).on, Elem(g, i).y12()), n)
    v = csum(lambda i: cite(Elem(g, i).on, Elem(g, i).y21()), n)
    post_cx(s, 'Y12 = sum of -y/conj(tap)', lambda: (s.now(br, 'p_ybusr_frwd'), s.now(br, 'p_ybusi_frwd')), w, 'std::complex<double>(o_br->p_ybusr_frwd,o_br->p_ybusi_frwd)')
    post_cx(s, 'Y21 = sum of -y/tap', lambda: (s.now(br, 'p_ybusr_rvrs'), s.now(br, 'p_ybusi_rvrs')), v, 'std::complex<double>(o_br->p_ybusr_rvrs,o_br->p_ybusi_rvrs)')
    s.call(br, 'getForwardYBus', [], ret='fw')
    return s


def s_getters(c):
    out = []
    for meth, f1 in (('getForwardYBus', 'frwd'), ('getReverseYBus', 'rvrs')):
        s = c.scen('YMBranch::' + meth)
        br = s.obj('br', BR)
        r = s.call(br, meth, [], ret='r')
        post_cx(s, 'returns the computed admittance', r, (s.old(br, 'p_ybusr_' + f1), s.old(br, 'p_ybusi_' + f1)), 'r')
        out.append(s)
    s = c.scen('YMBus::getYBus')
    b = s.obj('bus', BUS)
    r = s.call(b, 'getYBus', [], ret='r')
    post_cx(s, 'returns the computed admittance', r, (s.old(b, 'p_ybusr'), s.old(b, 'p_ybusi')), 'r')
    out.append(s)
    return out


def s_contrib(c):
    """per-branch contributions to the diagonal"""
    out = []
    s = c.scen('YMBranch::getAdmittance')
    br = branch(s); nondegenerate(s, br); g = acc(s, br)
    r = s.call(br, 'getAdmittance', [], ret='r')
    post_cx(s, 'minus the series admittance of lines in service', r, -csum(lambda i: Elem(g, i).line_adm(), s.old(br, 'p_elems')), 'r')
    out.append(s)
    for end in (1, 2):
        s = c.scen('YMBranch::getTransformer from bus %d' % end)
        br = branch(s); nondegenerate(s, br); g = acc(s, br)
        b1, b2 = s.obj('b1', BUS), s.obj('b2', BUS)
        s.link(br, 'p_bus1', b1); s.link(br, 'p_bus2', b2)
        s.native('o_br->setBus1(o_b1); o_br->setBus2(o_b2);')
        me = b1 if end == 1 else b2
        r = s.call(br, 'getTransformer', [ptrto(s, me)], cargs='o_b%d.get()' % end, ret='r')
        post_cx(s, 'minus the transformer self admittance', r, -csum(lambda i: Elem(g, i).xf_self(end == 1), s.old(br, 'p_elems')), 'r')
        out.append(s)
        s = c.scen('YMBranch::getShunt from bus %d' % end)
        br = branch(s); g = acc(s, br)
        b1, b2 = s.obj('b1', BUS), s.obj('b2', BUS)
        s.link(br, 'p_bus1', b1); s.link(br, 'p_bus2', b2)
        s.native('o_br->setBus1(o_b1); o_br->setBus2(o_b2);')
        me = b1 if end == 1 else b2
        r = s.call(br, 'getShunt', [ptrto(s, me)], cargs='o_b%d.get()' % end, ret='r')
        post_cx(s, 'line charging and end shunts of elements in service', r, csum(lambda i: Elem(g, i).shunt_self(t.B(end == 1), t.B(end == 2)), s.old(br, 'p_elems')), 'r')
        out.append(s)
    return out


def ptrto(s, o):
    return o.ref


def getself(e, is1, is2):
    """diagonal contribution of a transformer to the bus asking"""
    return cite(t.and_(e.on, e.xform), cite(t.ite(e.sw, is2, is1), e.near(), e.far()))


def bacc(ex, st, ref):
    return lambda n: ex.fld(st, ref, BR, n).l['[]']


def spec_adm(g, n): return -csum(lambda i: Elem(g, i).line_adm(), n)
def spec_xf(g, n, is1, is2): return -csum(lambda i: getself(Elem(g, i), is1, is2), n)
def spec_sh(g, n, is1, is2): return csum(lambda i: Elem(g, i).shunt_self(is1, is2), n)


def k_adm(ex, st, this, args, e):
    ref = this[0][1].ref
    return cval(ex.P, spec_adm(bacc(ex, st, ref), ex.fld(st, ref, BR, 'p_elems').l['']))


def k_two(spec):
    def k(ex, st, this, args, e):
        ref = this[0][1].ref
        b = ex.ptrref(ex.ev(args[0], st))
        is1 = t.eq(b, ex.fld(st, ref, BR, 'p_bus1').l['']); is2 = t.eq(b, ex.fld(st, ref, BR, 'p_bus2').l[''])
        return cval(ex.P, spec(bacc(ex, st, ref), ex.fld(st, ref, BR, 'p_elems').l[''], is1, is2))
    return k


CON = {'YMBranch::getAdmittance': k_adm, 'YMBranch::getTransformer': k_two(spec_xf), 'YMBranch::getShunt': k_two(spec_sh)}


def s_contrib_any(c):
    """the callee contracts used by YMBus::setYBus, for an arbitrary calling bus"""
    out = []
    for m, spec in (('getTransformer', spec_xf), ('getShunt', spec_sh)):
        s = c.scen('YMBranch::%s contract' % m)
        s.proof_only = True
        br = branch(s); nondegenerate(s, br); g = acc(s, br)
        who = t.var('who', INT)
        s.assume(t.ne(who, t.I(0)))
        r = s.call(br, m, [who])
        post_cx(s, 'contribution to the asking bus', r, spec(g, s.old(br, 'p_elems'), t.eq(who, s.old(br, 'p_bus1')), t.eq(who, s.old(br, 'p_bus2'))))
        out.append(s)
    return out


def s_diag(c):
    """YMBus::setYBus against the contracts of the branch functions"""
    s = c.scen('YMBus::setYBus', contracts=CON)
    bus, oth = s.obj('bus', BUS), s.obj('oth', BUS)
    f = s.family('brs', BR)
    elems(s, 'brs')
    s.link_family(bus, 'p_branches', f)
    s.link_choice(f, 'p_bus1', [bus, oth])
    s.link_choice(f, 'p_bus2', [bus, oth], lambda r, sh: oth if sh['p_bus1'] == bus.ref.val else bus)
    for x in VECS + ['p_elems']: s.extra_fields.add(('brs', x))
    s.gen(bus, 'p_shunt', lambda r, sh: r.random() < .5)
    s.call(bus, 'setYBus', [])
    nb = s.old(bus, 'p_branches', '#n')
    s.assume(t.le(t.I(0), nb))
    st0 = State()

    def contrib(k):
        ref = t.select(s.old(bus, 'p_branches', '[]'), k)
        g = bacc(s.ex, st0, ref)
        is1 = t.eq(bus.ref, s.ex.fld(st0, ref, BR, 'p_bus1').l['']); is2 = t.eq(bus.ref, s.ex.fld(st0, ref, BR, 'p_bus2').l[''])
        def el(i):
            e = Elem(g, i)
            return cite(e.on, cite(e.xform, cite(t.ite(e.sw, is2, is1), e.near(), e.far()), e.y)) + e.shunt_self(is1, is2)
        return csum(el, s.ex.fld(st0, ref, BR, 'p_elems').l[''])
    w = csum(contrib, nb) + cite(s.old(bus, 'p_shunt'), Cx(s.old(bus, 'p_shunt_gs'), s.old(bus, 'p_shunt_bs')))
    post_cx(s, 'diagonal = sum of pi-model self admittances + bus shunt', lambda: (s.now(bus, 'p_ybusr'), s.now(bus, 'p_ybusi')), w,
            'std::complex<double>(o_bus->p_ybusr,o_bus->p_ybusi)')
    return s


def tagged(s, name='br'):
    """a branch whose elements carry distinct or repeated tags, and a tag to look for"""
    br = branch(s, name); elems(s, name)
    s.gen(name, 'p_tag', lambda r, sh: [r.choice(['1 ', '2 ', '3 ', 'BL']) for i in range(sh.setdefault('nel', r.choice([0, 1, 1, 2, 3])))])
    tag = s.input('tag', 'std::string', lambda r, sh: r.choice(['1 ', '2 ', '3 ', 'BL', '9 ']))
    n = s.old(br, 'p_elems')
    g = acc(s, br)
    for v in VECS + ['p_elems']: s.extra_fields.add((name, v))
    sized(s, br, n)
    idx = t.fresh('idx', INT)
    first = [t.le(t.I(0), idx), t.lt(idx, n), t.eq(t.select(g('p_tag'), idx), tag.x), allk(lambda i: t.ne(t.select(g('p_tag'), i), tag.x), idx)]
    none = [allk(lambda i: t.ne(t.select(g('p_tag'), i), tag.x), n)]
    return br, tag, n, g, idx, first, none


def firstof(g, n, tag, f, dflt, m=3):
    """f at the first element carrying the tag, for at most m+1 elements (sampling only)"""
    w = dflt
    for i in range(m, -1, -1):
        c = t.and_(t.lt(t.I(i), n), t.eq(t.select(g('p_tag'), t.I(i)), tag.x))
        v = f(t.I(i))
        w = cite(c, v, w) if isinstance(w, Cx) else t.ite(c, v, w)
    return w


def s_elements(c):
    """what a branch reports for one element is the element's pi-model"""
    out = []
    for rv in (False, True):
        meth = 'getRvrsLineElements' if rv else 'getLineElements'
        s = c.scen('YMBranch::' + meth)
        br, tag, n, g, idx, first, none = tagged(s)
        nondegenerate(s, br)
        yii, yij = s.outvar('yii', 'std::complex<double>'), s.outvar('yij', 'std::complex<double>')
        s.call(br, meth, [tag, s.outptr(yii), s.outptr(yij)], cargs='in_tag, &yii, &yij')
        self_ = lambda e: cite(t.and_(e.xform, (e.sw if rv else t.not_(e.sw))), e.near(), e.far())
        mut = lambda e: e.y21() if rv else e.y12()
        e = Elem(g, idx)
        post_cx(s, 'self admittance of the element', lambda: (s.outval(yii, '.re'), s.outval(yii, '.im')), self_(e), hyps=first)
        post_cx(s, 'transfer admittance of the element', lambda: (s.outval(yij, '.re'), s.outval(yij, '.im')), mut(e), hyps=first)
        post_cx(s, 'unknown element', lambda: (s.outval(yii, '.re'), s.outval(yii, '.im')), Cx(0, 0), 'yii', hyps=none)
        post_cx(s, 'unknown element, transfer', lambda: (s.outval(yij, '.re'), s.outval(yij, '.im')), Cx(0, 0), 'yij', hyps=none)
        w1 = firstof(g, n, tag, lambda i: self_(Elem(g, i)), Cx(0, 0)); w2 = firstof(g, n, tag, lambda i: mut(Elem(g, i)), Cx(0, 0))
        s.sampled('self.re', w1.re, 'yii.real()'); s.sampled('self.im', w1.im, 'yii.imag()')
        s.sampled('transfer.re', w2.re, 'yij.real()'); s.sampled('transfer.im', w2.im, 'yij.imag()')
        out.append(s)
    return out


def s_tags(c):
    """queries and updates of one element address the first element with that tag and no other"""
    out = []
    for meth, fld_, dflt in (('getLineStatus', 'p_branch_status', t.FALSE), ('getSusceptance', 'p_charging', t.R(0))):
        s = c.scen('YMBranch::%s by tag' % meth)
        br, tag, n, g, idx, first, none = tagged(s)
        r = s.call(br, meth, [tag], cargs='in_tag', ret='r')
        s.post('value of the tagged element', r.x if r else None, t.select(g(fld_), idx), hyps=first)
        s.post('unknown tag', r.x if r else None, dflt, native='r', hyps=none)
        s.sampled('value', firstof(g, n, tag, lambda i: t.select(g(fld_), i), dflt), 'r')
        out.append(s)
    s = c.scen('YMBranch::setLineStatus')
    br, tag, n, g, idx, first, none = tagged(s)
    on = s.input('on', 'bool', lambda r, sh: r.random() < .5)
    g2 = acc(s, br, False)
    r = s.call(br, 'setLineStatus', [tag, on], cargs='in_tag, in_on', ret='r')
    s.post('found', r.x if r else None, t.TRUE, hyps=first)
    s.post('not found', r.x if r else None, t.FALSE, native='r', hyps=none)
    s.post_each('tagged element switched, others kept', n, lambda k: t.select(g2('p_branch_status'), k), lambda k: t.ite(t.eq(k, idx), on.x, t.select(g('p_branch_status'), k)), hyps=first)
    s.post('branch becomes present', lambda: s.now(br, 'p_active'), t.or_(s.old(br, 'p_active'), on.x), hyps=first)
    s.post('presence unchanged', lambda: s.now(br, 'p_active'), s.old(br, 'p_active'), 'o_br->p_active', hyps=none)
    s.sampled('presence', t.or_(s.old(br, 'p_active'), t.and_(on.x, t.or_(*[t.and_(t.lt(t.I(j), n), t.eq(t.select(g('p_tag'), t.I(j)), tag.x)) for j in range(3)]))), 'o_br->p_active')
    s.post_each('nothing switched', n, lambda k: t.select(g2('p_branch_status'), k), lambda k: t.select(g('p_branch_status'), k), native='o_br->p_branch_status', hyps=none)
    for i in range(3):
        before = t.or_(*([t.FALSE] + [t.eq(t.select(g('p_tag'), t.I(j)), tag.x) for j in range(i)]))
        s.sampled('element %d' % i, t.ite(t.and_(t.not_(before), t.eq(t.select(g('p_tag'), t.I(i)), tag.x)), on.x, t.select(g('p_branch_status'), t.I(i))),
                  '(%d < o_br->p_elems ? (bool)o_br->p_branch_status[%d] : false)' % (i, i), hyps=[t.lt(t.I(i), n)])
    out.append(s)
    s = c.scen('YMBranch tags and statuses')
    br = branch(s); g = acc(s, br)
    nb = s.old(br, 'p_tag', '#n'); ns = s.old(br, 'p_branch_status', '#n')
    r = s.call(br, 'getLineTags', [], ret='tags')
    q = s.call(br, 'getLineStatus', [], ret='stat', nparams=0)
    s.post('number of tags', r.l['#n'] if r else None, nb, native='tags.size()')
    s.post('number of statuses', q.l['#n'] if q else None, ns, native='stat.size()')
    s.post_each('tags', nb, lambda k: t.select(r.l['[]'], k), lambda k: t.select(g('p_tag'), k), native='tags')
    s.post_each('statuses', ns, lambda k: t.select(q.l['[]'], k), lambda k: t.select(g('p_branch_status'), k), native='stat')
    out.append(s)
    return out


def s_values(c):
    """the matrix receives the computed admittances"""
    out = []
    s = c.scen('YMBus matrix block')
    b = s.obj('bus', BUS)
    s.call(b, 'setMode', [t.I(0)], cargs='0')
    v = s.buf('v', 'std::complex<double>', 1)
    r = s.call(b, 'matrixDiagValues', [v], cargs='v', ret='r')
    iso = s.old(b, 'p_isolated')
    s.post('present unless isolated', r.x if r else None, t.not_(iso), native='r')
    post_cx(s, 'diagonal entry', lambda: (s.bufat(v, 0, '.re'), s.bufat(v, 0, '.im')), (s.old(b, 'p_ybusr'), s.old(b, 'p_ybusi')), 'v[0]', hyps=[t.not_(iso)])
    out.append(s)
    for dirn, f1 in (('Forward', 'frwd'), ('Reverse', 'rvrs')):
        s = c.scen('YMBranch %s matrix block' % dirn.lower())
        br = s.obj('br', BR); b1, b2 = s.obj('b1', BUS), s.obj('b2', BUS)
        s.link(br, 'p_bus1', b1); s.link(br, 'p_bus2', b2)
        s.native('o_br->setBus1(o_b1); o_br->setBus2(o_b2);')
        s.call(br, 'setMode', [t.I(0)], cargs='0')
        v = s.buf('v', 'std::complex<double>', 1)
        r = s.call(br, 'matrix%sValues' % dirn, [v], cargs='v', ret='r')
        live = t.and_(s.old(br, 'p_active'), t.not_(s.old(b1, 'p_isolated')), t.not_(s.old(b2, 'p_isolated')))
        s.post('present exactly between connected buses', r.x if r else None, live, native='r')
        post_cx(s, 'off-diagonal entry', lambda: (s.bufat(v, 0, '.re'), s.bufat(v, 0, '.im')), (s.old(br, 'p_ybusr_' + f1), s.old(br, 'p_ybusi_' + f1)), 'v[0]', hyps=[live])
        out.append(s)
    s = c.scen('YMBus::addShuntValues')
    b = s.obj('bus', BUS)
    gs, bs = s.input('gs', 'double'), s.input('bs', 'double')
    bl, gl = s.outvar('bl', 'double'), s.outvar('gl', 'double')
    s.call(b, 'addShuntValues', [gs, bs], cargs='in_gs, in_bs')
    s.call(b, 'getShuntValues', [s.outptr(bl), s.outptr(gl)], cargs='&bl, &gl')
    s.post('shunt counts', lambda: s.now(b, 'p_shunt'), t.TRUE, native='o_bus->p_shunt')
    s.post('conductance', lambda: s.outval(gl), s.old(b, 'p_shunt_gs') + gs.x, native='gl')
    s.post('susceptance', lambda: s.outval(bl), s.old(b, 'p_shunt_bs') + bs.x, native='bl')
    out.append(s)
    return out


BRKEYS = dict(p_reactance='BRANCH_X', p_resistance='BRANCH_R', p_charging='BRANCH_B', p_shunt_admt_g1='BRANCH_SHUNT_ADMTTNC_G1',
              p_shunt_admt_b1='BRANCH_SHUNT_ADMTTNC_B1', p_shunt_admt_g2='BRANCH_SHUNT_ADMTTNC_G2', p_shunt_admt_b2='BRANCH_SHUNT_ADMTTNC_B2')


def branch_bag(s):
    """the data of a branch: impedance and charging present for every element, the other items optional"""
    b = Bag(s, required=[key(k) for k in list(BRKEYS.values()) + ['BRANCH_NUM_ELEMENTS', 'CASE_SBASE', 'BRANCH_CKT']])
    b.gen(key('BRANCH_NUM_ELEMENTS'), lambda r, sh: b.size(sh, r))
    b.gen(key('BRANCH_CKT'), lambda r, sh: r.choice(['1 ', '2 ', 'BL']))
    b.gen(key('BRANCH_STATUS'), lambda r, sh: r.choice([0, 1, 1]))
    b.gen(key('BRANCH_TAP'), lambda r, sh: r.choice([0.0, 1.0, r.pos()]))
    b.gen(key('BRANCH_SHIFT'), lambda r, sh: r.choice([0.0, r.uniform(-90, 90)]))
    b.n = b.val(key('BRANCH_NUM_ELEMENTS'), None, 'int')
    s.assume(t.le(t.I(0), b.n))
    b.sw = lambda i: t.and_(b.has(key('BRANCH_SWITCHED'), i, 'bool'), b.val(key('BRANCH_SWITCHED'), i, 'bool'))
    b.on = lambda i: t.ne(b.get(key('BRANCH_STATUS'), i, 'int', 1), t.I(0))
    b.tap = lambda i: b.get(key('BRANCH_TAP'), i, 'double', 0)
    b.shift = lambda i: b.get(key('BRANCH_SHIFT'), i, 'double', 0) * t.PI / 180
    return b


def s_load(c):
    out = []
    s = c.scen('YMBranch::load')
    br = branch(s)
    b = branch_bag(s)
    s.call(br, 'load', [b.arg()], cargs=b.name)
    s.post('number of elements', lambda: s.now(br, 'p_elems'), b.n, 'o_br->p_elems')
    def vec(f, want):
        s.post('size of ' + f, lambda: s.now(br, f, '#n'), b.n, '(int)o_br->%s.size()' % f)
        s.post_each(f, b.n, lambda k: t.select(s.now(br, f, '[]'), k), want, 'o_br->' + f)
    for f, k in BRKEYS.items(): vec(f, lambda i, k=k: b.val(key(k), i))
    vec('p_tap_ratio', b.tap); vec('p_phase_shift', b.shift)
    vec('p_xform', lambda i: t.ne(b.tap(i), t.R(0)))
    vec('p_shunt', lambda i: t.TRUE)
    vec('p_branch_status', b.on); vec('p_switched', b.sw)
    vec('p_tag', lambda i: b.val(key('BRANCH_CKT'), i, 'std::string'))
    st = key('BRANCH_STATUS')
    s.assume(allk(lambda i: t.implies(b.has(st, i, 'int'), t.or_(t.eq(b.val(st, i, 'int'), t.I(0)), t.eq(b.val(st, i, 'int'), t.I(1)))), b.n))
    i = t.fresh('i', INT)
    s.ensure('present when an element is in service', lambda: t.eq(s.now(br, 'p_active'), t.exists((i,), t.and_(t.le(t.I(0), i), t.lt(i, b.n), b.on(i)))))
    s.sampled('present', t.or_(*[t.and_(t.lt(t.I(j), b.n), b.on(t.I(j))) for j in range(4)]), 'o_br->p_active')
    out.append(s)
    s = c.scen('YMBus::load')
    bus = s.obj('bus', BUS)
    for f in ('p_isolated', 'p_referenceBus'): s.gen(bus, f, lambda r, sh: r.random() < .2)
    ks = key('CASE_SBASE'), key('BUS_SHUNT_GL'), key('BUS_SHUNT_BL'), key('BUS_TYPE'), key('SHUNT_BINIT')
    b = Bag(s, required=ks[:4], sizes=(1, 2))
    b.gen(ks[0], lambda r, sh: r.choice([100.0, 1.0, r.pos()])); b.gen(ks[3], lambda r, sh: r.choice([1, 2, 3, 4]))
    S = b.val(ks[0])
    s.assume(t.ne(S, t.R(0)))
    s.call(bus, 'load', [b.arg()], cargs=b.name)
    s.post('shunt counts', lambda: s.now(bus, 'p_shunt'), t.TRUE, 'o_bus->p_shunt')
    s.post('shunt conductance in p.u.', lambda: s.now(bus, 'p_shunt_gs'), b.val(ks[1], 0) / S, 'o_bus->p_shunt_gs')
    s.post('shunt susceptance in p.u.', lambda: s.now(bus, 'p_shunt_bs'), t.ite(b.has(ks[4]), b.val(ks[4]), b.val(ks[2], 0)) / S, 'o_bus->p_shunt_bs')
    ty = b.val(ks[3], None, 'int')
    s.post('isolated', lambda: s.now(bus, 'p_isolated'), t.or_(s.old(bus, 'p_isolated'), t.eq(ty, t.I(4))), '(bool)o_bus->p_isolated')
    s.post('reference', lambda: s.now(bus, 'p_refBus'), t.or_(s.old(bus, 'p_refBus'), t.eq(ty, t.I(3))), '(bool)o_bus->p_refBus')
    out.append(s)
    return out


def s_param(c):
    """changing one parameter of one element changes that parameter only"""
    out = []
    for nm, f in (('BRANCH_X', 'p_reactance'), ('BRANCH_R', 'p_resistance'), ('BRANCH_TAP', 'p_tap_ratio'), ('BRANCH_SHIFT', 'p_phase_shift')):
        s = c.scen('YMBranch::setParam ' + nm)
        br = branch(s); g = acc(s, br); g2 = acc(s, br, False)
        for v in VECS: s.extra_fields.add(('br', v))
        w = s.input('v', 'double'); i = s.input('i', 'int', lambda r, sh: 0)
        n = s.old(br, f, '#n')
        s.assume(t.le(t.I(0), i.x), t.lt(i.x, n))
        s.gen(br, 'p_elems', lambda r, sh: sh.setdefault('nel', r.choice([1, 2, 3])))
        s.call(br, 'setParam', [s_str(s, key(nm)), w, i], cargs='"%s", in_v, in_i' % key(nm))
        for v in VECS:
            m = s.old(br, v, '#n')
            s.post('size of ' + v, lambda v=v: s.now(br, v, '#n'), m, '(int)o_br->%s.size()' % v)
            s.post_each(v, m, lambda k, v=v: t.select(g2(v), k), lambda k, v=v: t.ite(t.eq(k, i.x), w.x, t.select(g(v), k)) if v == f else t.select(g(v), k), 'o_br->' + v)
        out.append(s)
    s = c.scen('YMBus::setParam')
    b = s.obj('bus', BUS)
    w = s.input('v', 'double')
    s.call(b, 'setParam', [s_str(s, key('BUS_SHUNT_BL')), w, t.I(0)], cargs='"%s", in_v, 0' % key('BUS_SHUNT_BL'))
    s.post('susceptance', lambda: s.now(b, 'p_shunt_bs'), w.x, 'o_bus->p_shunt_bs')
    s.post('conductance', lambda: s.now(b, 'p_shunt_gs'), s.old(b, 'p_shunt_gs'), 'o_bus->p_shunt_gs')
    out.append(s)
    s = c.scen('YMBus setters')
    b = s.obj('bus', BUS)
    for f in ('p_isolated',): s.extra_fields.add(('bus', f))
    fl = s.input('fl', 'bool'); re, im = s.input('re', 'double'), s.input('im', 'double')
    s.call(b, 'setIsolated', [fl], cargs='in_fl')
    s.call(b, 'setYBusDiag', [re, im], cargs='in_re, in_im')
    r = s.call(b, 'isIsolated', [], ret='iso')
    y = s.call(b, 'getYBus', [], ret='yb')
    s.post('isolated', r.x if r else None, fl.x, 'iso')
    post_cx(s, 'diagonal', y, (re.x, im.x), 'yb')
    out.append(s)
    return out


def s_str(s, v): return Val(s.type('std::string'), {'': t.S(v)})




SCENARIOS = [s_offdiag, s_getters, s_contrib, s_contrib_any, s_diag, s_elements, s_tags, s_values, s_load, s_param]
