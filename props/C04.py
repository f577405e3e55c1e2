"""Declared block sizes agree with the values delivered and with the blocks of the neighbouring components."""
from props.pf import *
import props.C02 as c2

CX = 'std::complex<double>'
REALMODES = ('Jacobian',)


def isreal(f): return 'complex' not in f['params'][0]['t'].s
def iscx(f): return 'complex' in f['params'][0]['t'].s


def busprep(s, mode, cls=BUS):
    bus, oth, f = c2.network(s)
    coupled(s, bus)
    s.call(bus, 'setMode', [t.I(MODES[mode])], cargs='%d' % MODES[mode])
    return bus


def untouched(s, buf, n, total, native, label, parts, first=0):
    """nothing is written beyond the declared number of values"""
    for k in range(first, total):
        for leaf, acc in parts:
            s.post('%s[%d]%s not written beyond the declared size' % (label, k, leaf), (lambda k=k, leaf=leaf: s.bufat(buf, k, leaf)),
                   s.ex.rawget(State(), ('M', buf.elt.s, 'mem'), (buf.l['^b'], t.I(k)), leaf, REAL), native='%s[%d]%s' % (native, k, acc),
                   hyps=[t.le(n, t.I(k))])


def s_busblock(c):
    """diagonal block: present exactly when values are delivered; nothing beyond size*size is written"""
    out = []
    for mode in ('Jacobian', 'YBus'):
        for typ in ('double', CX):
            if mode == 'YBus' and typ == 'double': continue
            s = c.scen('PFBus diagonal block %s %s' % (mode, typ))
            bus = busprep(s, mode)
            iso, ref, pv = s.old(bus, 'p_isolated'), s.old(bus, 'p_referenceBus') if 0 else None, s.old(bus, 'p_isPV')
            isz, jsz = s.outvar('isz', 'int'), s.outvar('jsz', 'int')
            v = s.buf('v', typ, 4)
            r = s.call(bus, 'matrixDiagSize', [s.outptr(isz), s.outptr(jsz)], cargs='&isz, &jsz', ret='has')
            w = s.call(bus, 'matrixDiagValues', [v], cargs='v', ret='filled', pred=isreal if typ == 'double' else iscx)
            rb = s.call(bus, 'getReferenceBus', [], ret='isref')
            R_ = rb.x if rb else t.FALSE
            if mode == 'Jacobian':
                has = t.and_(t.not_(iso), t.not_(R_))
                dim = t.ite(pv, t.I(1), t.I(2))
            else:
                has = t.not_(iso); dim = t.I(1)
            if s.limited: continue
            s.post('block present', r.x, has, native='has')
            s.post('values delivered when a block is present', w.x, has, native='filled')
            s.post('rows', lambda: s.outval(isz), dim, native='isz', hyps=[has])
            s.post('columns', lambda: s.outval(jsz), dim, native='jsz', hyps=[has])
            untouched(s, v, t.ite(has, dim * dim, t.I(0)), 4, 'v', 'value', [('', '')] if typ == 'double' else [('.re', '.real()'), ('.im', '.imag()')])
            out.append(s)
    return out


def s_busvec(c):
    out = []
    for mode in ('RHS', 'S_Cal', 'State'):
        for typ in ('double', CX):
            if mode == 'S_Cal' and typ == 'double': continue
            s = c.scen('PFBus vector block %s %s' % (mode, typ), contracts=c2.CON)
            bus = busprep(s, mode)
            iso, pv = s.old(bus, 'p_isolated'), s.old(bus, 'p_isPV')
            sz = s.outvar('sz', 'int')
            v = s.buf('v', typ, 2)
            r = s.call(bus, 'vectorSize', [s.outptr(sz)], cargs='&sz', ret='has')
            rb = s.call(bus, 'getReferenceBus', [], ret='isref')
            if s.limited: continue
            # the mapper asks for values only where a block was declared
            has = t.TRUE if mode == 'S_Cal' else t.and_(t.not_(iso), t.not_(rb.x))
            dim = t.I(1) if mode == 'S_Cal' else t.ite(pv, t.I(1), t.I(2))
            s.post('block present', r.x, has, native='has')
            s.post('length', lambda: s.outval(sz), dim, native='sz', hyps=[has])
            w = s.call(bus, 'vectorValues', [v], cargs='v', ret='filled', pred=isreal if typ == 'double' else iscx)
            s.post('values delivered when a block is present', w.x if w else None, t.TRUE, native='filled', hyps=[has])
            untouched(s, v, t.ite(has, dim, t.I(2)), 2, 'v', 'value', [('', '')] if typ == 'double' else [('.re', '.real()'), ('.im', '.imag()')], 1)
            if mode == 'State':
                b = Bus(s, bus)
                a = [('', '')] if typ == 'double' else [('.re', '.real()')]
                for leaf, acc in a:
                    s.post('first unknown is the angle', lambda: s.bufat(v, 0, leaf), b.x('p_a'), native='v[0]%s' % acc, hyps=[has])
                    s.post('second unknown is the magnitude', lambda: s.bufat(v, 1, leaf), b.x('p_v'), native='v[1]%s' % acc, hyps=[has, t.not_(pv)])
            out.append(s)
    return out


def s_brblock(c):
    """off-diagonal blocks: present exactly when both ends carry equations; shape = equations at one end x unknowns at the other"""
    out = []
    for dirn in ('Forward', 'Reverse'):
        for mode, typ in (('Jacobian', 'double'), ('Jacobian', CX), ('YBus', CX)):
            s = c.scen('PFBranch %s block %s %s' % (dirn.lower(), mode, typ))
            br = s.obj('br', BR); b1, b2 = s.obj('b1', BUS), s.obj('b2', BUS)
            gens_bus(s, 'b1'); gens_bus(s, 'b2')
            ends(s, br, b1, b2)
            s.gen('br', 'p_active', lambda r, sh: r.random() < .8)
            for o in (b1, b2, br): s.call(o, 'setMode', [t.I(MODES['RHS' if o is not br and mode == 'Jacobian' else mode])], cargs='%d' % MODES['RHS' if o is not br and mode == 'Jacobian' else mode])
            isz, jsz = s.outvar('isz', 'int'), s.outvar('jsz', 'int')
            s1, s2 = s.outvar('s1', 'int'), s.outvar('s2', 'int')
            v = s.buf('v', typ, 4)
            r = s.call(br, 'matrix%sSize' % dirn, [s.outptr(isz), s.outptr(jsz)], cargs='&isz, &jsz', ret='has')
            w = s.call(br, 'matrix%sValues' % dirn, [v], cargs='v', ret='filled', pred=isreal if typ == 'double' else iscx)
            meth = 'vectorSize'
            act = s.ex.fld(State(), br.ref, BR if mode == 'Jacobian' else YBR, 'p_active').l['']
            if mode == 'Jacobian':
                h1 = s.call(b1, meth, [s.outptr(s1)], cargs='&s1', ret='h1')
                h2 = s.call(b2, meth, [s.outptr(s2)], cargs='&s2', ret='h2')
            else:
                j1, j2 = s.outvar('j1', 'int'), s.outvar('j2', 'int')
                h1 = s.call(b1, 'matrixDiagSize', [s.outptr(s1), s.outptr(j1)], cargs='&s1, &j1', ret='h1')
                h2 = s.call(b2, 'matrixDiagSize', [s.outptr(s2), s.outptr(j2)], cargs='&s2, &j2', ret='h2')
            if s.limited: continue
            B1, B2 = Bus(s, b1), Bus(s, b2)
            ref = [s.call(o, 'getReferenceBus', [], ret='rf_' + o.name).x for o in (b1, b2)]
            live = lambda B, rf: t.and_(t.not_(B.x('p_isolated')), t.not_(rf)) if mode == 'Jacobian' else t.not_(B.x('p_isolated'))
            dim = lambda B: t.ite(B.x('p_isPV'), t.I(1), t.I(2)) if mode == 'Jacobian' else t.I(1)
            has = t.and_(act, live(B1, ref[0]), live(B2, ref[1]))
            s.post('block present', r.x, has, native='has')
            s.post('values delivered when a block is present', w.x, has, native='filled')
            s.ensure('block only where both ends carry blocks', lambda: t.implies(r.x, t.and_(h1.x, h2.x)), native='!has || (h1 && h2)')
            me, other = (s1, s2) if dirn == 'Forward' else (s2, s1)
            s.ensure('rows agree with the equations at this end', lambda: t.implies(r.x, t.eq(s.outval(isz), s.outval(me))), native='!has || isz == %s' % ('s1' if me is s1 else 's2'))
            s.ensure('columns agree with the unknowns at the far end', lambda: t.implies(r.x, t.eq(s.outval(jsz), s.outval(other))), native='!has || jsz == %s' % ('s1' if other is s1 else 's2'))
            n = dim(B1) * dim(B2)
            untouched(s, v, t.ite(has, n, t.I(0)), 4, 'v', 'value', [('', '')] if typ == 'double' else [('.re', '.real()'), ('.im', '.imag()')])
            out.append(s)
    return out


SCENARIOS = [s_busblock, s_busvec, s_brblock]
