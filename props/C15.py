"""Full-Y network: set-points, scaling, switching, totals and observation of the equipment of a bus, for any number of items."""
import props.C13 as c13
from props.C13 import B, each, CLEAN, DSF, GHOST, NS, ZERO, ONE
from props.C09 import Item, TAGS
from fractions import Fraction
from props.common import *
from props.bag import Bag, key

SOURCES, NATIVE, INCS = c13.SOURCES, c13.NATIVE, c13.INCS
BUS = NS + 'DSFullBus'
GD = ('p_pg', 'p_qg', 'p_savePg', 'p_gpmin', 'p_gpmax')
PL = ('p_powerflowload_p', 'p_powerflowload_q', 'p_powerflowload_p_save', 'p_powerflowload_q_save')
MON = ('p_previousFrequency', 'p_upIntervalStart', 'p_downIntervalStart', 'p_upStartedMonitoring', 'p_downStartedMonitoring')
GV, LV = GD + ('p_gstatus', 'p_genid'), PL + ('p_powerflowload_status', 'p_loadid')
IDS = ['1 ', '2 ', '3 ', 'G1']


class D(B):
    """a bus of the full-Y network with its machines, dynamic loads and power-flow loads"""
    def __init__(q, c, name):
        B.__init__(q, c, name)
        s = q.s
        ng = lambda r, sh: sh.setdefault('ng', r.small())
        nl = lambda r, sh: sh.setdefault('nl', r.small())
        np = lambda r, sh: sh.setdefault('np', r.small())
        vec = lambda f, n: (lambda r, sh: [f(r) for _ in range(n(r, sh))])
        for f in GD: s.gen(q.b, f, vec(lambda r: r.rv(), ng))
        for f in PL: s.gen(q.b, f, vec(lambda r: r.rv(), np))
        for f in MON[:3]: s.gen(q.b, f, vec(lambda r: r.choice([r.rv(), 60.0, 61.2]), ng))
        for f in MON[3:]: s.gen(q.b, f, vec(lambda r: r.random() < .5, ng))
        s.gen(q.b, 'p_powerflowload_status', vec(lambda r: r.randrange(2), np))
        s.gen(q.b, 'p_genid', vec(lambda r: r.choice(IDS), ng)); s.gen(q.b, 'p_loadid', vec(lambda r: r.choice(IDS), np)); s.gen(q.b, 'p_dynamic_loadid', vec(lambda r: r.choice(IDS), nl))
        s.gen(q.b, 'p_npowerflow_load', np)
        s.gen(q.b, 'p_sbase', lambda r, sh: r.choice([100.0, 50.0, 1000.0]))
        q.np = q.f('p_npowerflow_load')
        s.assume(t.le(t.I(0), q.np), t.eq(q.f('p_dynamic_loadid', '#n'), q.nl))
        for f in GV + MON: s.assume(t.eq(q.f(f, '#n'), q.ng))
        for f in LV: s.assume(t.eq(q.f(f, '#n'), q.np))
        for f in GV + LV + MON + ('p_npowerflow_load', 'p_sbase', 'p_ngen', 'p_dynamic_loadid'): s.extra_fields.add(('b', f)); s.skip_fields.discard(f)

    def v(q, f, i): return t.select(q.f(f, '[]'), t.lift(i, INT))
    def vn(q, f, i): return t.select(q.s.now(q.b, f, '[]'), t.lift(i, INT))
    def item(q, tag, loads=False): return Item(q.s, q.f('p_loadid' if loads else 'p_genid', '[]'), q.np if loads else q.ng, tag.x)

    def frame(q, change, label='', hyps=()):
        """the vectors named take the given values, all others keep theirs"""
        s = q.s
        for f in GV + LV + MON:
            if change.get(f, 0) is None: continue
            n = q.np if f in LV else q.ng
            w = change.get(f, lambda i, f=f: q.v(f, i))
            nat = None if hyps else ('std::vector<double>(o_b->%s.begin(), o_b->%s.end())' % (f, f) if f in MON[3:] else 'o_b->' + f)
            s.post_each('%s%s' % (f, label), n, lambda k, f=f: q.vn(f, k), w, nat, hyps=hyps)
            s.post('size of %s%s' % (f, label), lambda f=f: s.now(q.b, f, '#n'), n, None if hyps else '(int)o_b->%s.size()' % f, hyps=hyps)

    def at_item(q, it, change):
        s = q.s
        ch = {f: (lambda k, f=f: t.ite(t.eq(k, it.idx), change[f](k), q.v(f, k))) for f in change}
        q.frame(ch, ' (item found)', it.first)
        q.frame({}, ' (no such item)', it.none)
        for f in GV + LV:
            n = q.np if f in LV else q.ng
            zero = 'std::string()' if f in ('p_genid', 'p_loadid') else '0'
            for j in range(3):
                w = q.v(f, j)
                if f in change: w = t.ite(it.hit(j), change[f](t.I(j)), w)
                s.sampled('%s of item %d' % (f, j), w, '(%d < (int)o_b->%s.size() ? o_b->%s[%d] : %s)' % (j, f, f, j, zero), hyps=[t.lt(t.I(j), n)])

    def case(q, bag, it, K, w, ct='double', label='case data follow', hyps=()):
        """the case data of the item found take the value, those of all others stay"""
        s = q.s
        k = t.fresh('k', INT)
        H = it.first + list(hyps) + [bag.has(key(K), it.idx, ct)]
        s.ensure('%s: %s' % (label, K), lambda: t.and_(t.eq(bag.val(key(K), it.idx, ct, '', s.st), w(it.idx)), bag.has(key(K), it.idx, ct, s.st)), hyps=H)
        s.ensure('%s: %s of the others stay' % (label, K), lambda: t.implies(t.ne(k, it.idx), t.eq(bag.val(key(K), k, ct, '', s.st), bag.val(key(K), k, ct))), hyps=H)
        s.ensure('%s: %s of all stay (no such item)' % (label, K), lambda: t.eq(bag.val(key(K), k, ct, '', s.st), bag.val(key(K), k, ct)), hyps=it.none)
        for j in range(3):
            s.sampled('%s: %s of item %d' % (label, K, j), w(t.I(j)), '[&]{ %s x=-99; %s->getValue("%s", &x, %d); return x; }()' % (ct, bag.name, key(K), j), hyps=[t.lt(t.I(j), it.n), it.hit(j), bag.has(key(K), t.I(j), ct)] + list(hyps))


def tagin(s): return s.input('tag', 'std::string', lambda r, sh: r.choice(IDS + ['9 ']))


def s_set(c):
    """set-points and status of the machine named, in the bus and in the case data"""
    out = []
    q = D(c, 'DSFullBus::setGeneratorRealPower'); s = q.s
    tag, v = tagin(s), s.input('v', 'double')
    bag = Bag(s, sizes=(3,)); it = q.item(tag)
    s.call(q.b, 'setGeneratorRealPower', [tag, v, bag.ref], cargs='in_tag, in_v, %s.get()' % bag.name)
    q.at_item(it, {'p_pg': lambda k: v.x})
    q.case(bag, it, 'GENERATOR_PG', lambda k: v.x)
    out.append(s)
    q = D(c, 'DSFullBus::setGeneratorStatus'); s = q.s
    tag, on = tagin(s), s.input('on', 'int', lambda r, sh: r.choice([0, 1]))
    bag = Bag(s, sizes=(3,)); it = q.item(tag)
    s.call(q.b, 'setGeneratorStatus', [tag, on, bag.ref], cargs='in_tag, in_on, %s.get()' % bag.name)
    off = t.eq(on.x, t.I(0))
    q.at_item(it, {'p_gstatus': lambda k: on.x, 'p_pg': lambda k: t.ite(off, ZERO, q.v('p_pg', k)), 'p_qg': lambda k: t.ite(off, ZERO, q.v('p_qg', k))})
    q.case(bag, it, 'GENERATOR_STAT', lambda k: on.x, 'int')
    for K in ('GENERATOR_PG', 'GENERATOR_QG'): q.case(bag, it, K, lambda k: ZERO, hyps=[off], label='case data of a machine switched off')
    out.append(s)
    return out


def s_scale(c):
    out = []
    q = D(c, 'DSFullBus::scaleGeneratorRealPower'); s = q.s
    tag = tagin(s); v = s.input('v', 'double', lambda r, sh: r.choice([0.0, r.uniform(-1, 1), 1.0, -1.0]))
    bag = Bag(s, sizes=(3,)); it = q.item(tag)
    s.call(q.b, 'scaleGeneratorRealPower', [tag, v, bag.byval()], cargs='in_tag, in_v, ' + bag.name)
    x = lambda k: q.v('p_pg', k) + v.x * t.ite(t.lt(ZERO, v.x), q.v('p_gpmax', k) - q.v('p_pg', k), q.v('p_pg', k) - q.v('p_gpmin', k))
    q.at_item(it, {'p_pg': x})
    q.case(bag, it, 'GENERATOR_PG', x)
    out.append(s)
    q = D(c, 'DSFullBus::scaleLoadPower'); s = q.s
    tag, v = tagin(s), s.input('v', 'double'); it = q.item(tag, True)
    s.call(q.b, 'scaleLoadPower', [tag, v], cargs='in_tag, in_v')
    q.at_item(it, {f: lambda k, f=f: v.x * q.v(f, k) for f in PL[:2]})
    out.append(s)
    q = D(c, 'DSFullBus::resetPower'); s = q.s
    bag = Bag(s, sizes=(3,))
    s.call(q.b, 'resetPower', [bag.byval()], cargs=bag.name)
    q.frame({'p_pg': lambda k: q.v('p_savePg', k), PL[0]: lambda k: q.v(PL[2], k), PL[1]: lambda k: q.v(PL[3], k)})
    k = t.fresh('k', INT)
    s.ensure('case data of the machines', lambda: t.and_(t.eq(bag.val(key('GENERATOR_PG'), k, st=s.st), q.v('p_savePg', k)), bag.has(key('GENERATOR_PG'), k, 'double', s.st)), hyps=[t.le(t.I(0), k), t.lt(k, q.ng), bag.has(key('GENERATOR_PG'), k)])
    for j in range(3): s.sampled('case datum %d' % j, q.v('p_savePg', j), '[&]{ double x=-99; %s->getValue("%s", &x, %d); return x; }()' % (bag.name, key('GENERATOR_PG'), j), hyps=[t.lt(t.I(j), q.ng), bag.has(key('GENERATOR_PG'), t.I(j))])
    out.append(s)
    return out


def s_lists(c):
    """what is reported of every item, and the totals of the items in service"""
    out = []
    for fn, spec, src in (('getGeneratorMargins', (('tag', 'std::string'), ('cur', 'double'), ('lo', 'double'), ('hi', 'double'), ('on', 'int')), ('p_genid', 'p_savePg', 'p_gpmin', 'p_gpmax', 'p_gstatus')),
                          ('getLoadPower', (('tag', 'std::string'), ('pl', 'double'), ('ql', 'double'), ('on', 'int')), ('p_loadid', PL[2], PL[3], 'p_powerflowload_status'))):
        q = D(c, 'DSFullBus::' + fn); s = q.s
        lv = {}
        for nm, ct in spec:
            lv[nm] = s.outvar(nm, 'std::vector<%s>' % ct)
            ty = lv[nm][0][1].ty
            s.ex.write(s.st, lv[nm][0][1], Val(ty, {l: (t.fresh('n', INT) if l == '#n' else t.fresh(nm, so)) for l, so in s.P.leaves(ty)}))
        s.call(q.b, fn, [lv[nm] for nm, ct in spec], cargs=', '.join(nm for nm, ct in spec))
        n = q.ng if fn.startswith('getG') else q.np
        for (nm, ct), f in zip(spec, src):
            s.post('number of %s' % nm, lambda nm=nm: s.outval(lv[nm], '#n'), n, '(int)%s.size()' % nm)
            s.post_each('list %s' % nm, n, lambda k, nm=nm: t.select(s.outval(lv[nm], '[]'), k), lambda k, f=f: q.v(f, k), native=nm)
        out.append(s)
    for fn, vs, on, gens in (('getTotalLoadPower', PL[:2], 'p_powerflowload_status', False), ('getTotalGeneratorPower', ('p_pg', 'p_qg'), 'p_gstatus', True)):
        q = D(c, 'DSFullBus::' + fn); s = q.s
        o = [s.outvar(n, 'double') for n in ('p', 'qq')]
        for x in o: s.ex.write(s.st, x[0][1], Val(x[0][1].ty, {'': t.fresh('old', REAL)}))
        s.call(q.b, fn, o, cargs='p, qq')
        n = q.ng if gens else q.np
        for k, (nm, f) in enumerate(zip(('p', 'qq'), vs)):
            tot = csum(lambda i, f=f: t.ite(t.ne(q.v(on, i), t.I(0)), q.v(f, i), ZERO), n)
            s.post('total of the items in service, %s' % f, lambda k=k: s.outval(o[k]), tot * q.f('p_sbase') if gens else tot, native=nm)
        out.append(s)
    q = D(c, 'DSFullBus::getGeneratorPower'); s = q.s
    tag = tagin(s); it = q.item(tag)
    o = [s.outvar(n, 'double') for n in ('p', 'qq')]
    for x in o: s.ex.write(s.st, x[0][1], Val(x[0][1].ty, {'': t.fresh('old', REAL)}))
    r = s.call(q.b, 'getGeneratorPower', [tag] + o, cargs='in_tag, p, qq', ret='r')
    s.post('found', r.x if r else None, t.TRUE, hyps=it.first); s.post('no such machine', r.x if r else None, t.FALSE, hyps=it.none)
    for k, (nm, f) in enumerate((('p', 'p_pg'), ('qq', 'p_qg'))):
        s.post('power of the machine, %s' % f, lambda k=k: s.outval(o[k]), q.v(f, it.idx) * q.f('p_sbase'), hyps=it.first)
        s.post('none without a machine, %s' % f, lambda k=k: s.outval(o[k]), ZERO, hyps=it.none)
        w = ZERO
        for j in (3, 2, 1, 0): w = t.ite(t.and_(t.lt(t.I(j), q.ng), it.is_(j)), q.v(f, j) * q.f('p_sbase'), w)
        s.sampled('power %s' % f, w, nm)
    s.sampled('found', it.exists(), 'r')
    out.append(s)
    q = D(c, 'DSFullBus::getGenerators, getLoads, getDynamicLoads, getArea, getZone'); s = q.s
    for fn, f, n in (('getGenerators', 'p_genid', q.ng), ('getLoads', 'p_loadid', q.np), ('getDynamicLoads', 'p_dynamic_loadid', q.nl)):
        r = s.call(q.b, fn, [], ret='r' + f)
        s.post('number, ' + fn, r.l['#n'] if r else None, n, native='(int)r%s.size()' % f)
        s.post_each('list, ' + fn, n, lambda k, r=r: t.select(r.l['[]'], k) if r else t.S(''), lambda k, f=f: q.v(f, k), native='r' + f)
    for fn, f in (('getArea', 'p_area'), ('getZone', 'p_zone')):
        s.gen(q.b, f, lambda r, sh: r.randrange(1, 5))
        r = s.call(q.b, fn, [], ret='r' + f)
        s.post(fn, r.x if r else None, q.f(f), native='r' + f)
    out.append(s)
    return out


def s_named(c):
    """the device with the identifier"""
    out = []
    for fn, arr, ids, n in (('getGenerator', 'p_generators', 'p_genid', 'ng'), ('getLoad', 'p_loadmodels', 'p_dynamic_loadid', 'nl')):
        q = D(c, 'DSFullBus::%s(id)' % fn); s = q.s
        tag = tagin(s)
        it = Item(s, q.f(ids, '[]'), getattr(q, n), tag.x)
        i = t.fresh('i', INT)
        s.assume(t.forall((i,), t.implies(t.and_(t.le(t.I(0), i), t.lt(i, it.n)), t.ne(t.select(q.f(arr, '[]'), i), t.I(0)))))
        r = s.call(q.b, fn, [tag], cargs='in_tag', ret='r', nparams=1)
        s.post('the device of that name', r.l[''] if r else None, t.select(q.f(arr, '[]'), it.idx), hyps=it.first)
        s.post('no device of that name', r.l[''] if r else None, t.I(0), hyps=it.none)
        w = t.I(-1)
        for j in (3, 2, 1, 0): w = t.ite(t.and_(t.lt(t.I(j), it.n), it.is_(j)), t.I(j), w)
        s.sampled('place of the device', w, '[&]{ for (int i=0; i<(int)o_b->%s.size(); i++) if (o_b->%s[i].get() == r) return i; return r ? -2 : -1; }()' % (arr, arr))
        out.append(s)
    q = D(c, 'DSFullBus::getOnlineLoadFraction'); s = q.s
    k = s.input('k', 'int', lambda r, sh: r.randrange(-1, 4))
    r = s.call(q.b, 'getOnlineLoadFraction', [k], cargs='in_k', ret='r')
    inr = t.and_(t.le(t.I(0), k.x), t.lt(k.x, q.nl))
    s.post('fraction of that load', r.x if r else None, t.ite(inr, q.l(k.x, 'online'), ONE), native='r')
    out.append(s)
    # calls forwarded to the machines of that name
    for fn, types, hit, rec in (('applyGeneratorTripping', [], 'n_trip', {}), ('applyGFIAdjustment', ['int', 'double'], 'n_par', {'ptype': 0, 'pval': 1}), ('setWideAreaControlSignal', ['double'], 'n_wide', {'wide': 0})):
        q = D(c, 'DSFullBus::' + fn); s = q.s
        s.ex.contracts.update(CLEAN)
        tag = tagin(s)
        ins = [s.input('a%d' % i, ty) for i, ty in enumerate(types)]
        args, ca = ([ins[0], tag, ins[1]], 'in_a0, in_tag, in_a1') if len(ins) == 2 else ([tag] + ins, ', '.join(['in_tag'] + ['in_a%d' % i for i in range(len(ins))]))
        s.call(q.b, fn, args, cargs=ca)
        mine = lambda i: t.eq(q.v('p_genid', i), tag.x)
        for f in ('n_trip', 'n_par', 'n_wide'): each(q, 'machines reached, ' + f, 'G', q.ng, f, lambda i, f=f: q.g(i, f) + t.ite(mine(i), t.I(1), t.I(0)) if f == hit else q.g(i, f))
        for f, k in rec.items(): each(q, 'machines given ' + f, 'G', q.ng, f, lambda i, f=f, k=k: t.ite(mine(i), ins[k].x, q.g(i, f)))
        out.append(s)
    q = D(c, 'DSFullBus::applyLoadShedding'); s = q.s
    tag, v = tagin(s), s.input('v', 'double')
    s.call(q.b, 'applyLoadShedding', [tag, v], cargs='in_tag, in_v')
    each(q, 'every dynamic load changes once', 'L', q.nl, 'n_change', lambda i: q.l(i, 'n_change') + 1)
    each(q, 'by the given share', 'L', q.nl, 'perc', lambda i: v.x)
    out.append(s)
    return out


def watched(q, i, old=True): return q.s.at('BaseGeneratorModel', t.select(q.f('p_generators', '[]'), i), 'p_watch', old=old)


def s_watch(c):
    """observation of machines and the monitoring of their frequency"""
    out = []
    def mk(name):
        q = D(c, name)
        q.s.gen('G', 'p_watch', lambda r, sh: r.random() < .6); q.s.extra_fields.add(('G', 'p_watch'))
        q.s.gen('G', 'wspeed', lambda r, sh: r.choice([1.0, r.uniform(.97, 1.03), 61.1 / 60, 58.9 / 60]))
        return q, q.s
    wnat = '[&]{ std::vector<double> z; for (int i=0; i<o_b->p_ngen; i++) z.push_back(f_G[i]->p_watch); return z; }()'
    q, s = mk('DSFullBus::setWatch')
    tag, fl = tagin(s), s.input('fl', 'bool', lambda r, sh: r.random() < .5)
    it = q.item(tag)
    s.call(q.b, 'setWatch', [tag, fl], cargs='in_tag, in_fl')
    s.post_each('watched (item found)', q.ng, lambda k: watched(q, k, False), lambda k: t.ite(t.eq(k, it.idx), fl.x, watched(q, k)), hyps=it.first)
    s.post_each('watched (no such item)', q.ng, lambda k: watched(q, k, False), lambda k: watched(q, k), hyps=it.none)
    for j in range(3): s.sampled('watched %d' % j, t.ite(it.hit(j), fl.x, watched(q, t.I(j))), '(%d < o_b->p_ngen ? (bool)f_G[%d]->p_watch : false)' % (j, j), hyps=[t.lt(t.I(j), q.ng)])
    out.append(s)
    q, s = mk('DSFullBus::getWatchedGenerators')
    r = s.call(q.b, 'getWatchedGenerators', [], ret='r')
    on = lambda i: t.and_(q.on(i), watched(q, i))
    cnt = lambda n: csum(lambda i: t.ite(on(i), t.I(1), t.I(0)), n)
    s.post('as many as are watched', r.l['#n'] if r else None, cnt(q.ng), native='(int)r.size()')
    s.post_each('their identifiers, in order', q.ng, lambda i: t.ite(on(i), t.select(r.l['[]'], cnt(i)) if r else t.S(''), t.S('')), lambda i: t.ite(on(i), q.v('p_genid', i), t.S('')), hyps=[t.lt(t.I(0), q.ng)])
    s.sampled('their identifiers', t.TRUE, native='(bool)[&]{ int n = 0; for (int i=0; i<o_b->p_ngen; i++) if (o_b->p_gstatus[i] && f_G[i]->p_watch) if (n >= (int)r.size() || r[n++] != o_b->p_genid[i]) return false; return n == (int)r.size(); }()')
    out.append(s)
    for one in (False, True):
        q, s = mk('DSFullBus::getWatchedValues' + ('(tag)' if one else ''))
        tag = tagin(s)
        r = s.call(q.b, 'getWatchedValues', [tag] if one else [], cargs='in_tag' if one else '', ret='r', nparams=1 if one else 0)
        on = lambda i, q=q, one=one, tag=tag: t.and_(watched(q, i), t.eq(q.v('p_genid', i), tag.x) if one else t.TRUE)
        cnt = lambda n, on=on: csum(lambda i: t.ite(on(i), t.I(4), t.I(0)), n)
        s.post('four values of each', r.l['#n'] if r else None, cnt(q.ng), native='(int)r.size()')
        for k, f in enumerate(('wangle', 'wspeed', 'wp', 'wq')):
            s.post_each('value %d of each, in order' % k, q.ng, lambda i, k=k, cnt=cnt, on=on, r=r: t.ite(on(i), t.select(r.l['[]'], cnt(i) + k) if r else ZERO, ZERO), lambda i, f=f, on=on, q=q: t.ite(on(i), q.g(i, f), ZERO), hyps=[t.lt(t.I(0), q.ng)])
        s.sampled('the values', t.TRUE, native='(bool)[&]{ int n = 0; for (int i=0; i<o_b->p_ngen; i++) if (f_G[i]->p_watch%s) { double w[4] = {f_G[i]->wangle, f_G[i]->wspeed, f_G[i]->wp, f_G[i]->wq}; for (int k=0; k<4; k++) if (n >= (int)r.size() || r[n++] != w[k]) return false; } return n == (int)r.size(); }()' % (' && o_b->p_genid[i] == in_tag' if one else ''))
        out.append(s)
    q, s = mk('DSFullBus::getWatchedValues(index)')
    k = s.input('k', 'int', lambda r, sh: r.randrange(0, max(1, sh.setdefault('ng', r.small()))))
    s.gen(q.b, 'p_ngen', lambda r, sh: sh.setdefault('ng', r.small()))
    s.assume(t.le(t.I(0), k.x), t.lt(k.x, q.ng))
    o = [s.outvar(n, 'double') for n in ('sp', 'an', 'p', 'qq')]
    s.call(q.b, 'getWatchedValues', [k] + [s.outptr(x) for x in o], cargs='in_k, &sp, &an, &p, &qq', nparams=5)
    for x, nm, f in zip(o, ('sp', 'an', 'p', 'qq'), ('wspeed', 'wangle', 'wp', 'wq')): s.post('value ' + f, lambda x=x: s.outval(x), q.g(k.x, f), native=nm)
    out.append(s)
    q, s = mk('DSFullBus::checkFrequency(limit)')
    lim = s.input('lim', 'double', lambda r, sh: r.uniform(59, 62))
    r = s.call(q.b, 'checkFrequency', [lim], cargs='in_lim', ret='r', nparams=1)
    s.post('true iff no watched machine is above the limit', r.x if r else None, allk(lambda i: t.not_(t.and_(watched(q, i), t.lt(lim.x, 60 * q.g(i, 'wspeed')))), q.ng), native='r')
    out.append(s)
    q, s = mk('DSFullBus::checkFrequency(start, time)')
    st, tm = s.input('st', 'double', lambda r, sh: r.uniform(0, 2)), s.input('tm', 'double', lambda r, sh: r.uniform(0, 4))
    for f in MON[1:3]: s.gen(q.b, f, lambda r, sh: [r.uniform(0, 3) for _ in range(sh.setdefault('ng', r.small()))])
    r = s.call(q.b, 'checkFrequency', [st, tm], cargs='in_st, in_tm', ret='r', nparams=2)
    fr = lambda i: 60 * q.g(i, 'wspeed')
    act = lambda i: t.and_(t.le(st.x, tm.x), watched(q, i))
    prev = lambda i: q.v('p_previousFrequency', i)
    up = lambda i: t.lt(t.R(61), fr(i)); rising = lambda i: t.and_(t.lt(prev(i), fr(i)), up(i))
    dn = lambda i: t.lt(fr(i), t.R(59)); falling = lambda i: t.and_(t.lt(fr(i), prev(i)), dn(i))
    half = t.R(Fraction(1, 2))
    bad = lambda i: t.and_(act(i), t.or_(t.and_(q.v(MON[3], i), rising(i), t.le(half, tm.x - q.v(MON[1], i))), t.and_(q.v(MON[4], i), falling(i), t.le(half, tm.x - q.v(MON[2], i)))))
    s.post('false iff a watched machine has drifted for half a second', r.x if r else None, allk(lambda i: t.not_(bad(i)), q.ng), native='r')
    started = lambda on, out_, goes: (lambda i: t.ite(act(i), t.ite(q.v(on, i), goes(i), out_(i)), q.v(on, i)))
    since = lambda on, at, out_: (lambda i: t.ite(t.and_(act(i), t.not_(q.v(on, i)), out_(i)), tm.x, q.v(at, i)))
    q.frame({MON[0]: lambda i: t.ite(act(i), fr(i), prev(i)), MON[3]: started(MON[3], up, rising), MON[4]: started(MON[4], dn, falling), MON[1]: since(MON[3], MON[1], up), MON[2]: since(MON[4], MON[2], dn)})
    out.append(s)
    return out


SCENARIOS = [s_set, s_scale, s_lists, s_named, s_watch]
