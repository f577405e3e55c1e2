"""Data collections: seven typed partial maps from names (and indices) to values."""
import os
from props.common import *
from props.bag import KEYS
from gpv import lib

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
INCS = ['component', SPECS]
SOURCES = ['component/data_collection.cpp', dict(src='@specs/collections.cpp', keep='/repo/src/|' + SPECS, inst='DataCollection')]
NATIVE = dict(srcs=NAT_BASE + [SPECS + '/collections.cpp'], headers=['component/data_collection.hpp', SPECS + '/collections.hpp'], incs=INCS)
DC = 'DataCollection'
# type of the value, of the argument of addValue/setValue, field, leaves of the value
TYPES = [('int', 'int', 'p_ints'), ('long', 'long', 'p_longs'), ('bool', 'bool', 'p_bools'), ('std::string', 'const char *', 'p_strings'),
         ('float', 'float', 'p_floats'), ('double', 'double', 'p_doubles'), ('std::complex<double>', 'std::complex<double>', 'p_complexType')]
NAMES = ['A', 'B', 'AB', '']
IDX = [-3, -12345678, 123456789, 0, 1, 2, 10, 12, 123456]
POOL = NAMES + ['%s:%d' % (n, i) for n in NAMES for i in IDX]


def norm(x): return x.replace('__cxx11::', '').replace('const ', '').replace('gridpack::ComplexType', 'std::complex<double>').replace('std::basic_string<char>', 'std::string').strip()


class D:
    def __init__(d, c, name, nobj=1):
        d.s = s = c.scen(name, safety=True)
        d.o = s.obj('d', DC)
        d.extra = [s.obj('r', DC)] if nobj > 1 else []
        for ob in [d.o] + d.extra:
            for ct, _, f in TYPES:
                s.gen(ob, f, lambda r, sh, ct=ct: {k: d.rnd(r, ct) for k in r.sample(POOL, r.randrange(6))})
        d.name = s.input('name', 'std::string', lambda r, sh: r.choice(NAMES)).x
        d.q = s.input('q', 'std::string', lambda r, sh: r.choice(POOL)).x

    def rnd(d, r, ct): return d.s.rnd(r, d.s.type(ct), {})

    def key(d, ix): return d.name if ix is None else lib.cat(d.name, t.S(':'), lib.itos(ix))

    def fn(d, op, ct, ix):
        """the overload for this type"""
        def pred(f):
            if len(f['params']) != (3 if ix else 2): return False
            ty = f['params'][1]['t']
            got = norm(ty.to.s) if ty.k == 'ptr' and op == 'getValue' else norm(ty.s)
            return got == norm(ct)
        return pred

    def part(d, f, st, lf): return d.s.ex.fld(st, d.o.ref, d.o.cls, f).l[lf]

    def has(d, f, k, st=None): return t.select(d.part(f, st or State(), '?'), k)
    def val(d, f, k, lf, st=None): return t.select(d.part(f, st or State(), '[]' + lf), k)

    def leaves(d, ct): return d.s.P.leaves(d.s.type(ct))

    def posts(d, changes):
        """every map agrees at the arbitrary key q with its old content, except for changes: field -> (key, present, value leaves)"""
        s, q = d.s, d.q
        for ct, _, f in TYPES:
            h = d.has(f, q)
            w = {lf: d.val(f, q, lf) for lf, _ in d.leaves(ct)}
            if f in changes:
                k, pres, vals = changes[f]
                at = t.eq(q, k)
                h = t.ite(at, pres, h)
                w = {lf: t.ite(at, vals[lf], x) for lf, x in w.items()}
            s.post('%s: presence' % f, lambda f=f: d.has(f, q, s.st), h, native='(o_d->%s.count(in_q) > 0)' % f)
            for lf, so in d.leaves(ct):
                nat = '(o_d->%s.count(in_q) ? o_d->%s[in_q]%s : %s)' % (f, f, {'.re': '.real()', '.im': '.imag()'}.get(lf, ''), {'std::string': 'std::string()', 'std::complex<double>': '0.0'}.get(ct, '%s()' % ct))
                z = {'INT': t.I(0)}.get(so, t.I(0) if so == INT else t.FALSE if so == BOOL else t.S('') if so == STR else t.R(0))
                s.post('%s: value%s' % (f, lf), lambda f=f, lf=lf, z=z: t.ite(d.has(f, q, s.st), d.val(f, q, lf, s.st), z), t.ite(h, w[lf], z), native=nat)


def s_access(c):
    out = []
    for op in ('addValue', 'setValue', 'getValue'):
        for ct, at, f in TYPES:
            for indexed in (False, True):
                d = D(c, '%s %s%s' % (op, ct, ' indexed' if indexed else ''))
                s = d.s
                ix = None
                if indexed:
                    ix = s.input('ix', 'int', lambda r, sh: r.choice(IDX)).x
                    pass                                  # any index, negative ones too
                k = d.key(ix)
                has = d.has(f, k)
                lv = d.leaves(ct)
                pred = d.fn(op, at if op != 'getValue' else ct, indexed)
                tail, tn = ([ix], ', in_ix') if indexed else ([], '')
                if op == 'getValue':
                    old = s.input('old', ct)
                    pv = s.outvar('v', ct, 'in_old')
                    if not s.limited: s.ex.write(s.st, pv[0][1], Val(pv[0][1].ty, dict(old.l)))
                    r = s.call(d.o, op, [d.name, s.outptr(pv)] + tail, ret='r', cargs='in_name.c_str(), &v' + tn, pred=pred)
                    s.post('found', r.x if r else None, has, native='r')
                    for lf, so in lv:
                        s.post('value' + lf, lambda lf=lf: s.outval(pv, lf), t.ite(has, d.val(f, k, lf), old.l[lf]), native='v' + {'.re': '.real()', '.im': '.imag()'}.get(lf, ''))
                    d.posts({})
                else:
                    v = s.input('v', ct)
                    a = v if ct != 'std::string' else v.x
                    r = s.call(d.o, op, [d.name, a] + tail, ret='r' if op == 'setValue' else None, cargs='in_name.c_str(), in_v%s%s' % ('.c_str()' if ct == 'std::string' else '', tn), pred=pred)
                    if op == 'setValue':
                        s.post('found', r.x if r else None, has, native='r')
                        d.posts({f: (k, has, {lf: t.ite(has, v.l[lf], d.val(f, k, lf)) for lf, _ in lv})})
                    else: d.posts({f: (k, t.TRUE, {lf: t.ite(has, d.val(f, k, lf), v.l[lf]) for lf, _ in lv})})
                out.append(s)
    return out


def s_copy(c):
    """assignment copies every map"""
    d = D(c, 'assignment', 2)
    s = d.s
    r = d.extra[0]
    s.call(d.o, 'operator=', [rec(s, r)], cargs='*o_r', cpp='*o_d = *o_r;')
    for ct, _, f in TYPES:
        A = lambda lf, st=None: s.ex.fld(st or State(), r.ref, r.cls, f).l[lf]
        s.post('%s: presence' % f, lambda f=f: d.has(f, d.q, s.st), t.select(A('?'), d.q), native='(o_d->%s.count(in_q) > 0)' % f)
        for lf, so in d.leaves(ct): s.post('%s: value%s' % (f, lf), lambda f=f, lf=lf: d.val(f, d.q, lf, s.st), t.select(A('[]' + lf), d.q))
    return s


def s_transfer(c):
    """everything a collection holds reaches the archive when it is sent to another process"""
    d = D(c, 'serialisation')
    s = d.s
    a = s.obj('a', 'GhostArchive')
    s.call(None, 'ghostTransfer', [rec(s, d.o), rec(s, a)], cargs='*o_d, *o_a', nparams=2)
    for (ct, _, f), g in zip(TYPES, ('ints', 'longs', 'bools', 'strings', 'floats', 'doubles', 'complexes')):
        at = lambda g, lf: s.ex.fld(s.st, a.ref, a.cls, g).l[lf]
        s.post('%s: presence' % f, lambda g=g: t.select(at(g, '?'), d.q), d.has(f, d.q), native='(o_a->%s.count(in_q) > 0)' % g)
        for lf, so in d.leaves(ct): s.post('%s: value%s' % (f, lf), lambda g=g, lf=lf: t.select(at(g, '[]' + lf), d.q), d.val(f, d.q, lf))
    return s


def rec(s, o): return [(t.TRUE, Obj(o.ref, s.P.types[o.cls]), None)]


def s_keys(c):
    """indexed names of different items are different: the separator occurs in no name"""
    s = c.scen('indexed names')
    n = t.var('n', STR)
    bad = [k for k, v in KEYS.items() if ':' in v]
    s.lemmas.append(('no defined name contains the separator %s' % bad[:3], [], t.TRUE if not bad else t.FALSE))
    i, j = t.var('i', INT), t.var('j', INT)
    K = lambda x: lib.cat(n, t.S(':'), lib.itos(x))
    s.lemmas.append(('items of different index have different names', [t.le(t.I(0), i), t.le(t.I(0), j), t.eq(K(i), K(j))], t.eq(i, j)))
    return s


SCENARIOS = [s_access, s_copy, s_transfer, s_keys]
