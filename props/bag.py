"""Contract of DataCollection::getValue (discharged in C12): a collection is a partial map from
(name, type) or (name, index, type) to values; getValue delivers the stored value and true, or leaves the target alone."""
from props.common import *
from gpv.ir import REPO

CT = {'double': 'double', 'int': 'int', 'bool': 'bool', 'long': 'long', 'float': 'float', 'std::basic_string<char>': 'std::string', 'std::complex<double>': 'std::complex<double>'}


class Bag:
    """the collection handed to load(): every key present or absent, every value arbitrary"""
    def __init__(b, s, required=(), name='data', never=(), sizes=(0, 1, 1, 2, 3, 4)):
        b.s, b.name = s, name
        b.keys = {}                  # (key, indexed) -> (presence input or None, value input, C++ type)
        b.required = set(required)
        b.never = set(never)
        b.gens = {}
        b.sizes = sizes
        b.slot = len(s.steps)
        s.steps.append('')
        b.ref = t.I(77)
        s.ex.contracts['DataCollection::getValue'] = b.k
        s.ex.contracts['DataCollection::setValue'] = b.kset
        s.ex.contracts['DataCollection::addValue'] = lambda *a: b.kset(*a, add=True)
        b.render()

    def gen(b, key, fn): b.gens[key] = fn

    def size(b, sh, rng): return sh.setdefault('bag ' + b.name, rng.choice(b.sizes))

    def render(b):
        s = b.s
        out = ['boost::shared_ptr<gridpack::component::DataCollection> %s(new gridpack::component::DataCollection);' % b.name]
        for (key, ix), (h, v, ct) in b.keys.items():
            n = b.cid(key, ix)
            w = '.c_str()' if ct == 'std::string' else ''
            if ix:
                el = '(%s)in_dv%s[i]%s' % (ct, n, w) if not w else 'in_dv%s[i]%s' % (n, w)
                out.append('for(int i=0;i<(int)in_dv%s.size();i++) %s%s->addValue("%s", %s, i);' % (n, 'if (in_dh%s[i]) ' % n if h is not None else '', b.name, key, el))
            else: out.append('%s%s->addValue("%s", in_dv%s%s);' % ('if (in_dh%s) ' % n if h is not None else '', b.name, key, n, w))
        s.steps[b.slot] = ' '.join(out)

    def cid(b, key, ix): return '_%s_%s%s' % (b.name, ''.join(c if c.isalnum() else '_' for c in key), '_i' if ix else '')

    def entry(b, key, ix, ct):
        k = (key, ix)
        if k in b.keys:
            if b.keys[k][2] != ct: raise ToolLimit('key %s is read as %s and as %s' % (key, b.keys[k][2], ct))
            return b.keys[k]
        s, n = b.s, b.cid(key, ix)
        one = lambda r, sh: b.gens[key](r, sh) if key in b.gens else s.rnd(r, s.type(ct), {})
        h = None
        if ix:
            if key not in b.required:
                h = s.input('dh' + n, 'std::vector<int>', lambda r, sh: [r.choice([0, 1, 1]) for _ in range(b.size(sh, r))])
            v = s.input('dv' + n, 'std::vector<%s>' % ('int' if ct == 'bool' else ct), lambda r, sh: [one(r, sh) for _ in range(b.size(sh, r))])
        else:
            if key not in b.required: h = s.input('dh' + n, 'bool', lambda r, sh: r.random() < .7)
            v = s.input('dv' + n, ct, one)
        b.keys[k] = (h, v, ct)
        b.render()
        return b.keys[k]

    def part(b, st, key, ix, ct, leaf, pres=False):
        """current presence (None: always) or value, as the whole term or array"""
        h, v, _ = b.entry(key, ix, ct)
        lf = ('[]' if ix else '') + leaf
        if pres and h is None: return None, None
        k = (('B', b.cid(key, ix)), 'h' if pres else 'v' + leaf)
        src = h.l['[]' if ix else ''] if pres else v.l[lf]
        b.s.ex.init.setdefault(k, src)
        return k, (st.st.get(k) if st is not None and k in st.st else src)

    def has(b, key, ix=None, ct='double', st=None):
        if key in b.never: return t.FALSE
        k, a = b.part(st, key, ix is not None, ct, '', True)
        if a is None: return t.TRUE
        return a if ix is None else t.ne(t.select(a, t.lift(ix, INT)), t.I(0))

    def val(b, key, ix=None, ct='double', leaf='', st=None):
        k, a = b.part(st, key, ix is not None, ct, leaf)
        if ix is None: return a
        r = t.select(a, t.lift(ix, INT))
        return t.ne(r, t.I(0)) if ct == 'bool' else r

    def get(b, key, ix=None, ct='double', default=None):
        """the stored value, or the default"""
        v = b.val(key, ix, ct)
        if default is None: return v
        return t.ite(b.has(key, ix, ct), v, t.lift(default, v.sort))

    def arg(b):
        """lvalue of the shared pointer"""
        s = b.s
        lv = s.outvar('bagp_' + b.name, 'boost::shared_ptr<gridpack::component::DataCollection>')
        s.steps.pop()
        s.ex.write(s.st, lv[0][1], Val(s.type('boost::shared_ptr<gridpack::component::DataCollection>'), {'': b.ref}))
        return lv

    def byval(b): return Val(b.s.type('boost::shared_ptr<gridpack::component::DataCollection>'), {'': b.ref})

    def literal(b, ex, st, a):
        kt = ex.ev(a, st).l.get('')
        if kt is None or not isinstance(kt.val, str): raise ToolLimit('key of a data collection is not a literal')
        return kt.val

    def k(b, ex, st, this, args, e):
        key = b.literal(ex, st, args[0])
        ptr = ex.ev(args[1], st)
        lvs = ex.deref(ptr, args[1]['t'])
        ty = lvs[0][1].ty
        ct = CT.get(ty.s.replace('__cxx11::', ''))
        if ct is None: raise ToolLimit('getValue into %s' % ty.s)
        ix = ex.ev(args[2], st).l[''] if len(args) > 2 else None
        if key in b.never: return Val(e['t'], {'': t.FALSE})
        has = b.has(key, ix, ct, st)
        leaves = {}
        for s_, so in ex.P.leaves(ty): leaves[s_] = b.val(key, ix, ct, s_, st)
        for g, p, *_ in lvs:
            old = ex.read(st, p) if not (has is t.TRUE and g is t.TRUE) else None
            new = Val(ty, leaves)
            ex.write(st, p, new if old is None else ex.vite(t.and_(g, has), new, old))
        return Val(e['t'], {'': has})

    def kset(b, ex, st, this, args, e, add=False):
        """setValue replaces a stored value and tells whether there was one; addValue stores a value unless there is one"""
        key = b.literal(ex, st, args[0])
        v = ex.ev(args[1], st)
        ct = CT.get(args[1]['t'].s.replace('__cxx11::', '').replace('const ', '').strip())
        if ct is None and v.l.get('') is not None and v.l[''].sort == STR: ct = 'std::string'
        if ct is None: raise ToolLimit('setValue of %s' % args[1]['t'].s)
        ix = ex.ev(args[2], st).l[''] if len(args) > 2 else None
        has = b.has(key, ix, ct, st)
        w = t.not_(has) if add else has
        for leaf, x in v.l.items():
            k, a = b.part(st, key, ix is not None, ct, leaf)
            if ix is not None and ct == 'bool': x = t.ite(x, t.I(1), t.I(0))
            st.st[k] = t.ite(w, x, a) if ix is None else t.store(a, ix, t.ite(w, x, t.select(a, ix)))
        if add:
            k, a = b.part(st, key, ix is not None, ct, '', True)
            if k is not None: st.st[k] = t.TRUE if ix is None else t.store(a, ix, t.ite(w, t.I(1), t.select(a, ix)))
            return None
        return Val(e['t'], {'': has})

    def post(b, label, key, want, ix=None, ct='double', hyps=(), present=None, **kw):
        """after the calls the collection holds this value"""
        s = b.s
        b.entry(key, ix is not None, ct)
        nat = '[&]{ %s x = %s(); %s->getValue("%s", &x%s); return x; }()' % (ct, ct, b.name, key, '' if ix is None else ', %s' % ix)
        s.post(label, lambda: b.val(key, ix, ct, '', s.st), want, nat if ix is None or isinstance(ix, int) else None, hyps=hyps, **kw)
        s.post(label + ', present', lambda: b.has(key, ix, ct, s.st), t.TRUE if present is None else present,
               '[&]{ %s x = %s(); return %s->getValue("%s", &x%s); }()' % (ct, ct, b.name, key, '' if ix is None else ', %s' % ix) if ix is None or isinstance(ix, int) else None, hyps=hyps)


def _keys():
    import re, glob
    d = {}
    for f in sorted(glob.glob(REPO + '/src/parser/variable_defs/*.hpp') + glob.glob(REPO + '/src/parser/dictionary.h*')):
        for m in re.finditer(r'^\s*#\s*define\s+(\w+)\s+"([^"]*)"', open(f, errors='replace').read(), re.M): d.setdefault(m.group(1), m.group(2))
    return d


KEYS = _keys()


def key(n): return KEYS[n]
