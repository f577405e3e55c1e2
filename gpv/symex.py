"""Symbolic executor: turns the extracted function bodies into terms and obligations.

State is a flat store  (root, path) -> term.  Roots: ('L',frame,var) locals, ('H',record) the heap of one record type
(one array per field, indexed by object reference), ('M',type) scalar memory behind plain pointers (base, offset),
('G',name) globals.  Calls are replaced by their contract when one is registered, and otherwise by their body."""
import itertools
from . import terms as t
from .terms import INT, REAL, BOOL, STR, ARR, T
from .ir import Type, SCAL


NULLSTR = '\x01null'      # the null char pointer among the strings


class ToolLimit(Exception):
    """the construct is outside what the verifier models: the function stays unproved (never reported as a violation)"""


class Val:
    __slots__ = ('ty', 'l')

    def __init__(self, ty, l):
        self.ty, self.l = ty, l

    def __repr__(self):
        return 'Val(%s,%s)' % (self.ty, self.l)

    @property
    def x(self):
        return self.l['']


class Loc:
    """place in the store"""
    __slots__ = ('root', 'idx', 'path', 'ty')

    def __init__(self, root, idx, path, ty):
        self.root, self.idx, self.path, self.ty = root, idx, path, ty

    def __repr__(self):
        return 'Loc(%s%s%s)' % (self.root, self.idx, self.path)

    def same(self, o):
        return isinstance(o, Loc) and self.root == o.root and self.idx == o.idx and self.path == o.path


class Obj:
    """a class object on the heap, identified by its reference"""
    __slots__ = ('ref', 'ty')

    def __init__(self, ref, ty):
        self.ref, self.ty = ref, ty

    def __repr__(self):
        return 'Obj(%s)' % self.ref

    def same(self, o):
        return isinstance(o, Obj) and self.ref is o.ref


class Ptr:
    """executor-level pointer/reference: guarded places (with an element offset for pointers into arrays)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts     # list of (guard, place, offset|None)

    def same(self, o):
        return isinstance(o, Ptr) and len(self.alts) == len(o.alts) and all(
            a[0] is b[0] and a[1].same(b[1]) and a[2] is b[2] for a, b in zip(self.alts, o.alts))


class State:
    __slots__ = ('st', 'pc')

    def __init__(self, st=None, pc=None):
        self.st = st if st is not None else {}
        self.pc = pc if pc is not None else []

    def clone(self):
        return State(dict(self.st), list(self.pc))

    def assign(self, o):
        self.st, self.pc = o.st, o.pc

    def cond(self):
        return t.and_(*self.pc)


class Out:
    __slots__ = ('n', 'brk', 'cont', 'ret', 'thr')

    def __init__(self, n=None):
        self.n, self.brk, self.cont, self.ret, self.thr = n, [], [], [], []

    def absorb(self, o):
        self.brk += o.brk; self.cont += o.cont; self.ret += o.ret; self.thr += o.thr


class Obl:
    __slots__ = ('kind', 'desc', 'line', 'hyp', 'goal', 'func')

    def __init__(self, kind, desc, line, hyp, goal, func):
        self.kind, self.desc, self.line, self.hyp, self.goal, self.func = kind, desc, line, hyp, goal, func


IGNORED = ('printf', 'fprintf', 'puts', 'fflush', 'std::flush', 'putchar', 'fputs', 'fputc', 'MPI_Wtime', 'GA_Sync',
           '__builtin_printf', 'exit_ignored')


class Exec:
    def __init__(self, prog, contracts=None, safety=False, unroll=40, this_cls=None):
        self.P = prog
        self.contracts = contracts or {}
        self.safety = safety
        self.unroll = unroll
        self.frames = itertools.count()
        self.init = {}          # (root,path) -> initial symbol
        self.obls = []
        self.assumes = []       # facts about fresh symbols (terms)
        self.notes = set()      # assumptions worth reporting
        self.inlined = {}       # functions whose body was used
        self.used_contracts = {}
        self.depth = 0
        self.fstack = []
        self.newref = itertools.count(1000)
        self.dyn = {}           # ref term -> dynamic class
        self.dyn_of = {}        # static class -> dynamic class of the objects behind its pointers
        self.distinct = set()   # array terms whose values are pairwise distinct (a list of distinct objects)
        self.throws = []
        self.loops = 0
        self.recfuncs = {}      # recursively defined functions introduced by loop summaries
        self.enum_loops = []
        self.choices = None
        self.libhook = None
        self.bounded = 0        # >0: loops without a closed form are unrolled that often (result is then only bounded)
        self.was_bounded = False
        self.maxdepth = 40
        self.fixed_init = {}

    # ---- initial symbols -----------------------------------------------------------------------------------
    def rootname(self, root):
        if root[0] == 'H':
            return root[1].split('::')[-1]
        if root[0] == 'L':
            return 'loc%s' % (root[2],)
        return ':'.join(str(x) for x in root)

    def rootdims(self, root):
        if root[0] == 'H':
            return [INT]
        if root[0] == 'M':
            return [INT, INT] if root[2] == 'mem' else [INT]
        return []

    def initial(self, root, path, sort):
        key = (root, path)
        s = self.init.get(key)
        if s is None:
            for d in reversed(self.rootdims(root)):
                sort = ARR(d, sort)
            s = self.fixed_init.get(key)
            if s is None:
                nm = self.rootname(root) + path
                s = t.var(nm if root[0] != 'L' else '%s@%s%s' % (root[2], root[1], path), sort)
            self.init[key] = s
        return s

    # ---- store access --------------------------------------------------------------------------------------
    def leafget(self, st, root, path, sort):
        v = st.st.get((root, path))
        if v is None:
            v = self.initial(root, path, sort)
        return v

    def place_leaves(self, place):
        """(root, idx, path, suffix, sort) for every leaf of the value stored at place"""
        if isinstance(place, Loc):
            return [(place.root, place.idx, place.path + s, s, so, ) for s, so in self.P.leaves(place.ty)]
        out = []
        r = self.P.rec(place.ty)
        if r is None:
            # library record behind a pointer
            root = ('M', place.ty.s, 'obj')
            return [(root, (place.ref,), s, s, so) for s, so in self.P.leaves(place.ty)]
        for c, f in self.P.fields_all(place.ty):
            root = ('H', c)
            for s, so in self.P.leaves(f['t']):
                out.append((root, (place.ref,), '.' + f['name'] + s, '.' + f['name'] + s, so))
        return out

    def lift(self, sort, idxs):
        return sort

    def dims_sort(self, place, sort):
        return sort

    def read(self, st, place):
        ty = place.ty
        if isinstance(place, Loc):
            p = st.st.get((place.root, place.path + '^p'))
            if p is not None and not place.idx:
                d = {'^p': p}
                if self.P.kind(ty) == 'iter':
                    for suf, so in self.P.leaves(ty): d[suf] = self.rawget(st, place.root, (), place.path + suf, so)
                return Val(ty, d)
        d = {}
        for root, idx, path, suf, so in self.place_leaves(place):
            d[suf] = self.rawget(st, root, idx, path, so)
        return Val(ty, d)

    def rawget(self, st, root, idx, path, sort):
        v = st.st.get((root, path))
        if v is None:
            full = sort
            # number of index dims beyond the root's own
            nd = len(self.rootdims(root))
            # path with [] markers: the sort of the root leaf is known from its type; rebuild from idx sorts
            for i in reversed(idx[nd:]):
                full = ARR(i.sort, full)
            v = self.initial(root, path, full)
        for i in idx:
            v = t.select(v, i)
        return v

    def rawset(self, st, root, idx, path, sort, val):
        if val.sort != sort:
            if sort == REAL and val.sort == INT: val = t.to_real(val)
            elif sort == INT and val.sort == BOOL: val = t.ite(val, t.I(1), t.I(0))
            elif sort == BOOL and val.sort == INT: val = t.ne(val, t.I(0))
            elif sort == INT and val.sort == REAL: val = t.trunc_(val)
            else: raise ToolLimit('store of sort %s into %s%s (%s)' % (val.sort, root, path, sort))
        if not idx:
            st.st[(root, path)] = val
            return
        cur = st.st.get((root, path))
        if cur is None:
            full = sort
            nd = len(self.rootdims(root))
            for i in reversed(idx[nd:]):
                full = ARR(i.sort, full)
            cur = self.initial(root, path, full)

        def upd(a, k):
            if k == len(idx):
                return val
            return t.store(a, idx[k], upd(t.select(a, idx[k]), k + 1))
        st.st[(root, path)] = upd(cur, 0)

    def write(self, st, place, val):
        if isinstance(place, Loc) and '^p' in val.l:
            if place.idx:
                raise ToolLimit('pointer to a local stored in memory')
            for s, _ in self.P.leaves(place.ty):
                st.st.pop((place.root, place.path + s), None)
            st.st[(place.root, place.path + '^p')] = val.l['^p']
            for s, _ in self.P.leaves(place.ty) if self.P.kind(place.ty) == 'iter' else ():
                st.st[(place.root, place.path + s)] = val.l[s]
            return
        if isinstance(place, Loc):
            st.st.pop((place.root, place.path + '^p'), None)
        for root, idx, path, suf, so in self.place_leaves(place):
            if suf not in val.l:
                raise ToolLimit('write: leaf %s of %s missing in value of %s' % (suf, place.ty, val.ty))
            self.rawset(st, root, idx, path, so, val.l[suf])

    def writeg(self, st, lvs, val):
        """conditional write through guarded places"""
        if len(lvs) == 1:
            return self.write(st, lvs[0][1], val)
        for g, p, *_ in lvs:
            old = self.read(st, p)
            self.write(st, p, self.vite(g, val, old))

    def readg(self, st, lvs):
        r = self.read(st, lvs[-1][1])
        for g, p, *_ in reversed(lvs[:-1]):
            r = self.vite(g, self.read(st, p), r)
        return r

    def vite(self, c, a, b):
        if c is t.TRUE: return a
        if c is t.FALSE: return b
        if a is b: return a
        if '^p' in a.l or '^p' in b.l:
            return Val(a.ty, {'^p': self.pite(c, a.l.get('^p'), b.l.get('^p'), a, b)})
        if set(a.l) != set(b.l):
            raise ToolLimit('merge of different value shapes %s / %s' % (a.ty, b.ty))
        return Val(a.ty, {k: t.ite(c, a.l[k], b.l[k]) for k in a.l})

    def pite(self, c, p, q, a=None, b=None):
        if p is None or q is None:
            # other side: null or uninitialised -> dereferencing it there is outside the property
            o = a if p is None else b
            if o is not None and o.l and not (('' in o.l and o.l[''] is t.I(0)) or ('^b' in o.l and o.l['^b'] is t.I(0))):
                raise ToolLimit('merge of a pointer to a local with another pointer')
            return p or q
        if p.same(q): return p
        return Ptr([(t.and_(c, g), l, o) for g, l, o in p.alts] + [(t.and_(t.not_(c), g), l, o) for g, l, o in q.alts])

    # ---- state merging -------------------------------------------------------------------------------------
    def merge(self, a, b):
        if a is None: return b
        if b is None: return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ra, rb = t.and_(*a.pc[n:]), t.and_(*b.pc[n:])
        if ra is t.FALSE: return b
        if rb is t.FALSE: return a
        pc = list(a.pc[:n])
        o = t.or_(ra, rb)
        if o is not t.TRUE:
            pc.append(o)
        # prefer a simple distinguishing condition
        c = ra
        ca = set(ra.args) if ra.op == 'and' else {ra}
        cb = set(rb.args) if rb.op == 'and' else {rb}
        for x in (a.pc[n:n + 1]):
            if t.not_(x) in cb or (b.pc[n:n + 1] and t.not_(x) is b.pc[n]):
                c = x
        st = {}
        for k in set(a.st) | set(b.st):
            va, vb = a.st.get(k), b.st.get(k)
            if va is vb:
                st[k] = va; continue
            if k[1].endswith('^p') or isinstance(va, Ptr) or isinstance(vb, Ptr):
                if isinstance(va, Ptr) and isinstance(vb, Ptr): st[k] = self.pite(c, va, vb)
                else: st[k] = va or vb
                continue
            if va is None: va = self.initlike(k, vb)
            if vb is None: vb = self.initlike(k, va)
            st[k] = t.ite(c, va, vb)
        return State(st, pc)

    def initlike(self, key, other):
        s = self.init.get(key)
        if s is None:
            root, path = key
            s = self.fixed_init.get(key)
            if s is None:
                nm = self.rootname(root) + path
                s = t.var(nm if root[0] != 'L' else '%s@%s%s' % (root[2], root[1], path), other.sort)
            self.init[key] = s
        return s

    def mergeall(self, sts):
        r = None
        for s in sts:
            if s is not None:
                r = self.merge(r, s)
        return r

    def assume_in(self, st, c):
        if c is t.TRUE: return
        if c.op == 'and':
            for x in c.args: self.assume_in(st, x)
            return
        if c not in st.pc:
            if t.not_(c) in st.pc: st.pc.append(t.FALSE)
            st.pc.append(c)

    def dead(self, st):
        return t.FALSE in st.pc

    def oblige(self, st, kind, desc, line, goal):
        if goal is t.TRUE and kind == 'safety':
            self.obls.append(Obl(kind, desc, line, t.TRUE, goal, self.fstack[-1] if self.fstack else '?'))
            return
        self.obls.append(Obl(kind, desc, line, st.cond(), goal, self.fstack[-1] if self.fstack else '?'))

    # ---- statements ----------------------------------------------------------------------------------------
    def ex(self, s, st):
        if s is None or st is None:
            return Out(st)
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise ToolLimit('statement %s %s line %s' % (k, s.get('s'), s.get('l')))
        nthr = len(self.throws)
        out = m(s, st)
        if len(self.throws) > nthr:
            out.thr += self.throws[nthr:]
            del self.throws[nthr:]
        if out.n is not None and self.dead(out.n):
            out.n = None
        return out

    def s_block(self, s, st):
        out = Out(st)
        for x in s['b']:
            if out.n is None:
                break
            o = self.ex(x, out.n)
            out.absorb(o)
            out.n = o.n
        return out

    def s_nop(self, s, st):
        return Out(st)

    def s_decl(self, s, st):
        for d in s['d']:
            self.decl(d, st)
        return Out(st)

    def decl(self, d, st):
        root = ('L', self.frame, '%s#%d' % (d['n'], d['id']))
        ty = d['t']
        if d.get('static'):
            root = ('G', 'static', '%s#%d' % (d['n'], d['id']))
            return
        if ty.k == 'ref':
            lvs = self.lv_or_temp(d['init'], st)
            st.st[(root, '^ref')] = Ptr([(g, l, None) for g, l in [(x[0], x[1]) for x in lvs]])
            return
        # forget what an earlier iteration left
        for s_, so in self.P.leaves(ty):
            st.st.pop((root, s_), None)
            f = t.fresh('uninit_' + d['n'], so)
            st.st[(root, s_)] = f
        st.st.pop((root, '^p'), None)
        if 'init' in d and d['init'] is not None:
            v = self.initval(d['init'], ty, st, Loc(root, (), '', ty))
            if v is not None:
                self.write(st, Loc(root, (), '', ty), self.conv(v, ty))
        elif self.P.kind(ty) in ('vec', 'map', 'set'):
            self.write(st, Loc(root, (), '', ty), self.default(ty))

    def initval(self, e, ty, st, place):
        if e['k'] == 'ctor':
            return self.construct(e, ty, st, place)
        if e['k'] == 'init':
            return self.initlist(e, ty, st)
        return self.ev(e, st)

    def initlist(self, e, ty, st):
        k = self.P.kind(ty)
        if k == 'arr':
            el = ty.elem or ty.args[0]
            items = e['a']
            if ty.elem is None and len(items) == 1 and items[0]['k'] == 'init':
                items = items[0]['a']
            l = {}
            base = self.zero(ty)
            l = dict(base.l)
            for i, x in enumerate(items):
                v = self.conv(self.initval(x, el, st, None), el)
                for suf in v.l:
                    l['[]' + suf] = t.store(l['[]' + suf], t.I(i), v.l[suf])
            return Val(ty, l)
        if k == 'rec':
            l = {}
            fs = self.P.rec(ty)['fields']
            for f, x in itertools.zip_longest(fs, e['a']):
                v = self.conv(self.initval(x, f['t'], st, None), f['t']) if x is not None else self.zero(f['t'])
                for suf in v.l: l['.' + f['name'] + suf] = v.l[suf]
            return Val(ty, l)
        if len(e['a']) == 1:
            return self.ev(e['a'][0], st)
        if len(e['a']) == 0:
            return self.zero(ty)
        raise ToolLimit('initialiser list for ' + ty.s)

    def zero(self, ty):
        l = {}
        for suf, so in self.P.leaves(ty):
            l[suf] = self.zsort(so)
        return Val(ty, l)

    def zsort(self, so):
        if so == INT: return t.I(0)
        if so == REAL: return t.R(0)
        if so == BOOL: return t.FALSE
        if so == STR: return t.S('')
        if so[0] == 'Arr':
            return t.constarr(so[1], self.zsort(so[2]))
        raise ToolLimit('zero of %s' % (so,))

    def default(self, ty):
        """default-constructed library object"""
        k = self.P.kind(ty)
        l = {}
        for suf, so in self.P.leaves(ty):
            if k in ('map', 'set') and suf == '?':
                l[suf] = t.constarr(so[1], t.FALSE)
            elif k in ('vec', 'map', 'set') and suf == '#n':
                l[suf] = t.I(0)
            elif k in ('str', 'complex', 'ptr'):
                l[suf] = self.zsort(so)
            elif k == 'pair':
                l[suf] = self.zsort(so) if not isinstance(so, tuple) else t.fresh('dflt', so)
            else:
                l[suf] = t.fresh('dflt', so)
        return Val(ty, l)

    def s_expr(self, s, st):
        self.ev_void(s['e'], st)
        return Out(st)

    def ev_void(self, e, st):
        if e['k'] == 'cast' and e.get('ck') == 'ToVoid':
            return self.ev_void(e['e'], st)
        if e.get('lv'):
            if e['k'] in ('var', 'field', 'gvar'):
                return
            try:
                self.lv(e, st)
            except _Value:
                pass
            return
        self.ev(e, st)

    def s_ret(self, s, st):
        out = Out(None)
        v = None
        if s.get('e') is not None:
            rt = self.fret
            if rt.k == 'ref':
                lvs = self.lv_or_temp(s['e'], st)
                v = Val(rt, {'^p': Ptr([(x[0], x[1], None) for x in lvs])})
            elif rt.k != 'void':
                v = self.conv(self.initval(s['e'], rt, st, None), rt)
            else:
                self.ev_void(s['e'], st)
        out.ret.append((st, v))
        return out

    def s_break(self, s, st):
        o = Out(None); o.brk.append(st); return o

    def s_continue(self, s, st):
        o = Out(None); o.cont.append(st); return o

    def s_if(self, s, st):
        if s.get('init'):
            o = self.ex(s['init'], st); st = o.n
        if s.get('cv'):
            self.decl(s['cv'], st)
        c = self.cond(s['c'], st)
        if c is t.TRUE or (c in st.pc):
            return self.ex(s['a'], st)
        if c is t.FALSE or (t.not_(c) in st.pc):
            return self.ex(s['b'], st) if s.get('b') else Out(st)
        a, b = st.clone(), st
        self.assume_in(a, c)
        self.assume_in(b, t.not_(c))
        oa = self.ex(s['a'], a) if not self.dead(a) else Out(None)
        ob = (self.ex(s['b'], b) if s.get('b') else Out(b)) if not self.dead(b) else Out(None)
        out = Out(None)
        out.absorb(oa); out.absorb(ob)
        out.n = self.merge(oa.n, ob.n)
        return out

    def s_switch(self, s, st):
        v = self.ev(s['c'], st).x
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        # flatten labels
        items = []          # (labels or None, stmt)
        def flat(x, labs):
            if x['k'] == 'case':
                return flat(x['b'], labs + [('c', int(x['v']))])
            if x['k'] == 'default':
                return flat(x['b'], labs + [('d', None)])
            items.append((labs, x))
        for x in body:
            flat(x, [])
        allc = [l[1] for labs, _ in items for l in labs if l[0] == 'c']
        out = Out(None)
        cur = None
        for labs, x in items:
            if labs:
                conds = []
                for kd, cv in labs:
                    conds.append(t.eq(v, t.I(cv)) if kd == 'c' else t.and_(*[t.ne(v, t.I(z)) for z in allc]))
                c = t.or_(*conds)
                e = st.clone()
                self.assume_in(e, c)
                if c is t.FALSE or self.dead(e): e = None
                cur = self.merge(cur, e) if cur is not None else e
            if cur is None:
                continue
            o = self.ex(x, cur)
            out.brk += o.brk; out.cont += o.cont; out.ret += o.ret; out.thr += o.thr
            cur = o.n
        res = [cur]
        if not any(l[0] == 'd' for labs, _ in items for l in labs):
            e = st.clone()
            c = t.and_(*[t.ne(v, t.I(z)) for z in allc])
            self.assume_in(e, c)
            if not self.dead(e): res.append(e)
        res += out.brk
        out.brk = []
        out.n = self.mergeall(res)
        return out

    def s_try(self, s, st):
        o = self.ex(s['b'], st)
        thr, o.thr = o.thr, []
        for x in thr:
            if s['h']:
                oh = self.ex(s['h'][0]['b'], x)
                o.absorb(oh)
                o.n = self.merge(o.n, oh.n)
        return o

    # ---- loops ---------------------------------------------------------------------------------------------
    def s_for(self, s, st):
        out = Out(None)
        if s.get('init'):
            o = self.ex(s['init'], st); st = o.n
        r = self.loop(s, st, s.get('c'), s.get('inc'), s['b'], False)
        return r

    def s_while(self, s, st):
        return self.loop(s, st, s['c'], None, s['b'], False)

    def s_do(self, s, st):
        return self.loop(s, st, s['c'], None, s['b'], True)

    def s_range(self, s, st):
        r = s['r']
        lvs = self.lv_or_temp(r, st)
        if len(lvs) != 1:
            raise ToolLimit('range-for over a conditional place')
        place = lvs[0][1]
        k = self.P.kind(place.ty)
        if k not in ('vec', 'arr'):
            raise ToolLimit('range-for over ' + place.ty.s)
        ir = ('L', self.frame, 'range#%d' % next(self.frames))
        inty = self.intty()
        il = Loc(ir, (), '', inty)
        self.write(st, il, Val(inty, {'': t.I(0)}))

        def cond(st_):
            i = self.read(st_, il).x
            n = self.read(st_, place).l['#n'] if k == 'vec' else t.I(place.ty.n or place.ty.args[1])
            return t.lt(i, n)

        def inc(st_):
            self.write(st_, il, Val(inty, {'': t.add(self.read(st_, il).x, t.I(1))}))

        def body(st_):
            i = self.read(st_, il).x
            ep = self.elem(place, i)
            d = s['v']
            root = ('L', self.frame, '%s#%d' % (d['n'], d['id']))
            if d['t'].k == 'ref':
                st_.st[(root, '^ref')] = Ptr([(t.TRUE, ep, None)])
            else:
                self.write(st_, Loc(root, (), '', d['t']), self.conv(self.read(st_, ep), d['t']))
            return self.ex(s['b'], st_)
        return self.loop_fn(s, st, cond, inc, body, False)

    def intty(self):
        for x in self.P.types.values():
            if x.k == 'int' and x.s == 'int' and not x.const: return x
        ty = Type(); ty.k = 'int'; ty.s = 'int'; ty.const = False; ty.bits = 32; ty.signed = True; ty.char = False
        ty._leaves = None; ty.prog = self.P; ty.args = []; ty.to = ty.elem = ty.n = ty.name = None; ty.d = {}; ty.tid = 'int'
        self.P.types['int'] = ty
        return ty

    def loop(self, s, st, c, inc, body, isdo):
        def fc(st_): return self.cond(c, st_) if c is not None else t.TRUE
        def fi(st_):
            if inc is not None: self.ev_void(inc, st_)
        def fb(st_): return self.ex(body, st_)
        return self.loop_fn(s, st, fc, fi, fb, isdo)

    def loop_fn(self, s, st, cond, inc, body, isdo):
        out = Out(None)
        # 1. concrete unrolling while the condition is decided by the state
        n = 0
        exits = []
        first = isdo
        saved_obls, saved_as = len(self.obls), len(self.assumes)
        entry = st.clone()
        cur = st
        ok = True
        while cur is not None:
            if not first:
                c = cond(cur)
                if c is not t.TRUE and c in cur.pc: c = t.TRUE
                if c is t.FALSE or t.not_(c) in cur.pc:
                    exits.append(cur); cur = None; break
                if c is not t.TRUE:
                    if n == 0:
                        ok = False
                        break
                    if self.bounded and self.mode_bounded_only:
                        pass
                    ok = False
                    break
            first = False
            n += 1
            if n > self.unroll:
                ok = False; break
            o = body(cur)
            out.ret += o.ret; out.thr += o.thr
            exits += o.brk
            cur = self.mergeall([o.n] + o.cont)
            if cur is not None: inc(cur)
        if ok:
            out.n = self.mergeall(exits)
            return out
        del self.obls[saved_obls:]
        del self.assumes[saved_as:]
        if self.bounded:
            return self.loop_bounded(s, entry, cond, inc, body, isdo)
        if isdo:
            # peel the first iteration
            out = Out(None)
            o = body(entry)
            out.ret += o.ret; out.thr += o.thr
            cur = self.mergeall([o.n] + o.cont)
            if cur is None:
                out.n = self.mergeall(o.brk); return out
            r = self.loop_sym(s, cur, cond, inc, body)
            out.absorb(r)
            out.n = self.mergeall([r.n] + o.brk)
            return out
        return self.loop_sym(s, entry, cond, inc, body)

    mode_bounded_only = False

    def loop_bounded(self, s, st, cond, inc, body, isdo):
        self.was_bounded = True
        out = Out(None)
        exits = []
        cur = st
        first = isdo
        for n in range(self.bounded + 1):
            if cur is None: break
            if not first:
                c = cond(cur)
                e = cur.clone()
                self.assume_in(e, t.not_(c))
                if not self.dead(e) and c is not t.TRUE: exits.append(e)
                if n == self.bounded or c is t.FALSE:
                    break
                self.assume_in(cur, c)
                if self.dead(cur): break
            first = False
            o = body(cur)
            out.ret += o.ret; out.thr += o.thr
            exits += o.brk
            cur = self.mergeall([o.n] + o.cont)
            if cur is not None: inc(cur)
        out.n = self.mergeall(exits)
        return out

    def loop_sym(self, s, st, cond, inc, body):
        from . import loops
        self.loops += 1
        return loops.summarise(self, s, st, cond, inc, body)

    # ---- expressions ---------------------------------------------------------------------------------------
    decide = False           # ask the solver which way a condition goes (scenarios whose preconditions fix the control flow)

    def cond(self, e, st):
        v = self.ev(e, st)
        c = self.tobool(v)
        return self.decided(c, st) if self.decide and c.op != 'c' else c

    def decided(self, c, st):
        from . import prove
        if not hasattr(self, '_dec'): self._dec, self._prv = {}, prove.Prover(timeout=500)
        pc = [p for p in st.pc if not prove.has(p, ('forall', 'exists', 'lam'))]
        key = (c, tuple(pc))
        if key not in self._dec:
            r = c
            if self._prv.entails(pc, c, 500): r = t.TRUE
            elif self._prv.entails(pc, t.not_(c), 500): r = t.FALSE
            self._dec[key] = r
        return self._dec[key]

    def tobool(self, v):
        if '^p' in v.l: return t.TRUE
        if '^b' in v.l: return t.ne(v.l['^b'], t.I(0))
        x = v.l['']
        if x.sort == BOOL: return x
        if x.sort == INT: return t.ne(x, t.I(0))
        if x.sort == REAL: return t.ne(x, t.R(0))
        raise ToolLimit('condition of sort %s' % (x.sort,))

    def conv(self, v, ty):
        """implicit representation changes (never changes meaning: the AST has explicit casts)"""
        if v is None:
            raise ToolLimit('void value used')
        if '^p' in v.l:
            return Val(ty, v.l)
        if ty.k == 'ref':
            ty = self.nonconst(ty.to)
        if ty.k in SCAL and '' in v.l and isinstance(v.l[''].sort, str) and \
                {'bool': BOOL, 'int': INT, 'enum': INT, 'real': REAL}.get(ty.k, v.l[''].sort) != v.l[''].sort:
            pass
        elif v.ty is ty and self.P.kind(ty) != 'ptr':
            return v
        if ty.k in SCAL and '' in v.l:
            x = v.l['']
            if ty.k == 'real' and x.sort != REAL: x = t.to_real(x if x.sort != BOOL else t.ite(x, t.I(1), t.I(0)))
            elif ty.k in ('int', 'enum') and x.sort == BOOL: x = t.ite(x, t.I(1), t.I(0))
            elif ty.k in ('int', 'enum') and x.sort == REAL: x = t.trunc_(x)
            elif ty.k == 'bool' and x.sort != BOOL: x = self.tobool(v)
            return Val(ty, {'': x})
        kt = self.P.kind(ty)
        if kt == 'str' and v.l.get('') is t.I(0):
            return Val(ty, {'': t.S(NULLSTR)})
        if kt == 'complex' and '' in v.l:
            return Val(ty, {'.re': t.to_real(v.x), '.im': t.R(0)})
        if kt == 'ptr':
            m = self.P.ptrmode(ty)
            if m == 'mem' and '^b' not in v.l:
                return Val(ty, {'^b': v.l[''], '^o': t.I(0)})
            if m == 'obj' and '^b' in v.l:
                return Val(ty, {'': v.l['^b']})
        return Val(ty, v.l)

    def ptrconv(self, v, ty):
        if '^p' in v.l or self.P.kind(ty) != 'ptr': return Val(ty, v.l)
        return self.conv(v, ty)

    def boolval(self, ty, b):
        if ty.k == 'bool': return Val(ty, {'': b})
        return Val(ty, {'': t.ite(b, t.I(1), t.I(0))})

    def ev(self, e, st):
        if e is None:
            raise ToolLimit('missing expression')
        k = e['k']
        if e.get('lv') and k in ('var', 'gvar', 'field', 'sub', 'mat'):
            return self.readg(st, self.lv(e, st))
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise ToolLimit('expression %s %s line %s' % (k, e.get('s'), e.get('l')))
        return m(e, st)

    def lv(self, e, st):
        k = e['k']
        m = getattr(self, 'l_' + k, None)
        if m is None:
            raise ToolLimit('lvalue %s %s line %s' % (k, e.get('s'), e.get('l')))
        return m(e, st)

    def lv_or_temp(self, e, st):
        """place of e; materialises a temporary for an rvalue"""
        if e['k'] == 'mat':
            e2 = e['e']
            if e2['t'].name == 'std::_Bit_reference': return self.lv_or_temp(e2, st)      # a proxy stands for the element
            return self.temp(self.initval(e2, e2['t'], st, None), e2['t'], st)
        if e['t'].name == 'std::_Bit_reference' and e['k'] in ('call', 'mcall'):
            return self.callexpr(e, st, True)
        if e.get('lv'):
            try:
                return self.lv(e, st)
            except _Value as v:
                return self.temp(v.v, e['t'], st)
        v = self.initval(e, e['t'], st, None)
        if e['t'].k == 'ref' and '^p' in v.l:
            return v.l['^p'].alts
        return self.temp(v, e['t'], st)

    def temp(self, v, ty, st):
        root = ('L', self.frame, 'tmp#%d' % next(self.frames))
        ty = self.nonconst(ty)
        loc = Loc(root, (), '', ty)
        self.write(st, loc, self.conv(v, ty))
        return [(t.TRUE, loc, None)]

    def nonconst(self, ty):
        return self.P.types.get(ty.s, ty) if ty.const else ty

    # literals
    def e_int(self, e, st): return Val(e['t'], {'': t.I(int(e['v'])) if e['t'].k != 'bool' else t.B(int(e['v']))})
    def e_bool(self, e, st): return Val(e['t'], {'': t.B(e['v'])})

    def e_real(self, e, st):
        from fractions import Fraction
        sp = e.get('sp', e['v']).rstrip('fFlL')
        try: f = Fraction(sp)
        except ValueError:
            f = Fraction(float.fromhex(sp)) if 'x' in sp.lower() else Fraction(e['v'])
        if abs(f - Fraction('3.14159265358979323846')) < Fraction(1, 10 ** 9):
            self.notes.add('the literal %s is taken to be pi' % sp)
            return Val(e['t'], {'': t.PI})
        return Val(e['t'], {'': t.R(f)})

    def e_str(self, e, st): return Val(e['t'], {'': t.S(e.get('v', ''))})
    def e_null(self, e, st): return Val(e['t'], {'': t.I(0), '^b': t.I(0), '^o': t.I(0)})
    def e_zero(self, e, st): return self.zero(e['t'])

    def e_this(self, e, st):
        p = self.this
        if isinstance(p, Obj): return Val(e['t'], {'': p.ref})
        return Val(e['t'], {'^p': Ptr([(t.TRUE, p, None)])})

    def e_fn(self, e, st): return Val(e['t'], {'': t.var('fn:' + e['n'], INT)})

    # places
    def varroot(self, e):
        if e.get('static'): return ('G', 'static', '%s#%d' % (e['n'], e['id']))
        return ('L', self.frame, '%s#%d' % (e['n'], e['id']))

    def l_var(self, e, st):
        root = self.varroot(e)
        r = st.st.get((root, '^ref'))
        if r is not None: return r.alts
        return [(t.TRUE, Loc(root, (), '', self.nonconst(e['t'])), None)]

    def e_var(self, e, st):
        return self.readg(st, self.l_var(e, st))

    def l_gvar(self, e, st):
        g = self.P.globals.get(e['n'])
        if g and g.get('const') and g.get('init') is not None:
            v = self.conv(self.initval(g['init'], g['t'], st, None), g['t'])
            return self.temp(v, g['t'], st)
        return [(t.TRUE, Loc(('G', e['n']), (), '', self.nonconst(e['t'])), None)]

    def e_gvar(self, e, st):
        return self.readg(st, self.l_gvar(e, st))

    def base_places(self, e, st):
        """places denoted by the object expression of a member access / call"""
        b = e['b']
        if e.get('arrow') or b['t'].k == 'ptr' or (b['k'] == 'this'):
            v = self.ev(b, st)
            return self.deref(v, b['t'])
        return self.lv_or_temp(b, st)

    def ptrref(self, v):
        """the object id a pointer value denotes"""
        if '^p' in v.l:
            r = None
            for g, l, o in v.l['^p'].alts:
                x = l.ref if isinstance(l, Obj) else None
                if x is None: raise ToolLimit('pointer to a non-object as an object id')
                r = x if r is None else t.ite(g, x, r)
            return r
        return v.l['']

    def deref(self, v, pt):
        """places a pointer value designates"""
        if '^p' in v.l:
            return [(g, self.offs(l, o), None) for g, l, o in v.l['^p'].alts]
        to = self.P.target(pt)
        if '^b' in v.l:
            return [(t.TRUE, Loc(('M', self.nonconst(to).s, 'mem'), (v.l['^b'], v.l['^o']), '', self.nonconst(to)), None)]
        return [(t.TRUE, self.objplace(v.l[''], to), None)]

    def objplace(self, ref, to):
        return Obj(ref, self.nonconst(to))

    def offs(self, l, o):
        if o is None: return l
        return self.elem(l, o)

    def elem(self, place, i):
        k = self.P.kind(place.ty)
        et = place.ty.elem or place.ty.args[0]
        place = self.asloc(place)
        return Loc(place.root, place.idx + (i,), place.path + '[]', et)

    def asloc(self, place):
        if isinstance(place, Obj):
            if self.P.rec(place.ty) is None:
                return Loc(('M', place.ty.s, 'obj'), (place.ref,), '', place.ty)
            raise ToolLimit('object used as a plain location')
        return place

    def fieldplace(self, place, cls, name, ty):
        cls = cls.replace('__cxx11::', '')
        if isinstance(place, Obj):
            return Loc(('H', cls), (place.ref,), '.' + name, ty)
        return Loc(place.root, place.idx, place.path + '.' + name, ty)

    def l_field(self, e, st):
        out = []
        fty = self.nonconst(e['t'])
        if self.P.records.get(e['cls'].replace('__cxx11::', '')) is None:
            # std::pair etc
            if e['n'] in ('first', 'second'):
                bp = self.base_places(e, st)
                if len(bp) == 1 and hasattr(bp[0][1], 'key'):
                    l = bp[0][1]
                    if e['n'] == 'second':
                        return [(t.TRUE, Loc(l.root, l.idx + (l.key,), l.path + '[]', l.place.ty.args[1]), None)]
                    kt = l.place.ty.args[0]
                    return self.temp(Val(kt, {self.P.leaves(kt)[0][0]: l.key}), kt, st)
                return [(g, Loc(self.asloc(l).root, self.asloc(l).idx, self.asloc(l).path + '.' + e['n'], fty), None)
                        for g, l, *_ in self.base_places(e, st)]
        for g, l, *_ in self.base_places(e, st):
            o = self.P.owner(e['cls'].replace('__cxx11::', ''), e['n'])
            decl = o[1]['t'] if o else fty
            p = self.fieldplace(l, e['cls'], e['n'], decl if decl.k == 'ref' else fty)
            if decl.k == 'ref':
                v = st.st.get((p.root, p.path + '^ref'))
                if v is not None: out += [(t.and_(g, a[0]), a[1], None) for a in v.alts]
                else:
                    r = self.rawget(st, p.root, p.idx, p.path, INT)
                    out.append((g, self.objplace(r, decl.to), None))
            else:
                out.append((g, p, None))
        return out

    def e_field(self, e, st):
        return self.readg(st, self.l_field(e, st))

    def l_sub(self, e, st):
        a, i = e['a'], self.ev(e['i'], st).x
        if a['k'] == 'cast' and a['ck'] == 'ArrayToPointerDecay':
            lvs = self.lv_or_temp(a['e'], st)
            if self.P.kind(lvs[0][1].ty) == 'str':
                raise ToolLimit('character access')
            if self.safety:
                n = lvs[0][1].ty.n
                if n: self.oblige(st, 'safety', 'array index in range', e.get('l'), t.and_(t.le(t.I(0), i), t.lt(i, t.I(n))))
            return [(g, self.elem(l, i), None) for g, l, *_ in lvs]
        v = self.ev(a, st)
        return self.ptrelem(v, a['t'], i, st)

    def ptrelem(self, v, pt, i, st):
        if '^p' in v.l:
            return [(g, self.elem(l, t.add(o, i)) if o is not None else (l if i is t.I(0) else self._bad('index of a scalar pointer')), None)
                    for g, l, o in v.l['^p'].alts]
        if '^b' in v.l:
            to = self.nonconst(self.P.target(pt))
            return [(t.TRUE, Loc(('M', to.s, 'mem'), (v.l['^b'], t.add(v.l['^o'], i)), '', to), None)]
        if i is t.I(0):
            return self.deref(v, pt)
        to = self.nonconst(self.P.target(pt))
        # array of objects/pointers behind a pointer
        return [(t.TRUE, Loc(('M', to.s, 'arr'), (v.l[''], i), '', to), None)]

    def _bad(self, m):
        raise ToolLimit(m)

    def l_mat(self, e, st):
        return self.lv_or_temp(e, st)

    def e_mat(self, e, st):
        return self.initval(e['e'], e['e']['t'], st, None)

    def l_str(self, e, st):
        return self.temp(self.e_str(e, st), e['t'], st)

    def l_un(self, e, st):
        op = e['op']
        if op == '*':
            v = self.ev(e['e'], st)
            return self.deref(v, e['e']['t'])
        if op in ('++', '--') and not e.get('post'):
            lvs = self.lv(e['e'], st)
            self.incdec(lvs, op, st)
            return lvs
        raise ToolLimit('lvalue unary ' + op)

    def incdec(self, lvs, op, st):
        old = self.readg(st, lvs)
        d = 1 if op == '++' else -1
        if '^p' in old.l:
            self.writeg(st, lvs, Val(old.ty, {'^p': Ptr([(g, l, t.add(o, t.I(d))) for g, l, o in old.l['^p'].alts])}))
            return old
        if '^b' in old.l:
            self.writeg(st, lvs, Val(old.ty, {'^b': old.l['^b'], '^o': t.add(old.l['^o'], t.I(d))}))
            return old
        x = old.x
        if x.sort == BOOL: raise ToolLimit('++ on bool')
        self.writeg(st, lvs, Val(old.ty, {'': t.add(x, t.I(d) if x.sort == INT else t.R(d))}))
        return old

    def e_un(self, e, st):
        op = e['op']
        if op == '&':
            s = e['e']
            if s['k'] == 'fn': return self.e_fn(s, st)
            if s['k'] == 'sub':
                a = s['a']
                i = self.ev(s['i'], st).x
                if a['k'] == 'cast' and a['ck'] == 'ArrayToPointerDecay':
                    lvs = self.lv_or_temp(a['e'], st)
                    return Val(e['t'], {'^p': Ptr([(g, l, i) for g, l, *_ in lvs])})
                v = self.ev(a, st)
                return self.padd(v, e['t'], i)
            lvs = self.lv(s, st)
            return self.addr(lvs, e['t'])
        if op == '*':
            return self.readg(st, self.l_un(e, st))
        if op in ('++', '--'):
            if e.get('post'): return self.incdec(self.lv(e['e'], st), op, st)
            lvs = self.l_un(e, st)
            return self.readg(st, lvs)
        v = self.ev(e['e'], st)
        if op == '!': return self.boolval(e['t'], t.not_(self.tobool(v)))
        if op == '-': return Val(e['t'], {'': t.neg(v.x)})
        if op == '+': return v
        raise ToolLimit('unary ' + op)

    def addr(self, lvs, pty):
        if len(lvs) == 1:
            l = lvs[0][1]
            if isinstance(l, Obj): return Val(pty, {'': l.ref})
            if l.root[0] == 'M' and l.root[2] == 'mem' and len(l.idx) == 2 and l.path == '':
                return Val(pty, {'^b': l.idx[0], '^o': l.idx[1]})
            if l.root[0] == 'M' and l.root[2] == 'obj' and len(l.idx) == 1 and l.path == '':
                return Val(pty, {'': l.idx[0]})
            # address of element 0 of an array/vector place: keep the offset so that pointer arithmetic works
            if l.path.endswith('[]') and l.idx:
                base = Loc(l.root, l.idx[:-1], l.path[:-2], None)
                return Val(pty, {'^p': Ptr([(t.TRUE, _ArrView(base, l.ty), l.idx[-1])])})
        return Val(pty, {'^p': Ptr([(g, l, None) for g, l, *_ in lvs])})

    def padd(self, v, pty, i):
        if '^p' in v.l: return Val(pty, {'^p': Ptr([(g, l, t.add(o, i) if o is not None else self._bad('arith on scalar ptr')) for g, l, o in v.l['^p'].alts])})
        if '^b' in v.l: return Val(pty, {'^b': v.l['^b'], '^o': t.add(v.l['^o'], i)})
        if i is t.I(0): return v
        raise ToolLimit('pointer arithmetic on objects')

    def e_cast(self, e, st):
        ck = e['ck']
        s = e['e']
        if ck in ('LValueToRValue',):
            return self.readg(st, self.lv_or_temp(s, st))
        if ck in ('NoOp', 'BitCast', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase',
                  'BaseToDerived', 'Dynamic', 'AtomicToNonAtomic', 'BaseToDerivedMemberPointer'):
            if e.get('lv'):
                lvs = self.l_cast(e, st)
                return self.readg(st, lvs)
            v = self.initval(s, s['t'], st, None)
            if ck == 'Dynamic':
                self.notes.add('dynamic_cast is taken to succeed (the application only stores its own component types)')
            if ck in ('BitCast', 'Dynamic', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp'):
                return self.ptrconv(v, e['t'])
            return self.conv(v, e['t'])
        if ck in ('IntegralCast',):
            v = self.ev(s, st)
            x = v.x
            if e['t'].k == 'bool': return Val(e['t'], {'': self.tobool(v)})
            if x.sort == BOOL: x = t.ite(x, t.I(1), t.I(0))
            return Val(e['t'], {'': x})
        if ck in ('IntegralToFloating', 'FloatingCast'):
            v = self.ev(s, st)
            x = v.x
            if x.sort == BOOL: x = t.ite(x, t.I(1), t.I(0))
            return Val(e['t'], {'': t.to_real(x)})
        if ck == 'FloatingToIntegral':
            return Val(e['t'], {'': t.trunc_(self.ev(s, st).x)})
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return Val(e['t'], {'': self.tobool(self.ev(s, st))})
        if ck == 'NullToPointer':
            return Val(e['t'], {'': t.I(0), '^b': t.I(0), '^o': t.I(0)} if self.P.kind(e['t']) != 'ptr' else
                       ({'^b': t.I(0), '^o': t.I(0)} if self.P.ptrmode(e['t']) == 'mem' else {'': t.I(0)}))
        if ck == 'ArrayToPointerDecay':
            lvs = self.lv_or_temp(s, st)
            if self.P.kind(lvs[0][1].ty) == 'str':
                return Val(e['t'], self.readg(st, lvs).l)
            return Val(e['t'], {'^p': Ptr([(g, l, t.I(0)) for g, l, *_ in lvs])})
        if ck == 'FunctionToPointerDecay': return self.ev(s, st)
        if ck == 'ToVoid':
            self.ev_void(s, st)
            return None
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            v = self.ev(s, st)
            return Val(e['t'], v.l)
        raise ToolLimit('cast ' + ck)

    def l_cast(self, e, st):
        ck = e['ck']
        lvs = self.lv_or_temp(e['e'], st)
        out = []
        for g, l, *_ in lvs:
            if isinstance(l, Obj): out.append((g, Obj(l.ref, self.nonconst(e['t'])), None))
            else: out.append((g, Loc(l.root, l.idx, l.path, self.nonconst(e['t'])) if self.P.kind(e['t']) == 'rec' else l, None))
        return out

    def arith(self, op, a, b, ty, st, line):
        """a, b Val; ty result type"""
        if '^p' in a.l or '^b' in a.l:
            if op in ('==', '!='):
                r = self.ptreq(a, b)
                return self.boolval(ty, r if op == '==' else t.not_(r))
            if op == '+': return self.padd(a, ty, b.x)
            if op == '-' and '' in b.l: return self.padd(a, ty, t.neg(b.x))
            raise ToolLimit('pointer operator ' + op)
        if '^p' in b.l or '^b' in b.l:
            if op in ('==', '!='):
                r = self.ptreq(b, a)
                return self.boolval(ty, r if op == '==' else t.not_(r))
            if op == '+': return self.padd(b, ty, a.x)
            raise ToolLimit('pointer operator ' + op)
        x, y = a.x, b.x
        if x.sort == BOOL and y.sort == BOOL and op in ('==', '!='):
            r = t.eq(x, y)
            return self.boolval(ty, r if op == '==' else t.not_(r))
        if x.sort == BOOL: x = t.ite(x, t.I(1), t.I(0))
        if y.sort == BOOL: y = t.ite(y, t.I(1), t.I(0))
        if op == '+': r = t.add(x, y)
        elif op == '-': r = t.sub(x, y)
        elif op == '*': r = t.mul(x, y)
        elif op == '/':
            if x.sort == INT and y.sort == INT:
                if self.safety: self.oblige(st, 'safety', 'no integer division by zero', line, t.ne(y, t.I(0)))
                r = t.tdiv(x, y)
            else: r = t.div(x, y)
        elif op == '%': r = t.tmod(x, y)
        elif op in ('<', '<=', '>', '>=', '==', '!='):
            if op == '<': c = t.lt(x, y)
            elif op == '<=': c = t.le(x, y)
            elif op == '>': c = t.lt(y, x)
            elif op == '>=': c = t.le(y, x)
            elif op == '==': c = t.eq(x, y)
            else: c = t.not_(t.eq(x, y))
            return self.boolval(ty, c)
        elif op == '<<' and y.op == 'c': r = t.mul(x, t.I(2 ** y.val))
        elif op in ('&', '|', '^', '>>', '<<'):
            r = t.app('bit' + op, (x, y), INT)
        else: raise ToolLimit('operator ' + op)
        return Val(ty, {'': r})

    def ptreq(self, a, b):
        for p, q in ((a, b), (b, a)):
            if '' in p.l and p.l[''].sort == STR and '^b' in q.l and q.l['^b'] is t.I(0):
                return t.eq(p.x, t.S(NULLSTR))
        if '^p' in a.l:
            if '^p' in b.l: return t.B(a.l['^p'].same(b.l['^p']))
            return t.FALSE
        if '^b' in a.l:
            bb, bo = b.l.get('^b', b.l.get('')), b.l.get('^o', t.I(0))
            if bb is t.I(0): return t.eq(a.l['^b'], bb)
            return t.and_(t.eq(a.l['^b'], bb), t.eq(a.l['^o'], bo))
        x, y = a.x, b.l.get('', b.l.get('^b'))
        if x.sort == STR and y is t.I(0): y = t.S(NULLSTR)
        if y.sort == STR and x is t.I(0): x = t.S(NULLSTR)
        if x.sort == STR or y.sort == STR:
            if x.sort != y.sort: raise ToolLimit('char pointer comparison')
        return t.eq(x, y)

    def e_bin(self, e, st):
        op = e['op']
        if op == ',':
            self.ev_void(e['a'], st)
            return self.ev(e['b'], st)
        if op in ('&&', '||'):
            a = self.cond(e['a'], st)
            if a is t.TRUE or a in st.pc: a = t.TRUE
            if a is t.FALSE or t.not_(a) in st.pc: a = t.FALSE
            if op == '&&':
                if a is t.FALSE: return self.boolval(e['t'], t.FALSE)
                if a is t.TRUE: return self.boolval(e['t'], self.cond(e['b'], st))
            else:
                if a is t.TRUE: return self.boolval(e['t'], t.TRUE)
                if a is t.FALSE: return self.boolval(e['t'], self.cond(e['b'], st))
            g = a if op == '&&' else t.not_(a)
            s1, s2 = st.clone(), st.clone()
            self.assume_in(s1, g); self.assume_in(s2, t.not_(g))
            b = self.cond(e['b'], s1)
            m = self.merge(s1, s2)
            m.pc = list(st.pc)
            st.assign(m)
            return self.boolval(e['t'], t.and_(a, b) if op == '&&' else t.or_(a, b))
        a = self.ev(e['a'], st)
        b = self.ev(e['b'], st)
        return self.arith(op, a, b, e['t'], st, e.get('l'))

    def e_cond(self, e, st):
        c = self.cond(e['c'], st)
        if c is t.TRUE: return self.initval(e['a'], e['a']['t'], st, None)
        if c is t.FALSE: return self.initval(e['b'], e['b']['t'], st, None)
        s1, s2 = st.clone(), st.clone()
        self.assume_in(s1, c); self.assume_in(s2, t.not_(c))
        a = self.initval(e['a'], e['a']['t'], s1, None)
        b = self.initval(e['b'], e['b']['t'], s2, None)
        pc = list(st.pc)
        m = self.merge(s1, s2); m.pc = pc
        st.assign(m)
        if e['t'].k == 'void': return None
        return self.vite(c, self.conv(a, e['t']), self.conv(b, e['t']))

    def l_cond(self, e, st):
        c = self.cond(e['c'], st)
        a = self.lv(e['a'], st); b = self.lv(e['b'], st)
        return [(t.and_(c, x[0]), x[1], None) for x in a] + [(t.and_(t.not_(c), x[0]), x[1], None) for x in b]

    def l_as(self, e, st):
        if e['a']['t'].k == 'rec' and e['a'].get('lv'):
            pass
        # C++17: right operand first
        v = self.initval(e['b'], e['a']['t'], st, None) if e['b']['k'] == 'init' else self.ev(e['b'], st)
        if e['a']['k'] == 'sub' and e['a']['a']['k'] == 'cast' and e['a']['a'].get('ck') == 'ArrayToPointerDecay' and v.l.get('') is not None and v.x is t.I(0):
            lvs = self.lv_or_temp(e['a']['a']['e'], st)
            if self.P.kind(lvs[0][1].ty) == 'str':        # a zero byte ends the text
                i, old = self.ev(e['a']['i'], st).x, self.readg(st, lvs)
                if self.safety and lvs[0][1].ty.n: self.oblige(st, 'safety', 'array index in range', e.get('l'), t.and_(t.le(t.I(0), i), t.lt(i, t.I(lvs[0][1].ty.n))))
                src = old.x
                if src.op == 'app' and src.val == 'strncpy':
                    if not (i.op == 'c' and src.args[1].op == 'c' and i.val <= src.args[1].val): raise ToolLimit('text without an end')
                    src = src.args[0]
                self.writeg(st, lvs, Val(old.ty, {'': t.app('prefix', (src, i), STR)}))
                return lvs
        lvs = self.lv(e['a'], st)
        self.writeg(st, lvs, self.conv(v, lvs[0][1].ty if lvs[0][1].ty is not None else e['a']['t']))
        return lvs

    def e_as(self, e, st):
        return self.readg(st, self.l_as(e, st))

    def l_cas(self, e, st):
        b = self.ev(e['b'], st)
        lvs = self.lv(e['a'], st)
        old = self.readg(st, lvs)
        o2 = self.conv(old, e['clt']) if e['clt'].k in SCAL else old
        r = self.arith(e['op'], o2, b, e['ct'], st, e.get('l'))
        self.writeg(st, lvs, self.conv(r, lvs[0][1].ty))
        return lvs

    def e_cas(self, e, st):
        return self.readg(st, self.l_cas(e, st))

    def l_bin(self, e, st):
        if e['op'] == ',':
            self.ev_void(e['a'], st)
            return self.lv(e['b'], st)
        raise ToolLimit('lvalue binary ' + e['op'])

    def e_init(self, e, st): return self.initlist(e, e['t'], st)
    def e_initlist(self, e, st): return self.ev(e['e'], st)

    def e_throw(self, e, st):
        s2 = st.clone()
        self.throws.append(s2)
        st.pc.append(t.FALSE)
        return Val(e['t'], {})

    def newconst(self):
        return t.I(-next(self.newref))

    def e_new(self, e, st):
        ref = self.newconst()
        ty = e['nt']
        k = self.P.kind(ty)
        pty = e['t']
        if k == 'rec' and 'n' not in e:
            obj = Obj(ref, ty)
            for root, idx, path, suf, so in self.place_leaves(obj):
                self.rawset(st, root, idx, path, so, t.fresh('new', so))
            if e.get('init') and e['init']['k'] == 'ctor':
                self.construct_at(e['init'], obj, st)
            return Val(pty, {'': ref})
        if 'n' in e:
            self.ev(e['n'], st)
        if e.get('init') is not None and 'n' not in e and k == 'scalar':
            v = self.ev(e['init'], st)
            for g, l, *_ in self.deref(Val(pty, {'^b': ref, '^o': t.I(0)}), pty):
                self.write(st, l, self.conv(v, ty))
        if self.P.kind(pty) == 'ptr' and self.P.ptrmode(pty) == 'mem':
            return Val(pty, {'^b': ref, '^o': t.I(0)})
        return Val(pty, {'': ref})

    def e_delete(self, e, st):
        self.ev(e['e'], st)
        return None

    # ---- construction --------------------------------------------------------------------------------------
    def construct(self, e, ty, st, place):
        """value of a constructor expression"""
        k = self.P.kind(ty)
        args = e['args']
        if e['k'] != 'ctor':
            return self.ev(e, st)
        if e.get('copy') and len(args) == 1:
            return Val(ty, self.readg(st, self.lv_or_temp(args[0], st)).l)
        if k == 'rec':
            loc = Loc(('L', self.frame, 'obj#%d' % next(self.frames)), (), '', ty)
            for s_, so in self.P.leaves(ty):
                st.st[(loc.root, s_)] = t.fresh('new', so)
            self.construct_at(e, loc, st)
            return self.read(st, loc)
        from . import lib
        return lib.construct(self, e, ty, st)

    def construct_at(self, e, place, st):
        f = self.P.funcs.get(e['f'])
        if e.get('zero') and isinstance(place, Loc):
            self.write(st, place, self.zero(place.ty))
        if f is None:
            if e.get('copy'):
                v = self.readg(st, self.lv_or_temp(e['args'][0], st))
                self.write(st, place, Val(place.ty, v.l)); return
            if e.get('triv') or e.get('def'):
                # implicit default constructor: default members
                self.default_members(place, st); return
            raise ToolLimit('constructor of %s without a visible body' % e['cls'])
        self.call_body(f, place, self.bind_args(f, e['args'], st), st, e)

    def default_members(self, place, st):
        r = self.P.rec(place.ty)
        for f in r['fields']:
            if self.P.kind(f['t']) in ('vec', 'map', 'set', 'str', 'complex') or (self.P.kind(f['t']) == 'ptr' and f['t'].k == 'rec'):
                p = self.fieldplace(place, place.ty.s, f['name'], f['t'])
                self.write(st, p, self.default(f['t']))

    def e_ctor(self, e, st):
        return self.construct(e, self.nonconst(e['t']), st, None)

    def l_ctor(self, e, st):
        return self.temp(self.e_ctor(e, st), e['t'], st)

    # ---- calls ---------------------------------------------------------------------------------------------
    def bind_args(self, f, args, st):
        out = []
        for p, a in zip(f['params'], args):
            if p['t'].k == 'ref':
                out.append(self.lv_or_temp(a, st))
            else:
                out.append(self.conv(self.initval(a, p['t'], st, None), p['t']))
        return out

    def e_call(self, e, st):
        return self.callexpr(e, st, False)

    def l_call(self, e, st):
        return self.callexpr(e, st, True)

    e_mcall = e_call
    l_mcall = l_call

    def callexpr(self, e, st, want_lv):
        r = self.docall(e, st)
        if r is None:
            if want_lv: raise _Value(None)
            return None
        if isinstance(r, list):
            lvs = r
        elif '^p' in r.l and (r.ty.k == 'ref'):
            lvs = r.l['^p'].alts
        else:
            if want_lv:
                if r.ty is not None and r.ty.k == 'ref': return self.temp(Val(r.ty.to, r.l), r.ty.to, st)
                return self.temp(r, e['t'], st)
            return r
        if want_lv: return lvs
        return self.readg(st, lvs)

    def contract_for(self, name, fid):
        c = self.contracts.get(fid) or self.contracts.get(name)
        if c: return c
        for k, v in self.contracts.items():
            if name.endswith('::' + k): return v
        return None

    def docall(self, e, st):
        name = e.get('n', '')
        fid = e.get('f')
        from . import lib
        short = name.split('::')[-1]
        if e['k'] == 'call' and 'ce' in e:
            raise ToolLimit('call through a pointer, line %s' % e.get('l'))
        c = self.contract_for(name, fid)
        f = self.P.funcs.get(fid)
        if c is not None:
            self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
            this = None
            args = list(e['args'])
            if e['k'] == 'mcall':
                this = self.base_places(e, st)
            elif e.get('mem'):
                this = self.lv_or_temp(args[0], st); args = args[1:]
            return c(self, st, this, args, e)
        if f is None and e.get('virtual'):
            pass
        if e['k'] == 'mcall':
            cls = e['cls'].replace('__cxx11::', '')
            if f is not None or (e.get('virtual') and cls in self.P.records):
                places = self.base_places(e, st)
                if len(places) != 1:
                    return self.multi_call(e, f, places, st)
                place = places[0][1]
                if e.get('virtual'):
                    f = self.dispatch(e, place, f, cls)
                return self.call_body(f, place, self.bind_args(f, e['args'], st), st, e)
        elif f is not None:
            if e.get('mem') and not f.get('static'):
                places = self.lv_or_temp(e['args'][0], st)
                if len(places) != 1: raise ToolLimit('operator on a conditional place')
                return self.call_body(f, places[0][1], self.bind_args(f, e['args'][1:], st), st, e)
            return self.call_body(f, None, self.bind_args(f, e['args'], st), st, e)
        if self.libhook:
            r = self.libhook(self, e, st, name)
            if r is not NotImplemented: return r
        return lib.call(self, e, st, name, short)

    def multi_call(self, e, f, places, st):
        if f is None or e.get('virtual'):
            raise ToolLimit('virtual call on a conditional object')
        args = self.bind_args(f, e['args'], st)
        base = list(st.pc)
        merged, val = None, None
        for g, l, *_ in places:
            s2 = st.clone()
            self.assume_in(s2, g)
            v = self.call_body(f, l, args, s2, e)
            if merged is None: merged, val, mg = s2, v, g
            else:
                merged = self.merge(s2, merged)
                if v is not None: val = self.vite(g, v, val)
        merged.pc = base
        st.assign(merged)
        return val

    def dispatch(self, e, place, f, cls):
        dc = None
        if isinstance(place, Obj):
            dc = self.dyn.get(place.ref) or (self.dyn_of.get(place.ty.s) if place.ty is not None else None)
        elif place.ty is not None:
            dc = place.ty.s
        if dc:
            g = self.P.resolve_virtual(e['f'], dc)
            if g is not None: return g
        if f is None:
            raise ToolLimit('virtual call %s: no body for the static type' % e['n'])
        self.notes.add('virtual call %s resolved to the static type' % e['n'])
        return f

    def call_body(self, f, place, args, st, e=None):
        if self.depth > self.maxdepth or self.fstack.count(f['n']) > 3:
            raise ToolLimit('recursion in ' + f['n'])
        self.inlined[f['n']] = (f['file'], f['l'])
        of, ot, orr = getattr(self, 'frame', None), getattr(self, 'this', None), getattr(self, 'fret', None)
        self.frame, self.this, self.fret = next(self.frames), place, f['ret']
        self.depth += 1
        self.fstack.append(f['n'])
        try:
            fr = self.frame
            for p, a in zip(f['params'], args):
                root = ('L', fr, '%s#%d' % (p['n'], p['id']))
                if p['t'].k == 'ref':
                    st.st[(root, '^ref')] = Ptr([(x[0], x[1], None) for x in a])
                else:
                    self.write(st, Loc(root, (), '', self.nonconst(p['t'])), a)
            if f.get('isctor'):
                self.ctor_inits(f, place, st)
            base = list(st.pc)
            out = self.ex(f['body'], st) if f.get('body') else Out(st)
            rets = list(out.ret)
            if out.n is not None:
                rets.append((out.n, None))
            self.throws += out.thr
            if not rets:
                st.pc.append(t.FALSE)
                return Val(f['ret'], {s_: t.fresh('noreturn', so) for s_, so in self.P.leaves(f['ret'])}) if f['ret'].k != 'void' else None
            ms, mv = rets[0]
            for s2, v2 in rets[1:]:
                n = 0
                while n < len(ms.pc) and n < len(s2.pc) and ms.pc[n] is s2.pc[n]: n += 1
                c = t.and_(*ms.pc[n:])
                nm = self.merge(ms, s2)
                if mv is None or v2 is None: nv = mv if v2 is None else v2
                else: nv = self.vite(c, mv, v2)
                ms, mv = nm, nv
            # drop this frame's locals
            for k in [k for k in ms.st if k[0][0] == 'L' and k[0][1] == fr and not self.escapes(k, mv)]:
                del ms.st[k]
            st.assign(ms)
            return mv
        finally:
            self.frame, self.this, self.fret = of, ot, orr
            self.depth -= 1
            self.fstack.pop()

    def escapes(self, k, v):
        return v is not None and '^p' in v.l

    def ctor_inits(self, f, place, st):
        done = set()
        r = self.P.rec(place.ty) if place.ty is not None else None
        cls = f['cls'].replace('__cxx11::', '')
        r = self.P.records.get(cls)
        for i in f.get('inits', []):
            if 'base' in i:
                bt = i['base']
                ee = i['e']
                if self.P.rec(bt) is None: continue
                bp = Obj(place.ref, bt) if isinstance(place, Obj) else Loc(place.root, place.idx, place.path, bt)
                if ee['k'] == 'ctor':
                    if self.P.funcs.get(ee['f']) is None: continue
                    self.construct_at(ee, bp, st)
            elif 'm' in i:
                fd = [x for x in r['fields'] if x['name'] == i['m']]
                if not fd: continue
                ft = fd[0]['t']
                p = self.fieldplace(place, cls, i['m'], ft)
                done.add(i['m'])
                if ft.k == 'ref':
                    lvs = self.lv_or_temp(i['e'], st)
                    if len(lvs) == 1 and isinstance(lvs[0][1], Obj): self.rawset(st, p.root, p.idx, p.path, INT, lvs[0][1].ref)
                    else: st.st[(p.root, p.path + '^ref')] = Ptr([(x[0], x[1], None) for x in lvs])
                    continue
                if self.P.kind(ft) == 'rec' and i['e']['k'] == 'ctor':
                    self.construct_at(i['e'], p, st); continue
                if i['e'] is None: continue
                v = self.initval(i['e'], ft, st, p)
                if v is not None: self.write(st, p, self.conv(v, ft))
        if r:
            for x in r['fields']:
                if x['name'] in done or x['t'].k == 'ref': continue
                p = self.fieldplace(place, cls, x['name'], x['t'])
                if 'init' in x and x['init'] is not None:
                    v = self.initval(x['init'], x['t'], st, p)
                    self.write(st, p, self.conv(v, x['t']))
                elif self.P.kind(x['t']) in ('vec', 'map', 'set', 'str') or (self.P.kind(x['t']) == 'ptr' and x['t'].k == 'rec'):
                    self.write(st, p, self.default(x['t']))

    # ---- entry ---------------------------------------------------------------------------------------------
    def run(self, f, this=None, args=None, st=None, pre=()):
        """execute function f on object reference `this`; args: list of Val/places (None: fresh symbols).
        Returns (state, return value).  Paths that throw are dropped from the result and kept in self.thrown."""
        st = st if st is not None else State()
        for p in pre: self.assume_in(st, p)
        self.frame, self.this, self.fret = next(self.frames), None, f['ret']
        place = None
        if f.get('cls') and not f.get('static'):
            cty = self.P.types[f['cls'].replace('__cxx11::', '')] if f['cls'].replace('__cxx11::', '') in self.P.types else None
            place = this if isinstance(this, (Loc, Obj)) else Obj(this, cty)
        if args is None:
            args = [self.symarg(p, st) for p in f['params']]
        self.argvals = args
        r = self.call_body(f, place, args, st)
        self.thrown = self.throws
        self.throws = []
        return st, r

    def symarg(self, p, st):
        ty = p['t']
        if ty.k == 'ref':
            to = self.nonconst(ty.to)
            if self.P.kind(to) == 'rec': return [(t.TRUE, Obj(t.var('arg_' + p['n'], INT), to), None)]
            loc = Loc(('L', self.frame, 'arg_' + p['n']), (), '', to)
            return [(t.TRUE, loc, None)]
        if self.P.kind(ty) == 'ptr' and self.P.ptrmode(ty) == 'mem':
            return Val(ty, {'^b': t.var('arg_' + p['n'], INT), '^o': t.I(0)})
        return Val(ty, {s_: t.var('arg_' + p['n'] + s_, so) for s_, so in self.P.leaves(ty)})

    # ---- helpers for contracts -----------------------------------------------------------------------------
    def fld(self, st, ref, cls, name):
        """value of field `name` (declared in cls or a base) of object ref"""
        o = self.P.owner(self.clsname(cls), name)
        if not o: raise ToolLimit('field %s::%s no longer exists' % (cls, name))
        return self.read(st, Loc(('H', o[0]), (ref,), '.' + name, o[1]['t']))

    def setfld(self, st, ref, cls, name, leaves):
        o = self.P.owner(self.clsname(cls), name)
        if not o: raise ToolLimit('field %s::%s no longer exists' % (cls, name))
        loc = Loc(('H', o[0]), (ref,), '.' + name, o[1]['t'])
        if isinstance(leaves, T): leaves = {'': leaves}
        v = self.read(st, loc)
        v.l.update(leaves)
        self.write(st, loc, v)

    def clsname(self, cls):
        if cls in self.P.records: return cls
        c = [k for k in self.P.records if k.split('::')[-1] == cls]
        if len(c) != 1: raise ToolLimit('record %s: %d candidates' % (cls, len(c)))
        return c[0]


class _ArrView(Loc):
    """an array place seen from one of its elements (pointer arithmetic on &v[i])"""
    def __init__(self, base, ety):
        Loc.__init__(self, base.root, base.idx, base.path, _ElemTy(ety))


class _ElemTy:
    k = 'arr'
    const = False
    def __init__(self, e):
        self.elem, self.args, self.s, self.n, self.name, self._leaves = e, [e], 'view', None, None, None


class _Value(Exception):
    def __init__(self, v): self.v = v
