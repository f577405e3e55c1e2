"""Loop summaries.

The body is executed once from a generic iteration k; every location it changes gets the exact solution of its recurrence
(induction variable, sum, last value, array fill, monotone flag) or, failing that, a recursively defined function of k.
Each closed form is exact: it is the unique solution of  x(0)=x0, x(k+1)=F(x(k)),  so the corresponding invariant holds by
induction; `check=True` makes the induction step an explicit obligation."""
from . import terms as t
from .terms import INT, REAL, BOOL, T


def TL(m):
    from .symex import ToolLimit
    raise ToolLimit(m)


def summarise(ex, s, st, cond, inc, body):
    from .symex import State, Out, Ptr
    line = s.get('l')
    fmark = next(t._fresh)
    k = t.fresh('k', INT)
    base_pc = list(st.pc)
    no, na, nt = len(ex.obls), len(ex.assumes), len(ex.throws)
    # ---- which locations does an iteration change?
    mod = {}           # key -> pre-iteration symbol
    for rnd in range(12):
        cur = st.clone()
        for key, sym in mod.items():
            cur.st[key] = sym
        cur.pc = list(base_pc)
        del ex.obls[no:]; del ex.assumes[na:]; del ex.throws[nt:]
        c = cond(cur)
        pre_body = cur.clone()
        ex.assume_in(cur, t.le(t.I(0), k))
        ex.assume_in(cur, c)
        mark = len(cur.pc)
        o = body(cur)
        end = ex.mergeall([o.n] + o.cont)
        if end is not None:
            inc(end)
        new = {}
        states = [x for x in [end] + o.brk + [r[0] for r in o.ret] + o.thr if x is not None]
        for x in states:
            for key, v in x.st.items():
                old = mod.get(key)
                if old is None:
                    old = st.st.get(key)
                    if old is None: old = ex.init.get(key)
                if v is old or key in mod:
                    continue
                if key not in st.st and key[0][0] == 'L' and not (key in ex.init and True):
                    continue        # local to the body
                if key not in st.st and key[0][0] == 'L':
                    continue
                if isinstance(v, Ptr) or isinstance(old, Ptr):
                    if isinstance(v, Ptr) and isinstance(old, Ptr) and v.same(old): continue
                    TL('a pointer to local storage changes in the loop at line %s' % line)
                new[key] = v
        if not new:
            break
        for key, v in new.items():
            mod[key] = t.fresh('it_' + str(key[0][-1]) + key[1], v.sort)
            if key not in st.st:
                if key not in ex.init: TL('loop writes an unknown location')
    else:
        TL('no fixed set of modified locations, line %s' % line)
    if end is None and not o.brk and not o.ret and not o.thr:
        TL('loop body never ends normally, line %s' % line)
    x0 = {key: (st.st[key] if key in st.st else ex.init[key]) for key in mod}
    syms = {sym: key for key, sym in mod.items()}
    sk = skolem(fmark, k, syms)
    # per-iteration conditions, relative to the path condition at the loop
    def rel(x):
        n = 0
        while n < len(x.pc) and n < len(base_pc) and x.pc[n] is base_pc[n]: n += 1
        return sk(t.and_(*[p for p in x.pc[n:]]))
    body_obls = ex.obls[no:]
    body_as = ex.assumes[na:]
    del ex.obls[no:]; del ex.assumes[na:]
    F = {}
    for key, sym in mod.items():
        if end is None: F[key] = sym
        else:
            v = end.st.get(key)
            F[key] = sk(v) if v is not None else sym
    cont_c = rel(end) if end is not None else t.FALSE
    c = sk(c)
    # the end-of-iteration value is only relevant under cont_c: simplify ites decided by it
    solved = {}          # sym -> term in k
    todo = dict(F)
    progress = True
    simp = simplifier(cont_c, k, c)
    todo = {key: simp(v) for key, v in todo.items()}
    # a variable that every iteration finds at its initial value (the loop goes on only while it has that value): what it is
    # at the start of iteration k is what the iteration before made of that value. Holds up to the first iteration that leaves.
    marks, pre = {}, {}
    for key, sym in mod.items():        # counters
        if sym.sort == INT and [z for z in t.fv(todo[key]) if z in syms] == [sym]:
            g = additive(todo[key], sym)
            if g is not None and g.op == 'c': pre[sym] = solve(ex, sym, todo[key], x0[key], k)
    cont_p = t.subst(cont_c, pre)
    for y in (cont_p.args if cont_p.op == 'and' else (cont_p,)):
        for key, sym in mod.items():
            v = x0[key]
            if v.op == 'c' and v.sort == sym.sort and (y is t.eq(sym, v) if v.sort in (INT, REAL) else v.sort == BOOL and y is (sym if v is t.TRUE else t.not_(sym))): marks[sym] = v
            elif v.op == 'c' and v.sort == sym.sort and v.sort in (INT, REAL) and not k in t.fv(y) and [z for z in t.fv(y) if z in syms] == [sym] and t.subst(y, {sym: v}) is t.TRUE:
                # every value written ends the loop
                same, w = keeps(t.subst(todo[key], pre), sym)
                if w is not None and simplifier(t.le(t.I(0), k), k, t.TRUE)(t.subst(y, {sym: w})) is t.FALSE: marks[sym] = v
    if marks:
        todo = {key: simp(t.subst(v, marks)) for key, v in todo.items()}
        r = marked(ex, k, mod, {key: v if mod[key] in pre else t.subst(v, pre) for key, v in todo.items()}, x0, marks, t.subst(cont_p, marks), t.subst(t.subst(c, pre), marks), syms)
        if r is not None: solved, todo = r, {}
    while todo and progress:
        progress = False
        for key in list(todo):
            sym = mod[key]
            f = t.subst(todo[key], {sy: solved[sy] for sy in solved})
            deps = [z for z in t.fv(f) if z in syms and z is not sym and z not in solved]
            if deps:
                continue
            r = solve(ex, sym, f, x0[key], k)
            if r is not None:
                solved[sym] = r
                del todo[key]
                progress = True
    if todo:
        # mutually recursive or unsolved: one recursively defined function per location
        fs = {}
        for key in todo:
            sym = mod[key]
            if isinstance(sym.sort, tuple):
                pass
            nm = 'rec_%s!%d' % (str(key[0][-1]) + key[1], next(t._fresh))
            fs[key] = nm
            solved[sym] = None
        for key, nm in fs.items():
            sym = mod[key]
            solved[sym] = t.app(nm, (k,), sym.sort)
        for key, nm in fs.items():
            sym = mod[key]
            f = t.subst(todo[key], solved)
            ex.recfuncs[nm] = (k, x0[key], f)
            ex.assumes.append(t.eq(t.app(nm, (t.I(0),), sym.sort), x0[key]))
            kk = t.fresh('k', INT)
            ex.assumes.append(t.forall([kk], t.implies(t.le(t.I(0), kk),
                              t.eq(t.app(nm, (t.add(kk, t.I(1)),), sym.sort), t.subst(f, {k: kk})))))
    m = dict(solved)
    S = lambda x: t.subst(sk(x), m)
    c_k = S(c)
    # ---- trip count
    N = tripcount(c_k, k)
    K = None
    exits_cond = None
    early = []
    for x in o.brk: early.append(('brk', x, None))
    for x, v in o.ret: early.append(('ret', x, v))
    for x in o.thr: early.append(('thr', x, None))
    out = Out(None)
    after = st.clone()
    facts = []
    if N is not None and not early:
        K = N
        # what is known about values met during an iteration holds in all of them
        cc = S(cont_c)
        known = [z for z in (cc.args if cc.op == 'and' else (cc,)) if any(y.op == 'app' and isinstance(y.val, str) and y.val.startswith('sk') for y in t.subterms(z))]
        if known:
            j = t.fresh('j', INT)
            facts.append(t.forall([j], t.implies(t.and_(t.le(t.I(0), j), t.lt(j, K)), t.subst(t.and_(*known), {k: j}))))
    else:
        # the first iteration that leaves the loop is a function of the continuation condition and the trip count:
        # loops with the same ones leave in the same iteration
        kc = t.var('k!exit', INT)
        cache = ex.__dict__.setdefault('exit_index', {})
        ck = (N, t.subst(S(cont_c), {k: kc}))
        K = cache.get(ck)
        if K is None: K = cache[ck] = t.fresh('K', INT)
        if N is not None:
            facts.append(t.le(K, N))
        facts.append(t.le(t.I(0), K))
        j = t.fresh('j', INT)
        facts.append(t.forall([j], t.implies(t.and_(t.le(t.I(0), j), t.lt(j, K)), t.subst(S(cont_c), {k: j}))))
        facts.append(t.not_(t.subst(S(cont_c), {k: K})))
        if marks:
            j1 = t.add(j, t.I(1))
            facts.append(t.forall([j], t.implies(t.and_(t.le(t.I(0), j), t.lt(j1, K)), t.subst(S(cont_c), {k: j1}))))
        ex.notes.add('loops with early exits are assumed to terminate')
    # the summarised state at the start of iteration K
    for key, sym in mod.items():
        after.st[key] = t.subst(solved[sym], {k: K})
    for fct in facts:
        ex.assume_in(after, fct)
    # normal exit
    norm = after.clone()
    if K is not N:
        ex.assume_in(norm, t.not_(t.subst(c_k, {k: K})))
    # side effects of evaluating the condition are kept in pre_body: none expected
    nexits = [norm]
    for kind, x, v in early:
        e2 = after.clone()
        ec = t.subst(S(rel(x)), {k: K})
        ex.assume_in(e2, ec)
        for key, val in x.st.items():
            if key in mod or key not in st.st:
                if isinstance(val, Ptr): e2.st[key] = val
                else: e2.st[key] = t.subst(S(val), {k: K})
        if kind == 'brk': nexits.append(e2)
        elif kind == 'thr': out.thr.append(e2)
        else:
            from .symex import Val
            vv = v
            if v is not None and '^p' not in v.l:
                vv = Val(v.ty, {q: t.subst(S(z), {k: K}) for q, z in v.l.items()})
            elif v is not None:
                vv = Val(v.ty, {'^p': subst_ptr(v.l['^p'], lambda z: t.subst(S(z), {k: K}))})
            out.ret.append((e2, vv))
    nexits = [x for x in nexits if not ex.dead(x)]
    out.n = ex.mergeall(nexits)
    # obligations met inside the body, for a generic iteration
    from .symex import Obl
    hyp_k = [t.le(t.I(0), k), t.lt(k, K) if not early else t.le(k, K)]
    for ob in body_obls:
        ex.obls.append(Obl(ob.kind, ob.desc, ob.line, t.and_(*(hyp_k + facts + [S(ob.hyp)])), S(ob.goal), ob.func))
    for a in body_as:
        a2 = S(a)
        ex.assumes.append(t.forall([k], a2) if k in t.fv(a2) else a2)
    return out


def marked(ex, k, mod, F, x0, marks, cont_c, c, syms):
    """closed forms in a loop that goes on only while the marks have their initial values. An iteration followed by another one
    left them alone, which tells more about it (plain: the values up to the start of the last iteration); what the last
    iteration makes of these is its own step. Marks do not occur in F."""
    kept = t.and_(*[F[key] if marks[sym] is t.TRUE else t.not_(F[key]) if marks[sym] is t.FALSE else t.eq(F[key], marks[sym]) for key, sym in mod.items() if sym in marks])
    for key, sym in mod.items():        # a write of another value would have ended the loop
        if sym in marks and F[key].op == 'ite' and sym.sort == INT:
            g, a, b = F[key].args
            for g, a, b in ((g, a, b), (t.not_(g), b, a)):
                if b is not marks[sym]: continue
                d, z = t._lin(t.sub(a, marks[sym]))
                if z > 0 and all(x is k and w >= 0 for x, w in d.items()): kept = t.and_(kept, t.not_(g))
    simp = simplifier(t.and_(cont_c, kept), k, c)
    F2 = {key: simp(F[key]) for key, sym in mod.items() if sym not in marks}
    plain, left = dict(marks), dict(F2)
    while left:
        n = len(left)
        for key in list(left):
            sym = mod[key]
            f = t.subst(left[key], plain)
            if any(z in syms and z is not sym for z in t.fv(f)): continue
            r = solve(ex, sym, f, x0[key], k)
            if r is not None: plain[sym] = r; del left[key]
        if len(left) == n: return None
    same = {mod[key] for key in F2 if F2[key] is F[key]}
    more = True
    while more:
        more = False
        for key, sym in mod.items():
            if sym in same and any(z in syms and z not in marks and z not in same for z in t.fv(F[key])): same.discard(sym); more = True
    out = {}
    for key, sym in mod.items():
        if sym in same: out[sym] = plain[sym]
        else: out[sym] = t.ite(t.le(k, t.I(0)), x0[key], t.subst(t.subst(F[key], plain), {k: t.sub(k, t.I(1))}))
    return out


def skolem(mark, k, syms):
    """values introduced by the body (results of calls, summaries of inner loops) differ from iteration to
    iteration: each becomes a function of the iteration"""
    pre = 'sk%d_' % mark
    def new(nm):
        i = nm.rfind('!')
        return i >= 0 and nm[i + 1:].isdigit() and int(nm[i + 1:]) >= mark and not nm.startswith(pre)
    def g(x):
        vs = {v for v in t.fv(x) if v is not k and v not in syms and new(v.val)}
        if not vs and not any(y.op == 'app' and new(y.val) for y in t.subterms(x)):
            return x
        def f(y):
            if y in vs: return t.app(pre + y.val, (k,), y.sort)
            if y.op == 'app' and new(y.val): return t.app(pre + y.val, y.args + (k,), y.sort)
            return None
        return t.rewrite(x, f)
    return g


def keeps(f, sym):
    """condition under which f is sym, when f either keeps sym or takes a value free of it; (None, None) otherwise"""
    if f is sym: return t.TRUE, None
    if sym not in t.fv(f): return t.FALSE, f
    if f.op == 'ite' and sym not in t.fv(f.args[0]):
        a, va = keeps(f.args[1], sym)
        b, vb = keeps(f.args[2], sym)
        if a is None or b is None: return None, None
        c = f.args[0]
        v = vb if va is None else va if vb is None else t.ite(c, va, vb)
        return t.or_(t.and_(c, a), t.and_(t.not_(c), b)), v
    return None, None


def last_writer(ex, sym, f, x0, k):
    """x(k) = value written by the last iteration before k that writes, x0 if none does"""
    same, v = keeps(f, sym)
    if same is None or v is None: return None
    if k not in t.fv(v):
        j = t.fresh('j', INT)
        return t.ite(t.exists([j], t.and_(t.le(t.I(0), j), t.lt(j, k), t.subst(t.not_(same), {k: j}))), v, x0)
    x = lambda n: t.app(nm, (n,), sym.sort)
    nm = 'last_%d_!%d' % (k.id, next(t._fresh))
    n, m, j = t.fresh('n', INT), t.fresh('m', INT), t.fresh('j', INT)
    w = t.not_(same)
    at = lambda e, i: t.subst(e, {k: i})
    le0 = t.le(t.I(0), n)
    kept = lambda lo, hi: t.forall([j], t.implies(t.and_(t.le(lo, j), t.lt(j, hi)), at(same, j)))
    ex.assumes.append(t.forall([n], t.implies(t.and_(le0, kept(t.I(0), n)), t.eq(x(n), x0))))
    ex.assumes.append(t.forall([n, m], t.implies(t.and_(t.le(t.I(0), m), t.lt(m, n), at(w, m), kept(t.add(m, t.I(1)), n)),
                                                 t.eq(x(n), at(v, m)))))
    ex.recfuncs[nm] = (k, x0, f)
    return x(k)


def subst_ptr(p, f):
    from .symex import Ptr, Loc, Obj
    out = []
    for g, l, o in p.alts:
        if isinstance(l, Obj): l = Obj(f(l.ref), l.ty)
        else: l = Loc(l.root, tuple(f(i) for i in l.idx), l.path, l.ty)
        out.append((f(g), l, f(o) if o is not None else None))
    return Ptr(out)


def simplifier(cc, k, c):
    known = set()
    def add(x):
        if x.op == 'and':
            for a in x.args: add(a)
        else: known.add(x)
    add(cc); add(c)
    more = True
    while more:         # a disjunction with all but one member excluded says that one
        more = False
        for x in list(known):
            if x.op != 'or': continue
            rest = [y for y in x.args if t.not_(y) not in known]
            if len(rest) == 1 and rest[0] not in known: add(rest[0]); more = True
    def f(x):
        return t.rewrite(x, lambda y: (t.TRUE if y in known else t.FALSE if t.not_(y) in known else None) if y.sort == BOOL and y.op not in ('c',) else None)
    return f


def solve(ex, sym, f, x0, k):
    """x(0)=x0, x(k+1)=f(x(k),k): closed form in k or None"""
    if f is sym:
        return x0
    if sym not in t.fv(f):
        # last value
        f = fold(f, k)
        km1 = t.sub(k, t.I(1))
        return t.ite(t.le(k, t.I(0)), x0, t.subst(f, {k: km1}))
    if sym.sort in (INT, REAL):
        g = additive(f, sym)
        if g is not None:
            if k not in t.fv(g):
                return t.add(x0, t.mul(g, k if sym.sort == INT else t.to_real(k)))
            j = t.fresh('j', INT)
            return t.add(x0, t.bsum(j, t.subst(g, {k: j}), t.I(0), k))
        return last_writer(ex, sym, f, x0, k)
    if sym.sort == BOOL:
        # f = x or c(k) / x and c(k)
        a = t.subst(f, {sym: t.TRUE}); b = t.subst(f, {sym: t.FALSE})
        j = t.fresh('j', INT)
        rng = t.and_(t.le(t.I(0), j), t.lt(j, k))
        if a is t.TRUE:
            return t.or_(x0, t.exists([j], t.and_(rng, t.subst(b, {k: j}))))
        if b is t.FALSE:
            return t.and_(x0, t.forall([j], t.implies(rng, t.subst(a, {k: j}))))
        return None
    if isinstance(sym.sort, tuple) and sym.sort[0] == 'Arr':
        return solve_arr(ex, sym, f, x0, k)
    return last_writer(ex, sym, f, x0, k)


def fold(f, k):
    """sum_{j<k} g(j) + g(k) written as sum_{j<k+1} g(j)"""
    if f.sort not in (INT, REAL): return f
    d, c = t._lin(f)
    for b, w in list(d.items()):
        if b.op != 'sum': continue
        j, body, lo, hi = b.args
        if hi is not k: continue
        d2, c2 = t._lin(t.subst(body, {j: k}))
        if c2 == 0 and all(d.get(x) == w * y for x, y in d2.items()):
            dd = {x: y for x, y in d.items() if x not in d2 and x is not b}
            dd[t.bsum(j, body, lo, t.add(k, t.I(1)))] = w
            return fold(t._unlin(dd, c, f.sort), k)
    return f


def additive(f, sym):
    """g with f = sym + g, g free of sym (ites on sym-free conditions allowed)"""
    if f is sym:
        return t._cst(0, sym.sort)
    if f.op == '+':
        d, c = t._lin(f)
        if d.get(sym) == 1 and not any(sym in t.fv(z) for z in d if z is not sym):
            dd = dict(d); del dd[sym]
            return t._unlin(dd, c, sym.sort)
        # exactly one term contains sym
        w = [z for z in d if sym in t.fv(z)]
        if len(w) == 1 and d[w[0]] == 1:
            g = additive(w[0], sym)
            if g is None: return None
            dd = dict(d); del dd[w[0]]
            return t.add(g, t._unlin(dd, c, sym.sort))
        return None
    if f.op == 'ite' and sym not in t.fv(f.args[0]):
        a, b = additive(f.args[1], sym), additive(f.args[2], sym)
        if a is None or b is None: return None
        return t.ite(f.args[0], a, b)
    return None


def stores(f, sym):
    """f as a list of guarded writes to sym: [(guard, idx, val)] in order of execution, or None"""
    if f is sym:
        return []
    if f.op == 'store':
        w = stores(f.args[0], sym)
        if w is None: return None
        return w + [(t.TRUE, f.args[1], f.args[2])]
    if f.op == 'ite':
        a, b = stores(f.args[1], sym), stores(f.args[2], sym)
        if a is None or b is None or sym in t.fv(f.args[0]): return None
        c = f.args[0]
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]: n += 1
        return a[:n] + [(t.and_(c, g), i, v) for g, i, v in a[n:]] + [(t.and_(t.not_(c), g), i, v) for g, i, v in b[n:]]
    return None


def affine(i, k):
    """i = a + s*k with integer constant s: (a, s) or None"""
    d, c = t._lin(i)
    s = d.get(k, 0)
    dd = dict(d); dd.pop(k, None)
    if any(k in t.fv(z) for z in dd): return None
    return t._unlin(dd, c, INT), s


def own_cell(ex, sym, f, x0, k):
    """an iteration changes nothing but its own cell i = a + s*k, s in {1, -1}, and reads no other cell of the array"""
    if sym.sort[1] != INT: return None
    idx = set()
    def base(x):
        if x is sym: return True
        if x.op == 'store': idx.add(x.args[1]); return base(x.args[0])
        if x.op == 'ite': return base(x.args[1]) and base(x.args[2])
        return False
    if not base(f) or len(idx) != 1: return None
    i = idx.pop()
    if sym in t.fv(i): return None
    a = affine(i, k)
    own = t.fresh('own', sym.sort[2])
    if a is None and i.op == 'select' and i.args[0] in ex.distinct:
        # the cell of the object that a list of distinct objects holds at place p = a + s*k
        a = affine(i.args[1], k)
        if a is None or a[1] not in (1, -1): return None
        fe = replace(t.select(f, i), t.select(sym, i), own)
        if sym in t.fv(fe): return None
        j = t.fresh('i', INT)
        p = t.app(t.inverse(i.args[0]), (j,), INT)
        q = t.sub(p, a[0]) if a[1] == 1 else t.sub(a[0], p)
        cell = t.select(x0, j)
        return t.lam(j, t.ite(t.and_(t.eq(t.select(i.args[0], p), j), t.le(t.I(0), q), t.lt(q, k)), t.subst(fe, {k: q, own: cell}), cell))
    if a is None or a[1] not in (1, -1): return None
    fe = replace(t.select(f, i), t.select(sym, i), own)
    if sym in t.fv(fe): return None
    j = t.fresh('i', INT)
    q = t.sub(j, a[0]) if a[1] == 1 else t.sub(a[0], j)
    cell = t.select(x0, j)
    return t.lam(j, t.ite(t.and_(t.le(t.I(0), q), t.lt(q, k)), t.subst(fe, {k: q, own: cell}), cell))


def cell(f, c):
    """f[c], with the writes of f made explicit"""
    if f.op == 'store': return t.ite(t.eq(f.args[1], c), f.args[2], cell(f.args[0], c))
    if f.op == 'ite': return t.ite(f.args[0], cell(f.args[1], c), cell(f.args[2], c))
    return t.select(f, c)


def scatter(ex, sym, f, x0, k):
    """every iteration keeps a cell or gives it a value that depends on the cell only:
    a cell has that value once one of the iterations has written it"""
    if sym.sort[1] not in (INT,): return None
    c = t.fresh('c', INT)
    own = t.fresh('own', sym.sort[2])
    fe = replace(cell(f, c), t.select(sym, c), own)
    if sym in t.fv(fe): return None
    same, v = keeps(fe, own)
    if sym.sort[2] == BOOL and (same is None or v is None):
        a, b = t.subst(fe, {own: t.TRUE}), t.subst(fe, {own: t.FALSE})
        if b is t.FALSE: same, v = a, t.FALSE
        elif a is t.TRUE: same, v = t.not_(b), t.TRUE
    if same is None or v is None or k in t.fv(v) or own in t.fv(v): return None
    n, m = t.fresh('n', INT), t.fresh('m', INT)
    nm = 'hit_%d_!%d' % (k.id, next(t._fresh))
    hit = lambda n: t.app(nm, (n, c), BOOL)
    wit = t.app(nm.replace('hit_', 'wit_'), (n, c), INT)
    w = lambda i: t.subst(t.not_(same), {k: i})
    ex.assumes.append(t.forall([n, m, c], t.implies(t.and_(t.le(t.I(0), m), t.lt(m, n), w(m)), hit(n))))
    ex.assumes.append(t.forall([n, c], t.implies(hit(n), t.and_(t.le(t.I(0), wit), t.lt(wit, n), w(wit)))))
    return t.lam(c, t.ite(hit(k), v, t.select(x0, c)))


def append(ex, sym, f, x0, k):
    """some iterations write one cell at the position a counter has reached, and every one of them advances the counter:
    the cells below the counter's start are kept, and each written value stays where it was written"""
    if sym.sort[1] != INT: return None
    ws = stores(f, sym)
    if not ws: return None
    sm, offs = None, []
    for g, i, v in ws:
        if sym in t.fv(i) or sym in t.fv(g) or sym in t.fv(v): return None
        d, c = t._lin(i)
        sums = [(b, w) for b, w in d.items() if b.op == 'sum' and b.args[3] is k]
        if len(sums) != 1 or sums[0][1] != 1 or sums[0][0].args[2] is not t.I(0): return None
        if sm is not None and sums[0][0] is not sm: return None
        sm = sums[0][0]
        dd = dict(d); del dd[sm]
        if any(k in t.fv(z) for z in dd): return None
        offs.append(t._unlin(dd, c, INT))
    n0 = offs[0]
    dist = [t.sub(o, n0) for o in offs]
    if any(z.op != 'c' for z in dist): return None
    dist = [z.val for z in dist]
    if min(dist) != 0 or len(set(dist)) != len(dist): return None     # the first one comes first, no place is written twice
    h = t.subst(sm.args[1], {sm.args[0]: k})
    def consts(x):
        if x.op == 'ite': return consts(x.args[1]) and consts(x.args[2])
        return x.op == 'c' and x.val >= 0
    if not consts(h): return None
    for (g, i, v), z in zip(ws, dist):
        hg = simplifier(g, k, t.TRUE)(h)
        if hg.op != 'c' or hg.val < z + 1: return None
    n, j, e = t.fresh('n', INT), t.fresh('j', INT), t.fresh('c', INT)
    nm = 'app_%d_!%d' % (k.id, next(t._fresh))
    A = lambda n: t.app(nm, (n,), sym.sort)
    at = lambda x, z: t.subst(x, {k: z})
    ex.assumes.append(t.forall([n, e], t.implies(t.lt(e, n0), t.eq(t.select(A(n), e), t.select(x0, e)))))
    for g, i, v in ws:
        ex.assumes.append(t.forall([n, j], t.implies(t.and_(t.le(t.I(0), j), t.lt(j, n), at(g, j)), t.eq(t.select(A(n), at(i, j)), at(v, j)))))
    return A(k)


def solve_arr(ex, sym, f, x0, k):
    for rule in (own_cell, solve_arr1, one_place, append, scatter):
        r = rule(ex, sym, f, x0, k)
        if r is not None: return r
    return None


def one_place(ex, sym, f, x0, k):
    """every write goes to the same place, and only that place is read: solve for its content"""
    idx = set()
    def base(x):
        if x is sym: return True
        if x.op == 'store': idx.add(x.args[1]); return base(x.args[0])
        if x.op == 'ite': return base(x.args[1]) and base(x.args[2])
        return False
    if not base(f) or len(idx) != 1: return None
    i = idx.pop()
    if sym in t.fv(i) or k in t.fv(i): return None
    el = t.select(sym, i)
    esym = t.fresh('el', el.sort)
    fe = replace(cell(f, i), el, esym)
    if sym in t.fv(fe): return None
    r = solve(ex, esym, fe, t.select(x0, i), k)
    return None if r is None else t.store(x0, i, r)


def solve_arr1(ex, sym, f, x0, k):
    ws = stores(f, sym)
    if ws is None or not ws:
        return None
    # (a) all writes at the same k-independent index: solve for the element
    idxs = {i for _, i, _ in ws}
    inv = [i for i in idxs if k not in t.fv(i) and sym not in t.fv(i)]
    if len(idxs) == 1 and len(inv) == 1:
        r = inv[0]
        el = t.select(sym, r)
        esym = t.fresh('el', el.sort)
        fe = t.select(f, r)
        fe = replace(fe, el, esym)
        if sym in t.fv(fe): return None
        s2 = solve(ex, esym, fe, t.select(x0, r), k)
        if s2 is None: return None
        return t.store(x0, r, s2)
    if sym.sort[1] != INT:
        return None
    # (b) affine writes, values not reading sym except at their own index
    af = []
    for g, i, v in ws:
        if sym in t.fv(i) or sym in t.fv(g): return None
        a = affine(i, k)
        if a is None or a[1] == 0: return None
        af.append((g, a[0], a[1], v, i))
    strides = {a[2] for a in af}
    if len(strides) != 1: return None
    s = strides.pop()
    if s < 0: return None
    # distinct residues/offsets so that no two (iteration, write) pairs hit the same cell
    offs = [a[1] for a in af]
    d0 = [t.sub(o, offs[0]) for o in offs]
    if any(d.op != 'c' for d in d0): return None
    dv = [d.val for d in d0]
    lo = min(dv)
    groups = {}
    for (g, a, st_, v, i), d in zip(af, dv):
        groups.setdefault(d, []).append((g, v, i))
    if max(dv) - lo >= s: return None
    a0 = offs[dv.index(lo)]
    j = t.fresh('i', INT)
    body = t.select(x0, j)
    for d, lst in groups.items():
        # iteration that writes cell j:  j = a0 + (d-lo) + s*q
        num = t.sub(j, t.add(a0, t.I(d - lo)))
        if s == 1: q = num; okc = t.TRUE
        else: q = t.mk('fdiv', (num, t.I(s)), INT) if False else None
        if s != 1:
            q = t.app('ediv', (num, t.I(s)), INT); okc = t.eq(t.mul(t.I(s), q), num)
        val = t.select(x0, j)
        cell = t.select(x0, j)
        cur = cell
        for g, v, i in lst:
            v2 = replace(v, t.select(sym, i), None) if False else v
            if sym in t.fv(v2):
                # a read of the cell's own old value
                v2 = replace(v2, t.select(sym, i), t.var('@own', v2.sort))
                if sym in t.fv(v2): return None
                v2 = t.subst(t.subst(v2, {k: q}), {t.var('@own', v2.sort): cur})
            else:
                v2 = t.subst(v2, {k: q})
            cur = t.ite(t.subst(g, {k: q}), v2, cur)
        body = t.ite(t.and_(okc, t.le(t.I(0), q), t.lt(q, k)), cur, body)
    return t.lam(j, body)


def replace(x, old, new):
    return t.rewrite(x, lambda y: new if y is old else None)


def tripcount(c, k):
    """number of iterations when the loop condition is a linear bound on k, else None"""
    if c.op == '<':
        a, b = c.args
    elif c.op == '<=':
        a, b = c.args
        b = t.add(b, t.I(1)) if b.sort == INT else None
        if b is None: return None
    elif c.op == 'not' and c.args[0].op == '=' and c.args[0].args[0].sort == INT:
        a, b = c.args[0].args
        d = t.sub(b, a)
        af = affine(d, k)
        if af is None: return None
        off, s = af
        if s == -1: return t.ite(t.le(t.I(0), off), off, t.I(0)) if False else off
        if s == 1: return t.neg(off)
        return None
    else:
        return None
    if a.sort != INT: return None
    af = affine(t.sub(b, a), k)      # b - a > 0
    if af is None: return None
    off, s = af
    if s >= 0: return None
    if s == -1: n = off
    else: n = t.app('ediv', (t.add(off, t.I(-s - 1)), t.I(-s)), INT)
    return t.ite(t.lt(t.I(0), n), n, t.I(0))
