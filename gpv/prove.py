"""Discharging obligations.  Back ends: (1) exact polynomial/rational identity (own normaliser over Q with trig relations),
(2) z3, (3) cvc5 (SMT-LIB through the command line, second opinion on z3 `unknown`)."""
import time, random, subprocess, os, tempfile
import z3
from . import terms as t
from .terms import INT, REAL, BOOL, STR, T


class Conv:
    def __init__(self):
        self.memo = {}
        self.sums = {}
        self.keep = []

    def facts(self):
        """what the solver has to know about the constants that occur"""
        if t.PI not in self.memo: return []
        p = self.memo[t.PI]
        return [p > z3.Q(314159, 100000), p < z3.Q(314160, 100000)]

    def sort(self, s):
        if s == INT: return z3.IntSort()
        if s == REAL: return z3.RealSort()
        if s == BOOL: return z3.BoolSort()
        if s == STR: return z3.StringSort()
        if s[0] == 'Arr': return z3.ArraySort(self.sort(s[1]), self.sort(s[2]))
        raise ValueError(s)

    def __call__(self, x):
        st = [x]
        memo = self.memo
        while st:
            y = st[-1]
            if y in memo:
                st.pop(); continue
            if y.op == 'sum':
                # a function of the range and of the scalars the summand mentions (some of them may be bound further out)
                key, A = sumkey(y)
                todo = [a for a in A if a not in memo]
                if todo:
                    st.extend(todo); continue
                A = [memo[a] for a in A]
                memo[y] = z3.Function('sum!%d' % key.id, *([a.sort() for a in A] + [self.sort(y.sort)]))(*A); self.sums[y] = memo[y]
                st.pop(); continue
            todo = [a for a in y.args if a not in memo]
            if todo:
                st.extend(todo); continue
            memo[y] = self.one(y, [memo[a] for a in y.args])
            st.pop()
        return memo[x]

    def one(self, y, A):
        op = y.op
        if op == 'c':
            if y.sort == INT: return z3.IntVal(y.val)
            if y.sort == REAL: return z3.Q(y.val.numerator, y.val.denominator)
            if y.sort == BOOL: return z3.BoolVal(y.val)
            return z3.StringVal(y.val)
        if op == 'v': return z3.Const(y.val, self.sort(y.sort))
        if op == '+': return z3.Sum(A) if len(A) > 1 else A[0]
        if op == '*': return z3.Product(A)
        if op == '/': return A[0] / A[1]
        if op == 'tdiv':
            a, b = A
            return z3.If((a >= 0) == (b > 0), z3.If(a >= 0, a, -a) / z3.If(b > 0, b, -b), -(z3.If(a >= 0, a, -a) / z3.If(b > 0, b, -b)))
        if op == 'tmod':
            a, b = A
            q = z3.If((a >= 0) == (b > 0), z3.If(a >= 0, a, -a) / z3.If(b > 0, b, -b), -(z3.If(a >= 0, a, -a) / z3.If(b > 0, b, -b)))
            return a - b * q
        if op == 'to_real': return z3.ToReal(A[0])
        if op == 'floor': return z3.ToInt(A[0])
        if op == 'not': return z3.Not(A[0])
        if op == 'and': return z3.And(A)
        if op == 'or': return z3.Or(A)
        if op == '<': return A[0] < A[1]
        if op == '<=': return A[0] <= A[1]
        if op == '=': return A[0] == A[1]
        if op == 'ite': return z3.If(A[0], A[1], A[2])
        if op == 'select': return z3.Select(A[0], A[1])
        if op == 'store': return z3.Store(A[0], A[1], A[2])
        if op == 'constarr': return z3.K(self.sort(y.sort[1]), A[0])
        if op == 'lam': return z3.Lambda([A[0]], A[1])
        if op == 'forall': return z3.ForAll(A[:-1], A[-1])
        if op == 'exists': return z3.Exists(A[:-1], A[-1])
        if op == 'app':
            if y.val == 'cat': return z3.Concat(*A)
            if y.val == 'itos': return z3.If(A[0] >= 0, z3.IntToStr(A[0]), z3.Concat(z3.StringVal('-'), z3.IntToStr(-A[0])))
            if y.val == 'strlen': return z3.Length(A[0])
            if y.val == 'ediv': return A[0] / A[1]
            f = z3.Function(y.val, *([a.sort() for a in A] + [self.sort(y.sort)]))
            return f(*A)
        raise ValueError(op)


def relevant(hyps, goal):
    """without the facts on summaries of loops the goal does not mention"""
    def defs(x): return {y.val for y in t.subterms(x) if y.op == 'app' and isinstance(y.val, str) and '!' in y.val}
    d = defs(goal)
    return [h for h in hyps if defs(h) <= d]


_sk = {}


def sumkey(y):
    """sum(bv, body, lo, hi) -> (closed summand, [lo, hi, scalars it depends on])"""
    if y in _sk: return _sk[y]
    bv, body, lo, hi = y.args
    vs = [v for v in dict.fromkeys(z for z in t.subterms(body) if z.op == 'v') if v is not bv and v in t.fv(body) and v.sort in (INT, REAL, BOOL, STR)]
    vs.sort(key=lambda v: v.val)
    h = {bv: t.var('sv!i', INT)}
    for n, v in enumerate(vs): h[v] = t.var('sv!%d%s' % (n, v.sort), v.sort)
    _sk[y] = (t.subst(body, h), [lo, hi] + vs)
    return _sk[y]


def unify_summands(z3check, fs, ctx=()):
    """rewrite summands that are equal for all values of their variables (under the facts of ctx) to one of them"""
    sums = {}
    for f in fs:
        for y in t.subterms(f):
            if y.op == 'sum': sums[y] = sumkey(y)
    reps, rep = [], {}
    for y in sorted(sums, key=lambda z: z.id):
        k, A = sums[y]
        for k0, A0 in reps:
            if k0 is k: rep[y] = k; break
            if k0.sort == k.sort and [a.sort for a in A0] == [a.sort for a in A] and z3check([], t.ne(k0, k), 1000)[0] == 'unsat':
                rep[y] = k0; break
            if ctx and k0.sort == k.sort and [a.sort for a in A0] == [a.sort for a in A]:
                own = set(t.fv(k0)) | set(t.fv(k))
                for _ in range(2): own |= {v for h in ctx if set(t.fv(h)) & own for v in t.fv(h)}
                if z3check([h for h in ctx if set(t.fv(h)) & own], t.ne(k0, k), 1000)[0] == 'unsat': rep[y] = k0; break
        else: reps.append((k, A)); rep[y] = k
    if all(rep[y] is sums[y][0] for y in rep): return fs
    def f(y):
        if y in rep and rep[y] is not sums[y][0]:
            i = t.fresh('i', INT)
            A = sums[y][1]
            h = {t.var('sv!i', INT): i}
            for n, v in enumerate(A[2:]): h[t.var('sv!%d%s' % (n, v.sort), v.sort)] = v
            return t.bsum(i, t.subst(rep[y], h), A[0], A[1])
        return None
    return [t.rewrite(z, f) for z in fs]


def count_facts(fs):
    """what is known of the sums that count something (summands 0 or positive constants)"""
    bound, sums = set(), {}
    for f in fs:
        for y in t.subterms(f):
            if y.op in ('forall', 'exists', 'lam', 'sum'): bound.add(y.args[0]); bound.update(a for a in y.args[:-1] if a.op == 'v' and y.op != 'sum')
            if y.op == 'sum' and y.sort == INT: sums[y] = 1
    def consts(x): return consts(x.args[1]) and consts(x.args[2]) if x.op == 'ite' else x.op == 'c' and x.val >= 0
    out = []
    for y in sums:
        bv, body, lo, hi = y.args
        if not consts(body) or any(v in bound for v in t.fv(y)): continue
        i = t.fresh('i', INT)
        out.append(t.le(t.I(0), y))
        out.append(t.or_(t.ne(y, t.I(0)), t.forall([i], t.implies(t.and_(t.le(lo, i), t.lt(i, hi)), t.eq(t.subst(body, {bv: i}), t.I(0))))))
    return out


def has(x, ops):
    return any(y.op in ops for y in t.subterms(x))


def norm_sums(x):
    """distribute sums over +, constant factors and guarded ites, so that equal sums have equal normal forms"""
    def f(y):
        if y.op != 'sum': return None
        bv, b, lo, hi = y.args
        return dist(bv, b, lo, hi)
    return t.rewrite(x, f)


def dist(bv, b, lo, hi, guard=t.TRUE):
    if b.op == '+':
        return t.add(*[dist(bv, a, lo, hi, guard) for a in b.args])
    if b.op == '*':
        out = [a for a in b.args if bv not in t.fv(a)]
        inn = [a for a in b.args if bv in t.fv(a)]
        if out and inn:
            return t.mul(*(out + [dist(bv, t.mul(*inn), lo, hi, guard)]))
        for i, a in enumerate(b.args):
            if a.op == 'ite' and is0(a.args[2]):
                rest = [z for j, z in enumerate(b.args) if j != i]
                return dist(bv, t.mul(*([a.args[1]] + rest)), lo, hi, t.and_(guard, a.args[0]))
            if a.op == 'ite' and is0(a.args[1]):
                rest = [z for j, z in enumerate(b.args) if j != i]
                return dist(bv, t.mul(*([a.args[2]] + rest)), lo, hi, t.and_(guard, t.not_(a.args[0])))
    if b.op == 'ite':
        if is0(b.args[2]): return dist(bv, b.args[1], lo, hi, t.and_(guard, b.args[0]))
        if is0(b.args[1]): return dist(bv, b.args[2], lo, hi, t.and_(guard, t.not_(b.args[0])))
        return t.add(dist(bv, b.args[1], lo, hi, t.and_(guard, b.args[0])), dist(bv, b.args[2], lo, hi, t.and_(guard, t.not_(b.args[0]))))
    return t.bsum(bv, t.ite(guard, b, t._cst(0, b.sort)), lo, hi)


def is0(x): return x.op == 'c' and x.val == 0


class Result:
    def __init__(self, name, status, how, secs, detail='', func='', model=None):
        self.name, self.status, self.how, self.secs, self.detail, self.func, self.model = name, status, how, secs, detail, func, model


class Prover:
    def __init__(self, timeout=20000, seed=1):
        self.timeout = timeout
        self.results = []
        self.rng = random.Random(seed)
        self.assumptions = set()
        self.z3time = 0.0
        self.queries = 0

    # ---- low level ---------------------------------------------------------------------------------------
    def z3check(self, hyps, neg, timeout=None):
        """is hyps & neg unsat? -> 'unsat' | ('sat', model, conv) | 'unknown'"""
        c = Conv()
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.set('random_seed', 1)
        t0 = time.time()
        for h in hyps:
            s.add(c(h))
        s.add(c(neg))
        for f in c.facts(): s.add(f)
        r = s.check()
        self.z3time += time.time() - t0
        self.queries += 1
        if r == z3.unsat: return 'unsat', None, c
        if r == z3.sat: return 'sat', s.model(), c
        self.lastsolver = s
        return 'unknown', None, c

    def cvc5check(self, hyps, neg, timeout=20):
        c = Conv()
        s = z3.Solver()
        for h in hyps: s.add(c(h))
        s.add(c(neg))
        for f in c.facts(): s.add(f)
        txt = s.to_smt2()
        if 'lambda' in txt or 'as-array' in txt: return 'unknown'
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), '--nl-ext-tplanes', f.name], capture_output=True, text=True, timeout=timeout + 10)
            return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            os.unlink(f.name)

    def feasible(self, hyps, timeout=3000):
        """quick satisfiability of a path condition: returns False only when proved infeasible"""
        hyps = [h for h in hyps if h is not t.TRUE]
        if t.FALSE in hyps: return False
        s = set(hyps)
        if any(t.not_(h) in s for h in hyps): return False
        hs = [h for h in hyps if not has(h, ('forall', 'exists', 'lam'))]
        hs += self.trig(hs)
        r, _, _ = self.z3check(hs, t.TRUE, timeout)
        return r != 'unsat'

    def trig(self, hs):
        """sin^2+cos^2 = 1 for the angles that occur"""
        sn, cs = set(), set()
        for h in hs:
            for y in t.subterms(h):
                if y.op == 'app' and y.val == 'sin': sn.add(y.args[0])
                elif y.op == 'app' and y.val == 'cos': cs.add(y.args[0])
        return [t.eq(t.sin(a) * t.sin(a) + t.cos(a) * t.cos(a), t.R(1)) for a in sorted(sn & cs, key=lambda x: x.id)]

    def entails(self, hyps, goal, timeout=5000):
        if goal is t.TRUE or goal in hyps: return True
        if goal is t.FALSE and t.FALSE in hyps: return True
        r, _, _ = self.z3check(hyps, t.not_(goal), timeout)
        return r == 'unsat'

    # ---- equalities over the reals --------------------------------------------------------------------------
    def real_eq(self, hyps, a, b, budget=4000):
        """prove a == b over the reals under hyps by case analysis on the conditions occurring in a, b and exact
        rational identity in each case; returns ('proved',ncases) or ('failed', case hyps, a', b')"""
        self.cases = 0
        eqs = self.orient(hyps)
        d = t.sub(norm_sums(a), norm_sums(b))
        hyps = list(hyps)
        pts = self.points(hyps, d)
        if pts:
            extra = [i for k in pts for i in self.instances(hyps, k) if i is not t.TRUE]
            known = set(hyps)
            hyps = hyps + [x for x in self.flat(extra) if x not in known]
            d = self.intunify(hyps, d, pts)
        return self._req(hyps, d, budget, eqs)

    def points(self, hyps, d):
        """index terms at which quantified hypotheses are instantiated"""
        if not any(h.op == 'forall' or (h.op == 'not' and h.args[0].op == 'exists') or (h.op == 'or' and has(h, ('forall',))) for h in hyps): return []
        out, near = [], []
        for x in [d] + hyps:
            bound = set()
            for y in t.subterms(x):
                if y.op in ('forall', 'exists', 'lam', 'sum'): bound.update(a for a in y.args if a.op == 'v')
            for y in t.subterms(x):
                if y.op != 'select' or y.args[1].sort != INT or y.args[1] in out: continue
                i = y.args[1]
                if i.op == '+' and len(i.args) == 2 and i.args[1].op == 'c': i = i.args[0]
                elif i.op == '+' and len(i.args) == 2 and i.args[0].op == 'c': i = i.args[1]
                if i.op == 'v' and i not in bound: (out if i is y.args[1] else near).append(y.args[1])
        return out[:6] + [i for n, i in enumerate(near) if i not in near[:n]][:3]

    def intunify(self, hy, d, pts):
        qf = [h for h in hy if not has(h, ('forall', 'exists', 'lam'))]
        rep = {}
        for i, a in enumerate(pts):
            for b in pts[:i]:
                if b in rep: continue
                if self.entails(qf, t.eq(a, b), 2000): rep[a] = b; break
        return t.rewrite(d, lambda y: rep.get(y) if y.sort == INT else None) if rep else d

    def orient(self, hyps):
        m = {}
        for h in hyps:
            if h.op == '=' and h.args[0].sort == REAL:
                x, y = h.args
                for u, v in ((x, y), (y, x)):
                    if u.op in ('v', 'select', 'app') and u not in t.fv(v) and u not in t.subterms(v) and u not in m:
                        m[u] = v
                        break
        return m

    def _req(self, hyps, d, budget, eqs):
        st = [(hyps, d)]
        bad = None
        while st:
            hy, d = st.pop()
            self.cases += 1
            if self.cases > budget: return ('unknown', hy, d)
            c = self.pickcond(d)
            if c is None:
                if is0(d): continue
                d1 = d
                if eqs:
                    for _ in range(6):
                        d2 = t.rewrite(d1, lambda y: eqs.get(y))
                        if d2 is d1: break
                        d1 = d2
                    if self.pickcond(d1) is not None:
                        st.append((hy, d1)); continue
                try:
                    z = t.Normalizer().zero(d1)
                except t.TooBig:
                    return ('unknown', hy, d1)
                if z:
                    if has(d1, ('/',)): self.assumptions.add('denominators of the compared expressions are non-zero')
                    continue
                if not self.feasible(hy): continue
                # sums that are only equal pointwise
                if has(d1, ('sum',)):
                    r = self.collect(hy, d1)
                    if r is True: continue
                    if r is not None and bad is None: bad = r
                    d2 = self.sumunify(hy, d1)
                    if d2 is not d1:
                        try:
                            if t.Normalizer().zero(d2): continue
                        except t.TooBig:
                            pass
                # linear/nonlinear facts in the hypotheses may be needed: ask z3
                r, m, cv = self.z3check([h for h in hy if not has(h, ('forall', 'exists', 'lam'))], t.ne(d1, t.R(0)), 4000)
                if r == 'unsat': continue
                return ('failed',) + bad if bad else ('failed', hy, d1)
            for lit in (c, t.not_(c)):
                known = {}
                h2 = hy + [lit]
                d2 = self.assume(d, lit)
                if self.needs_feas(h2) and not self.feasible(h2): continue
                st.append((h2, d2))
        return ('proved', self.cases)

    def collect(self, hy, d):
        """d is a linear combination of sums: group the sums with the same range and compare pointwise.
        True: d is zero; (hyps, body): a summand that is not identically zero; None: not of that form"""
        groups, other = [], []

        def lin(x, co):
            if x.op == '+':
                for a in x.args: lin(a, co)
                return
            if x.op == '*':
                w = [a for a in x.args if has(a, ('sum',))]
                if len(w) == 1:
                    lin(w[0], co + [a for a in x.args if a is not w[0]]); return
            if x.op == '/' and has(x.args[0], ('sum',)) and not has(x.args[1], ('sum',)):
                lin(x.args[0], co + [t.div(t.R(1), x.args[1])]); return
            if x.op == 'sum' and x.sort == REAL:
                for g in groups:
                    if self.entails_eq(hy, g[0], x.args[2]) and self.entails_eq(hy, g[1], x.args[3]):
                        g[2].append((x, co)); return
                groups.append((x.args[2], x.args[3], [(x, co)])); return
            other.append(t.mul(*(co + [x])) if co else x)
        lin(d, [])
        if not groups: return None
        for lo, hi, items in groups:
            k = t.fresh('k', INT)
            h2 = hy + [t.le(lo, k), t.lt(k, hi)] + self.instances(hy, k)
            body = t.add(*[t.mul(*(co + [t.subst(x.args[1], {x.args[0]: k})])) for x, co in items])
            keep = self.cases
            r = self._req(h2, norm_sums(body), 2000, self.orient(h2))
            self.cases = keep
            if r[0] != 'proved': return (r[1], r[2])
        if not other: return True
        rest = t.add(*other)
        try:
            if t.Normalizer().zero(rest): return True
        except t.TooBig: pass
        if has(rest, ('sum',)) and rest is not d: return self.collect(hy, rest)
        r, m, cv = self.z3check([h for h in hy if not has(h, ('forall', 'exists', 'lam'))], t.ne(rest, t.R(0)), 4000)
        return True if r == 'unsat' else None

    def instances(self, hy, k):
        """the universally quantified hypotheses at the point k"""
        out = []
        for h in hy:
            if h.op == 'forall' and len(h.args) == 2 and h.args[0].sort == k.sort:
                out.append(t.subst(h.args[1], {h.args[0]: k}))
            elif h.op == 'not' and h.args[0].op == 'exists' and len(h.args[0].args) == 2 and h.args[0].args[0].sort == k.sort:
                out.append(t.not_(t.subst(h.args[0].args[1], {h.args[0].args[0]: k})))
            elif h.op == 'or' and has(h, ('forall',)):
                out.append(self.weaken(h, k))
        return out

    def weaken(self, h, k):
        """a formula with quantifiers at the point k"""
        if h.op in ('and', 'or'): return (t.and_ if h.op == 'and' else t.or_)(*[self.weaken(x, k) for x in h.args])
        if h.op == 'forall' and len(h.args) == 2 and h.args[0].sort == k.sort: h = t.subst(h.args[1], {h.args[0]: k})
        elif h.op == 'not' and h.args[0].op == 'exists' and len(h.args[0].args) == 2 and h.args[0].args[0].sort == k.sort: h = t.not_(t.subst(h.args[0].args[1], {h.args[0].args[0]: k}))
        return t.TRUE if has(h, ('forall', 'exists', 'lam')) else h

    def needs_feas(self, h): return True

    def assume(self, d, lit):
        facts = lit.args if lit.op == 'and' else (lit,)
        m = {}
        for f in facts:
            m[f] = t.TRUE
            m[t.not_(f)] = t.FALSE
        if lit.op == 'not' and lit.args[0].op == 'or':
            for f in lit.args[0].args:
                m[f] = t.FALSE; m[t.not_(f)] = t.TRUE
        # integer equality to a constant: substitute
        sub = {}
        for f in facts:
            if f.op == '=' and f.args[0].sort == INT:
                x, y = f.args
                if y.op == 'c' and x.op in ('v', 'select', 'app'): sub[x] = y
                elif x.op == 'c' and y.op in ('v', 'select', 'app'): sub[y] = x
        return t.rewrite(d, lambda y: m.get(y) if y.sort == BOOL else sub.get(y))

    def pickcond(self, d):
        """an ite condition that is not under a binder"""
        seen = set()
        st = [d]
        best = None
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == 'sum':
                st.extend(x.args[2:4]); continue
            if x.op in ('lam', 'forall', 'exists'):
                continue
            if x.op == 'ite' and x.sort != BOOL:
                c = x.args[0]
                y = self.atom(c)
                if best is None or y.depth < best.depth or (y.depth == best.depth and y.id < best.id): best = y
            st.extend(x.args)
        return best

    def atom(self, c):
        while c.op in ('and', 'or', 'not') or (c.op == 'ite' and c.sort == BOOL):
            c = min(c.args, key=lambda z: z.depth)
        return c

    def sumunify(self, hy, d):
        sums = sorted([x for x in t.subterms(d) if x.op == 'sum'], key=lambda x: x.id)
        rep = {}
        reps = []
        for s in sums:
            hit = None
            for r in reps:
                if s.sort == r.sort and self.entails_eq(hy, s.args[2], r.args[2]) and self.entails_eq(hy, s.args[3], r.args[3]):
                    k = t.fresh('k', INT)
                    h2 = hy + [t.le(s.args[2], k), t.lt(k, s.args[3])]
                    a = t.subst(s.args[1], {s.args[0]: k}); b = t.subst(r.args[1], {r.args[0]: k})
                    keep = self.cases
                    ok = self._req(h2, t.to_real(t.sub(a, b)), 500, self.orient(h2))[0] == 'proved'
                    self.cases = keep
                    if ok:
                        hit = r; break
            if hit is not None: rep[s] = hit
            else:
                # a sum whose body is always zero
                k = t.fresh('k', INT)
                h2 = hy + [t.le(s.args[2], k), t.lt(k, s.args[3])]
                keep = self.cases
                ok = self._req(h2, t.to_real(t.subst(s.args[1], {s.args[0]: k})), 500, self.orient(h2))[0] == 'proved'
                self.cases = keep
                if ok: rep[s] = t._cst(0, s.sort)
                else: reps.append(s)
        if not rep: return d
        return t.rewrite(d, lambda y: rep.get(y))

    def entails_eq(self, hy, a, b):
        if a is b: return True
        return self.entails([h for h in hy if not has(h, ('lam',))], t.eq(a, b), 2000)

    # ---- general goals -------------------------------------------------------------------------------------
    def prove(self, name, hyps, goal, func='', kind=''):
        """discharge one obligation; appends and returns a Result"""
        t0 = time.time()
        r = self._prove(name, hyps, goal, func)
        r.secs = time.time() - t0
        r.kind = kind
        self.results.append(r)
        if os.environ.get('GPV_VERBOSE'):
            print('   [%s] %-9s %-8s %.2fs  %s' % (func, r.status, r.how, r.secs, name), flush=True)
        return r

    def _prove(self, name, hyps, goal, func):
        hyps = [h for h in self.flat(hyps) if h is not t.TRUE]
        if goal is t.TRUE: return Result(name, 'proved', 'simplify', 0, func=func)
        if t.FALSE in hyps: return Result(name, 'proved', 'simplify', 0, func=func)
        if goal.op == 'and':
            hows = set()
            for g in goal.args:
                r = self._prove(name, hyps, g, func)
                if r.status != 'proved': return r
                hows.add(r.how)
            return Result(name, 'proved', '+'.join(sorted(hows)), 0, func=func)
        if goal.op == '=' and goal.args[0].sort == REAL:
            r = self.real_eq(hyps, goal.args[0], goal.args[1])
            if r[0] == 'proved': return Result(name, 'proved', 'identity', 0, '%d cases' % r[1], func)
            if r[0] == 'failed':
                cex = self.numeric(r[1], r[2])
                if cex is None and not has(goal, ('sum', 'lam')):
                    try: r2, m, cv = self.z3check(hyps, t.not_(goal), 5000)
                    except Exception: r2 = None
                    if r2 == 'unsat': return Result(name, 'proved', 'z3', 0, func=func)
                if cex is None and has(goal, ('sum',)) and any(y.op == 'app' and isinstance(y.val, str) and y.val.startswith('app_') for y in t.subterms(goal)):
                    z = self.generic(name, hyps, goal, func)
                    if z.status == 'proved': return z
                return Result(name, 'refuted' if cex is not None else 'unknown', 'identity', 0,
                              'differs in the case %s: difference %s%s' % ([t.pp(h) for h in r[1][-6:]], t.pp(r[2])[:600], ' = %s' % cex[1] if cex else ''), func, cex)
            return Result(name, 'unknown', 'identity', 0, 'case budget exhausted', func)
        return self.generic(name, hyps, goal, func)

    def generic(self, name, hyps, goal, func):
        if True:
            g2 = norm_sums(goal)
            h2 = [norm_sums(h) for h in hyps]
            h3 = relevant(h2, g2)
            if len(h3) < len(h2):
                fs = [g2] + h3
                if any(has(f, ('sum',)) for f in fs):
                    fs = unify_summands(self.z3check, fs); fs += count_facts(fs)
                if self.z3check(fs[1:], t.not_(fs[0]), 4000)[0] == 'unsat': return Result(name, 'proved', 'z3+sum' if len(fs) > len(h3) + 1 else 'z3', 0, func=func)
            r, m, cv = self.z3check(h2, t.not_(g2), 500 if has(g2, ('sum',)) else 3000 if any(has(h, ('sum',)) for h in h2) else None)
            if r == 'unsat': return Result(name, 'proved', 'z3', 0, func=func)
            if any(has(f, ('sum',)) for f in [g2] + h2):
                fs = unify_summands(self.z3check, [g2] + h2)
                g2, h2 = fs[0], fs[1:]
                cf = count_facts(fs)
                r, m, cv = self.z3check(h2 + cf, t.not_(g2))
                if r == 'unsat': return Result(name, 'proved', 'z3+sum', 0, func=func)
                if r == 'unknown' and cf:
                    r, m, cv = self.z3check(h2, t.not_(g2))
                    if r == 'unsat': return Result(name, 'proved', 'z3+sum', 0, func=func)
            if has(g2, ('sum',)):
                f2 = unify_summands(self.z3check, [g2] + h2, [h for h in h2 if not has(h, ('forall', 'exists', 'sum', 'lam'))])
                if any(x is not y for x, y in zip(f2, [g2] + h2)) and self.z3check(f2[1:], t.not_(f2[0]), 4000)[0] == 'unsat': return Result(name, 'proved', 'z3+sum', 0, func=func)
            if r == 'sat':
                if has(goal, ('sum',)):
                    d = self.sumunify_goal(h2, g2)
                    if d is not g2:
                        r2, m2, _ = self.z3check(h2, t.not_(d))
                        if r2 == 'unsat': return Result(name, 'proved', 'z3+sum', 0, func=func)
                return Result(name, 'refuted', 'z3', 0, self.showmodel(m), func, m)
            r3 = self.cvc5check(h2, t.not_(g2))
            if r3 == 'unsat': return Result(name, 'proved', 'cvc5', 0, func=func)
            return Result(name, 'unknown', 'z3+cvc5', 0, 'no answer', func)

    def sumunify_goal(self, hy, g):
        self.cases = 0
        return self.sumunify(hy, g)

    def flat(self, hs):
        out = []
        for h in hs:
            if h.op == 'and': out += self.flat(h.args)
            else: out.append(h)
        return out

    def showmodel(self, m):
        s = []
        for d in m.decls()[:60]:
            s.append('%s=%s' % (d.name(), str(m[d])[:80].replace('\n', ' ')))
        return '; '.join(s)

    def reachable(self, name, hyps, func=''):
        """vacuity guard: the hypotheses must be satisfiable (or at least not refutable)"""
        hyps = self.flat(hyps)
        ok = self.feasible(hyps, 10000)
        r = Result('reachable: ' + name, 'proved' if ok else 'vacuous', 'z3', 0, func=func)
        r.kind = 'cover'
        self.results.append(r)
        return ok

    # ---- numeric refutation ---------------------------------------------------------------------------------
    def numeric(self, hyps, d, tries=400):
        """a concrete point satisfying hyps where d != 0"""
        rng = self.rng
        hs = [h for h in hyps if not has(h, ('forall', 'exists'))]
        for i in range(tries):
            env = {}

            def val(so):
                if so == INT: return rng.choice([0, 1, 2, 3, 1, 2])
                if so == REAL: return rng.choice([rng.uniform(0.2, 2.5), rng.uniform(-2.5, 2.5)])
                if so == BOOL: return rng.random() < 0.5
                if so == STR: return 's%d' % rng.randrange(9)
                memo = {}
                def f(i_):
                    if i_ not in memo: memo[i_] = val(so[2])
                    return memo[i_]
                f.memo = memo
                return f

            def default(x): return val(x.sort)
            env['default'] = default
            fm = {}

            def unk(name):
                def g(*a):
                    k = (name,) + tuple(round(x, 9) if isinstance(x, float) else x for x in a if not callable(x))
                    if k not in fm: fm[k] = rng.uniform(-2, 2)
                    return fm[k]
                return g
            names = {x.val for h in hs + [d] for x in t.subterms(h) if x.op == 'app'} - {'sin', 'cos', 'sqrt', 'exp', 'atan', 'asin', 'acos', 'atan2', 'pow', 'log'}
            try:
                # make equality hypotheses on variables true where easy
                if not all(t.evaluate(h, env, {n: unk(n) for n in names}) for h in hs): continue
                v = t.evaluate(d, env, {n: unk(n) for n in names})
            except (t.EvalError, ZeroDivisionError, OverflowError, TypeError, ValueError):
                continue
            if isinstance(v, float) and abs(v) > 1e-6:
                pt = {}
                for x, y in env.items():
                    if isinstance(x, T):
                        pt[str(x.val)] = dict(y.memo) if callable(y) and hasattr(y, 'memo') else y
                return pt, v
        return None
