"""Cut lemmas: sub-expressions of a goal that equal a named quantity are replaced by it.

A scenario lists quantities in order:
  define(name, term)    a fresh variable that stands for the value of term
  fact(lhs, rhs)        an equality between inputs and named quantities, used from left to right
  known(term)           an expression over the quantities that sub-expressions of the goal should collapse to
Candidates are found by their value on a few sample states and every replacement is proved (exact identity) before it
is made, so how the code writes the expression does not matter and a wrong guess costs time only."""
from . import terms as t, prove
from .terms import T, REAL


class Cuts:
    def __init__(c):
        c.items, c.vars, c.results = [], {}, []
        c.ready = False

    def define(c, name, term):
        v = t.var('cut_' + name, REAL)
        c.items.append(('def', v, term))
        c.vars[v] = term
        return v

    def fact(c, label, lhs, rhs): c.items.append(('fact', lhs, rhs, label))
    def known(c, term): c.items.append(('eq', term))

    # ------------------------------------------------------------------------------------------------------------
    def prepare(c, s, sampler, holds, fields):
        """sample states of the scenario, and the values of the quantities in them"""
        c.ready = True
        c.envs, c.mem, c.rw = [], [], []
        for _ in range(4000):
            if len(c.envs) == 3: break
            try: toks, env, desc = s.sample(sampler, fields)
            except Exception: continue
            if not holds(list(s.pre) + list(s.sample_pre), env): continue
            e = dict(env)
            try:
                for it in c.items:
                    if it[0] == 'def':
                        e[it[1]] = t.evaluate(it[2], e)
                        if abs(e[it[1]]) < 1e-3: raise ValueError
                c.envs.append(e); c.mem.append({})
            except (t.EvalError, ArithmeticError, ValueError, TypeError): continue
        c.live = []

    def value(c, x):
        try: return tuple(t.evaluate(x, e, memo=m) for e, m in zip(c.envs, c.mem))
        except (t.EvalError, ArithmeticError, ValueError, TypeError, KeyError): return None

    @staticmethod
    def same(a, b): return a is not None and b is not None and all(isinstance(x, float) and abs(x - y) <= 1e-8 * (1e-6 + abs(x) + abs(y)) for x, y in zip(a, b))

    def zero(c, pr, hyps, d):
        if d.op == 'c': return d.val == 0
        if not any(x.op == 'ite' for x in t.subterms(d)):
            try: return t.Normalizer(limit=20000).zero(d)
            except t.TooBig: return False
        return pr.real_eq(hyps, d, t.R(0), 200)[0] == 'proved'

    def simplify(c, pr, hyps, d, upto=None):
        if len(c.envs) < 2: return d
        for k, it in enumerate(c.items[:upto]):
            while len(c.rw) <= k: c.rw.append(None)
            if c.rw[k] is None: c.rw[k] = c.rule(pr, hyps, k, it)
            if c.rw[k]: d = t.rewrite(d, c.rw[k][0], c.rw[k][1])
        return d

    def rule(c, pr, hyps, k, it):
        if it[0] == 'fact':
            _, lhs, rhs, label = it
            import time
            t0 = time.time()
            # expand the definitions, latest first: the earlier quantities stay generic if they can
            x, ok = t.sub(lhs, rhs), False
            for v in [None] + [i[1] for i in c.items[:k] if i[0] == 'def'][::-1]:
                if v is not None:
                    if v not in t.fv(x): continue
                    x = t.subst(x, {v: c.vars[v]})
                ok = c.zero(pr, hyps, x)
                if ok: break
            c.results.append((label, ok, time.time() - t0))
            if not ok: return ()
            if lhs.op == '*': return (lambda y: c.product(y, lhs, rhs), {})
            return (lambda y: rhs if y is lhs else None, {})
        if it[0] == 'def': tgt, rep, base = c.value(it[2]), it[1], c.simplify(pr, hyps, it[2], k)
        else: tgt, rep, base = c.value(it[1]), it[1], it[1]
        if tgt is None: return ()

        def f(y):
            if y.sort != REAL or y.op in ('c', 'v', 'select') or y is rep: return None
            if not c.same(c.value(y), tgt): return None
            x = t.sub(y, base)
            if c.zero(pr, hyps, x): return rep
            if it[0] == 'eq':               # expand the definitions, latest first
                for v in [i[1] for i in c.items[:k] if i[0] == 'def'][::-1]:
                    if v not in t.fv(x): continue
                    x = t.subst(x, {v: c.simplify(pr, hyps, c.vars[v], c.index(v))})
                    if c.zero(pr, hyps, x): return rep
            return None
        return (f, {})

    @staticmethod
    def product(y, lhs, rhs):
        """a product that contains the factors of lhs"""
        if y.op != '*': return None
        rest = list(y.args)
        for a in lhs.args:
            if a not in rest: return None
            rest.remove(a)
        return t.mul(rhs, *rest)

    def index(c, v):
        for i, it in enumerate(c.items):
            if it[0] == 'def' and it[1] is v: return i
