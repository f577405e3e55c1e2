"""Hash-consed first-order terms (Int/Real/Bool/Str/Array), light simplification, evaluation, substitution,
differentiation and exact polynomial normal forms.  Everything the verifier proves is a statement over these terms."""
from fractions import Fraction
import math, itertools

INT, REAL, BOOL, STR = 'Int', 'Real', 'Bool', 'Str'


def ARR(d, r):
    return ('Arr', d, r)


class T:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', '_fv', 'depth')

    def __repr__(self):
        return pp(self)

    # operator sugar (python arithmetic over terms)
    def __add__(a, b): return add(a, lift(b, a.sort))
    def __radd__(a, b): return add(lift(b, a.sort), a)
    def __sub__(a, b): return sub(a, lift(b, a.sort))
    def __rsub__(a, b): return sub(lift(b, a.sort), a)
    def __mul__(a, b): return mul(a, lift(b, a.sort))
    def __rmul__(a, b): return mul(lift(b, a.sort), a)
    def __truediv__(a, b): return div(a, lift(b, REAL))
    def __rtruediv__(a, b): return div(lift(b, REAL), a)
    def __neg__(a): return neg(a)
    def __lt__(a, b): return lt(a, lift(b, a.sort))
    def __le__(a, b): return le(a, lift(b, a.sort))
    def __gt__(a, b): return lt(lift(b, a.sort), a)
    def __ge__(a, b): return le(lift(b, a.sort), a)
    def __pow__(a, n):
        r = a
        for _ in range(n - 1):
            r = mul(r, a)
        return r
    def __getitem__(a, i): return select(a, lift(i, a.sort[1]))
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o


_tab = {}
_cnt = itertools.count()


def mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.val, t.id, t._fv = op, tuple(args), sort, val, next(_cnt), None
        t.depth = 1 + max([a.depth for a in args], default=0)
        _tab[key] = t
    return t


def I(v): return mk('c', (), INT, int(v))
def R(v):
    if isinstance(v, float):
        v = Fraction(repr(v))
    return mk('c', (), REAL, Fraction(v))
TRUE = mk('c', (), BOOL, True)
FALSE = mk('c', (), BOOL, False)
def B(v): return TRUE if v else FALSE
def S(v): return mk('c', (), STR, v)
def var(name, sort): return mk('v', (), sort, name)
_fresh = itertools.count()
def fresh(name, sort): return var('%s!%d' % (name, next(_fresh)), sort)


def lift(x, sort):
    if isinstance(x, T):
        if sort == REAL and x.sort == INT:
            return to_real(x)
        return x
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, str):
        return S(x)
    if sort == REAL:
        return R(x)
    if sort == INT and isinstance(x, int):
        return I(x)
    return R(x)


def is_c(t): return t.op == 'c'


def _num_join(a, b):
    if a.sort == b.sort:
        return a, b
    if a.sort == INT and b.sort == REAL:
        return to_real(a), b
    if b.sort == INT and a.sort == REAL:
        return a, to_real(b)
    raise TypeError('sorts %s %s' % (a.sort, b.sort))


def _lin(t):
    """t as (dict term->coef, const) over top-level + and const*"""
    if t.op == 'c':
        return {}, t.val
    if t.op == '+':
        d, c = {}, 0
        for a in t.args:
            if a.op == 'c':
                c += a.val
            elif a.op == '*' and a.args[0].op == 'c':
                r = a.args[1] if len(a.args) == 2 else mk('*', a.args[1:], a.sort)
                d[r] = d.get(r, 0) + a.args[0].val
            else:
                d[a] = d.get(a, 0) + 1
        return d, c
    if t.op == '*' and t.args[0].op == 'c':
        r = t.args[1] if len(t.args) == 2 else mk('*', t.args[1:], t.sort)
        return {r: t.args[0].val}, 0
    return {t: 1}, 0


def _cst(v, sort):
    return I(v) if sort == INT else R(v)


def _unlin(d, c, sort):
    items = [(t, k) for t, k in d.items() if k != 0]
    items.sort(key=lambda x: x[0].id)
    args = []
    for t, k in items:
        if k == 1:
            args.append(t)
        elif t.op == '*':
            args.append(mk('*', (_cst(k, sort),) + t.args, sort))
        else:
            args.append(mk('*', (_cst(k, sort), t), sort))
    if c != 0 or not args:
        args.append(_cst(c, sort))
    if len(args) == 1:
        return args[0]
    return mk('+', args, sort)


def add(*ts):
    r = ts[0]
    for t in ts[1:]:
        a, b = _num_join(r, t)
        da, ca = _lin(a)
        db, cb = _lin(b)
        d = dict(da)
        for k, v in db.items():
            d[k] = d.get(k, 0) + v
        r = _unlin(d, ca + cb, a.sort)
    return r


def neg(a):
    return mul(_cst(-1, a.sort), a)


def sub(a, b):
    a, b = _num_join(a, b)
    return add(a, neg(b))


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = _mul2(r, t)
    return r


def _mul2(a, b):
    a, b = _num_join(a, b)
    if a.op == 'c' and b.op == 'c':
        return _cst(a.val * b.val, a.sort)
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if a.val == 0:
            return a
        if a.val == 1:
            return b
        d, c = _lin(b)
        return _unlin({k: v * a.val for k, v in d.items()}, c * a.val, a.sort)
    # push ite with constant branches? keep structural
    k = 1
    fs = []
    for t in (a, b):
        if t.op == '*':
            for f in t.args:
                if f.op == 'c':
                    k *= f.val
                else:
                    fs.append(f)
        else:
            fs.append(t)
    fs.sort(key=lambda x: x.id)
    if k == 0:
        return _cst(0, a.sort)
    if k != 1:
        return mk('*', [_cst(k, a.sort)] + fs, a.sort)
    return mk('*', fs, a.sort)


def div(a, b):
    a = lift(a, REAL); b = lift(b, REAL)
    a, b = (to_real(a) if a.sort == INT else a), (to_real(b) if b.sort == INT else b)
    if b.op == 'c' and b.val != 0:
        return mul(R(Fraction(1) / b.val), a)
    if a.op == 'c' and a.val == 0 and False:
        return a
    return mk('/', (a, b), REAL)


def tdiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.val != 0:
        q = abs(a.val) // abs(b.val)
        return I(q if (a.val >= 0) == (b.val >= 0) else -q)
    if b.op == 'c' and b.val == 1:
        return a
    return mk('tdiv', (a, b), INT)


def tmod(a, b):
    if a.op == 'c' and b.op == 'c' and b.val != 0:
        return I(a.val - b.val * tdiv(a, b).val)
    return mk('tmod', (a, b), INT)


def to_real(a):
    if a.sort == REAL:
        return a
    if a.sort == BOOL:
        return ite(a, R(1), R(0))
    if a.op == 'c':
        return R(a.val)
    if a.op == 'ite':
        return ite(a.args[0], to_real(a.args[1]), to_real(a.args[2]))
    if a.op == '+':
        return add(*[to_real(x) for x in a.args])
    if a.op == '*':
        return mul(*[to_real(x) for x in a.args])
    return mk('to_real', (a,), REAL)


def floor_(a):
    if a.op == 'c':
        return I(math.floor(a.val))
    if a.op == 'to_real':
        return a.args[0]
    return mk('floor', (a,), INT)


def trunc_(a):
    if a.sort == INT:
        return a
    if a.op == 'c':
        return I(int(a.val))
    if a.op == 'to_real':
        return a.args[0]
    return ite(le(R(0), a), floor_(a), neg(floor_(neg(a))))


def not_(a):
    if a.op == 'c':
        return B(not a.val)
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return le(a.args[1], a.args[0])
    if a.op == '<=':
        return lt(a.args[1], a.args[0])
    return mk('not', (a,), BOOL)


def and_(*ts):
    out, seen = [], set()
    st = list(ts)
    flat = []
    for t in st:
        if t.op == 'and':
            flat.extend(t.args)
        else:
            flat.append(t)
    for t in flat:
        if t is TRUE or t.id in seen:
            continue
        if t is FALSE or not_(t).id in seen:
            return FALSE
        seen.add(t.id)
        out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', out, BOOL)


def or_(*ts):
    out, seen = [], set()
    flat = []
    for t in ts:
        if t.op == 'or':
            flat.extend(t.args)
        else:
            flat.append(t)
    for t in flat:
        if t is FALSE or t.id in seen:
            continue
        if t is TRUE or not_(t).id in seen:
            return TRUE
        seen.add(t.id)
        out.append(t)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # factor common conjuncts  (a&b)|(a&~b) -> a
    if len(out) == 2:
        A = set(out[0].args) if out[0].op == 'and' else {out[0]}
        Bs = set(out[1].args) if out[1].op == 'and' else {out[1]}
        com = A & Bs
        if com:
            ra = and_(*[x for x in (out[0].args if out[0].op == 'and' else out[:1]) if x not in com])
            rb = and_(*[x for x in (out[1].args if out[1].op == 'and' else out[1:]) if x not in com])
            cl = [x for x in (out[0].args if out[0].op == 'and' else out[:1]) if x in com]
            return and_(*(cl + [or_(ra, rb)]))
        if len(A) == 1 and not_(out[0]) in Bs:
            return or_(out[0], and_(*[x for x in out[1].args if x is not not_(out[0])]))
        if len(Bs) == 1 and not_(out[1]) in A:
            return or_(and_(*[x for x in out[0].args if x is not not_(out[1])]), out[1])
    return mk('or', out, BOOL)


def implies(a, b): return or_(not_(a), b)
def iff(a, b): return eq(a, b)


def lt(a, b):
    a, b = _num_join(a, b)
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return B(a.val < b.val)
    if a.sort == INT:
        d = sub(b, a)
        if d.op == 'c':
            return B(d.val > 0)
    return mk('<', (a, b), BOOL)


def le(a, b):
    a, b = _num_join(a, b)
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return B(a.val <= b.val)
    if a.sort == INT:
        d = sub(b, a)
        if d.op == 'c':
            return B(d.val >= 0)
    return mk('<=', (a, b), BOOL)


FRESH = set()       # blocks allocated by the caller during the scenario: no pointer of the initial state designates them


def _freshdist(c, x):
    if c.op != 'c' or c.val not in FRESH or c.sort != INT: return False
    while x.op == 'select': x = x.args[0]
    return x.op == 'v' and '^b' in str(x.val)


def eq(a, b):
    if a is b:
        return TRUE
    if FRESH and (_freshdist(a, b) or _freshdist(b, a)): return FALSE
    if a.sort != b.sort:
        a, b = _num_join(a, b)
        if a is b:
            return TRUE
    if a.op == 'c' and b.op == 'c':
        return B(a.val == b.val)
    if a.sort == BOOL:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
    if a.op == 'select' and b.op == 'select' and a.args[0] is b.args[0] and a.args[0] in INJECTIVE: return eq(a.args[1], b.args[1])
    if a.sort in (INT, REAL):
        d = sub(a, b)
        if d.op == 'c':
            return B(d.val == 0)
        if b.op == 'c' and a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if x.op == 'c' and y.op == 'c':
                if x.val == b.val and y.val != b.val: return a.args[0]
                if y.val == b.val and x.val != b.val: return not_(a.args[0])
                if y.val != b.val and x.val != b.val: return FALSE
        if a.op == 'c' and b.op == 'ite':
            return eq(b, a)
    if a.id > b.id:
        a, b = b, a
    return mk('=', (a, b), BOOL)


def ne(a, b): return not_(eq(a, b))


def under(a, c, v):
    """drop the cases of an ite chain decided by c == v (c literally, or its negation)"""
    n = 0
    p, w = (c.args[0], not v) if c.op == 'not' else (c, v)
    while a.op == 'ite' and n < 50:
        d, u = (a.args[0].args[0], False) if a.args[0].op == 'not' else (a.args[0], True)
        if d is not p: break
        a = a.args[1] if u == w else a.args[2]
        n += 1
    return a


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort != b.sort:
        a, b = _num_join(a, b)
    if a.op == 'ite': a = under(a, c, True)
    if b.op == 'ite': b = under(b, c, False)
    if a is b: return a
    if a.sort == BOOL:
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c, b)
        if b is FALSE: return and_(c, a)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b: return a
    if b.op == 'ite' and b.args[1] is a:      # ite(c,a,ite(d,a,e)) -> ite(c|d,a,e)
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:      # ite(c,ite(d,x,b),b) -> ite(c&d,x,b)
        return ite(and_(c, a.args[0]), a.args[1], b)
    return mk('ite', (c, a, b), a.sort)


def _distinct(i, j):
    if i.op == 'c' and j.op == 'c':
        return i.val != j.val
    if i.sort == INT:
        d = sub(i, j)
        return d.op == 'c' and d.val != 0
    if i.sort == STR and i.op == 'app' and j.op == 'app' or (i.sort == STR and 'c' in (i.op, j.op)):
        return False
    return False


DISTINCT = set()   # frozenset of term ids declared distinct (fresh refs)


def select(a, i):
    while True:
        if a.op == 'store':
            if a.args[1] is i:
                return a.args[2]
            if _distinct(a.args[1], i) or (FRESH and (_freshdist(a.args[1], i) or _freshdist(i, a.args[1]))) or frozenset((a.args[1].id, i.id)) in DISTINCT:
                a = a.args[0]
                continue
            w = a.args[1]
            if i.op == 'select' and w.op == 'select' and w.args[0] is i.args[0] and i.args[0] in INJECTIVE:
                return ite(eq(w.args[1], i.args[1]), a.args[2], select(a.args[0], i))
        elif a.op == 'lam':
            return subst(a.args[1], {a.args[0]: i})
        elif a.op == 'constarr':
            return a.args[0]
        elif a.op == 'ite':
            return ite(a.args[0], select(a.args[1], i), select(a.args[2], i))
        break
    return mk('select', (a, i), a.sort[2])


def store(a, i, v):
    if v.sort != a.sort[2]:
        v = lift(v, a.sort[2])
    if v.op == 'select' and v.args[0] is a and v.args[1] is i:
        return a
    if a.op == 'store':
        if a.args[1] is i:
            return store(a.args[0], i, v)
        if a.args[1].op == 'c' and i.op == 'c' and i.val < a.args[1].val:
            return mk('store', (store(a.args[0], i, v), a.args[1], a.args[2]), a.sort)
    return mk('store', (a, i, v), a.sort)


def constarr(dom, v): return mk('constarr', (v,), ARR(dom, v.sort))


def lam(bv, body):
    # eta: lam x. select(a,x) -> a
    if body.op == 'select' and body.args[1] is bv and bv not in fv(body.args[0]):
        return body.args[0]
    return mkbind('lam', (bv,), body, (), ARR(bv.sort, body.sort))


_alpha = {}
_height = {}


def height(x):
    """nesting depth of binders"""
    h = _height.get(x.id)
    if h is None:
        st = [x]
        while st:
            y = st[-1]
            if y.id in _height: st.pop(); continue
            todo = [a for a in y.args if a.id not in _height]
            if todo: st.extend(todo); continue
            _height[y.id] = max([_height[a.id] for a in y.args], default=0) + (y.op in BINDERS)
            st.pop()
        h = _height[x.id]
    return h


def mkbind(op, bvs, body, rest, sort):
    """binder terms are shared up to the name of the bound variable"""
    args = tuple(bvs) + (body,) + tuple(rest)
    k0 = (op, tuple(a.id for a in args), sort, None)
    r = _tab.get(k0)
    if r is not None: return r
    h = height(body)             # binders inside use smaller levels, so levels never clash
    canon = {b: mk('v', (), b.sort, 'bound$%d$%d' % (h, i)) for i, b in enumerate(bvs)}
    key = (op, subst(body, canon).id, tuple(b.sort for b in bvs), tuple(a.id for a in rest), sort)
    r = _alpha.get(key)
    if r is None:
        r = mk(op, args, sort); _alpha[key] = r
    else: _tab[k0] = r
    return r


def bsum(bv, body, lo, hi):
    """sum_{lo<=bv<hi} body"""
    if body.op == 'c' and body.val == 0:
        return body
    if hi.op == 'ite' and hi.args[2] is lo and hi.args[0].op in ('<', '<=', 'lt', 'le') and hi.args[0].args == (lo, hi.args[1]):
        hi = hi.args[1]          # an empty range either way
    d = sub(hi, lo)
    if d.op == 'c':
        if d.val <= 0:
            return _cst(0, body.sort)
        if d.val <= 8:
            return add(*[subst(body, {bv: add(lo, I(k))}) for k in range(d.val)])
    if bv not in fv(body):
        if body.sort == INT:
            return mul(ite(le(lo, hi), sub(hi, lo), I(0)), body)
    return mkbind('sum', (bv,), body, (lo, hi), body.sort)


def forall(bvs, body):
    bvs = [b for b in bvs if b in fv(body)]
    if not bvs:
        return body
    return mkbind('forall', tuple(bvs), body, (), BOOL)


def exists(bvs, body):
    bvs = [b for b in bvs if b in fv(body)]
    if not bvs:
        return body
    return mkbind('exists', tuple(bvs), body, (), BOOL)


PURE = {}


INJECTIVE = set()   # arrays of pairwise distinct values
INVERSE = {}        # name of the inverse of an array of distinct values -> the array


def inverse(arr):
    """name of a function f with f(arr[k]) = k; exists because the values of arr are distinct"""
    for n, a in INVERSE.items():
        if a is arr: return n
    n = 'inv!%d' % next(_fresh)
    INVERSE[n] = arr
    return n


def app(name, args, sort):
    if name in INVERSE and args[0].op == 'select' and args[0].args[0] is INVERSE[name]: return args[0].args[1]
    f = PURE.get(name)
    if f:
        r = f(*args)
        if r is not None:
            return r
    return mk('app', args, sort, name)


# --- mathematical functions, as uninterpreted symbols with a few exact rewrites -----------------------------
def _turns(x):
    """x = r + k*pi/2: (r, k mod 4) with whole turns dropped; k an integer constant, or 4*(integer term)"""
    d, c = _lin(x)
    k, out, ch = 0, {}, False
    for y, v in d.items():
        if y is PI and Fraction(v).denominator <= 2:
            k += int(2 * v); ch = ch or v != 0
        elif y.op == '*' and Fraction(v).denominator == 1 and v % 2 == 0 and sum(f is PI for f in y.args) == 1 and all(f is PI or f.op == 'to_real' for f in y.args):
            ch = True
        else: out[y] = v
    if not ch: return x, 0
    return _unlin(out, c, REAL), k % 4


def _sin(x):
    if x.op == 'c' and x.val == 0: return R(0)
    if x.op == 'ite': return ite(x.args[0], sin(x.args[1]), sin(x.args[2]))
    if x.op == 'app' and x.val == 'atan2': return div(x.args[0], _hyp(x))
    y, k = _turns(x)
    if y is not x: return (sin, cos, lambda z: neg(sin(z)), lambda z: neg(cos(z)))[k](y)
    s, y = _sgn(x)
    if s < 0: return neg(app('sin', (y,), REAL))


def _hyp(a):
    y, x = a.args
    return sqrt(add(mul(x, x), mul(y, y)))


def _cos(x):
    if x.op == 'c' and x.val == 0: return R(1)
    if x.op == 'ite': return ite(x.args[0], cos(x.args[1]), cos(x.args[2]))
    if x.op == 'app' and x.val == 'atan2': return div(x.args[1], _hyp(x))      # where the arguments are not both zero
    y, k = _turns(x)
    if y is not x: return (cos, lambda z: neg(sin(z)), lambda z: neg(cos(z)), sin)[k](y)
    s, y = _sgn(x)
    if s < 0: return app('cos', (y,), REAL)


def _sgn(x):
    """canonical sign of a linear combination: -1 if its leading coefficient is negative"""
    d, c = _lin(x)
    if not d:
        return (1, x) if c >= 0 else (-1, neg(x))
    lead = min(d, key=lambda t: t.id)
    if d[lead] < 0:
        return -1, neg(x)
    return 1, x


def _abs(x):
    if x.op == 'c': return R(abs(x.val))
    return ite(le(R(0), x), x, neg(x))


def _sqrt(x):
    if x.op == 'c':
        v = x.val
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return R(Fraction(n, d))


def _exp(x):
    if x.op == 'c' and x.val == 0: return R(1)


PI = var('PI', REAL)


def _atan(x):
    if x.op == 'c':
        if x.val == 0: return R(0)
        if x.val == 1: return mul(R(Fraction(1, 4)), PI)


def _asin(x):
    if x.op == 'c':
        if x.val == 0: return R(0)
        if x.val == 1: return mul(R(Fraction(1, 2)), PI)


def _acos(x):
    if x.op == 'c':
        if x.val == 1: return R(0)
        if x.val == 0: return mul(R(Fraction(1, 2)), PI)
        if x.val == -1: return PI


PURE.update(sin=_sin, cos=_cos, sqrt=_sqrt, exp=_exp, atan=_atan, asin=_asin, acos=_acos)


def sin(x): return app('sin', (lift(x, REAL),), REAL)
def cos(x): return app('cos', (lift(x, REAL),), REAL)
def sqrt(x): return app('sqrt', (lift(x, REAL),), REAL)
def exp(x): return app('exp', (lift(x, REAL),), REAL)
def fabs(x): return _abs(lift(x, REAL))


# --- traversal ----------------------------------------------------------------------------------------------
BINDERS = {'lam': 1, 'sum': 1, 'forall': -1, 'exists': -1}


def bound(t):
    if t.op in ('lam', 'sum'):
        return (t.args[0],)
    if t.op in ('forall', 'exists'):
        return t.args[:-1]
    return ()


def fv(t):
    if t._fv is None:
        st = [t]
        while st:
            x = st[-1]
            if x._fv is not None:
                st.pop(); continue
            todo = [a for a in x.args if a._fv is None]
            if todo:
                st.extend(todo); continue
            if x.op == 'v':
                x._fv = frozenset((x,))
            else:
                s = frozenset().union(*[a._fv for a in x.args]) if x.args else frozenset()
                b = bound(x)
                if b:
                    if x.op == 'sum':
                        s = (x.args[1]._fv - set(b)) | x.args[2]._fv | x.args[3]._fv
                    else:
                        s = s - set(b)
                x._fv = s
            st.pop()
    return t._fv


def rebuild(t, args):
    op = t.op
    if op in ('c', 'v'): return t
    if op == '+': return add(*args)
    if op == '*': return mul(*args)
    if op == '/': return div(*args)
    if op == 'tdiv': return tdiv(*args)
    if op == 'tmod': return tmod(*args)
    if op == 'to_real': return to_real(args[0])
    if op == 'floor': return floor_(args[0])
    if op == 'not': return not_(args[0])
    if op == 'and': return and_(*args)
    if op == 'or': return or_(*args)
    if op == '<': return lt(*args)
    if op == '<=': return le(*args)
    if op == '=': return eq(*args)
    if op == 'ite': return ite(*args)
    if op == 'select': return select(*args)
    if op == 'store': return store(*args)
    if op == 'constarr': return constarr(t.sort[1], args[0])
    if op == 'lam': return lam(*args)
    if op == 'sum': return bsum(*args)
    if op == 'forall': return forall(list(args[:-1]), args[-1])
    if op == 'exists': return exists(list(args[:-1]), args[-1])
    if op == 'app': return app(t.val, args, t.sort)
    raise KeyError(op)


def subst(t, m, memo=None):
    """capture-avoiding because every binder uses a globally fresh variable and replacements never contain
    bound variables of the term they are put in (they are produced by `fresh`)."""
    if not m:
        return t
    keys = frozenset(m)
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif not (fv(x) & keys):
            r = x
        else:
            r = rebuild(x, [go(a) for a in x.args])
        memo[x] = r
        return r
    import sys
    if t.depth > 300:
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    return go(t)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return seen


def rewrite(t, f, memo=None):
    """bottom-up rewriting: f(term) -> term or None"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            y = rebuild(x, [go(a) for a in x.args]) if x.args else x
            z = f(y)
            r = y if z is None else z
            memo[x] = r
        return r
    return go(t)


# --- evaluation on concrete values (floats / exact) ---------------------------------------------------------
class EvalError(Exception):
    pass


def evaluate(t, env, funcs=None, exact=False, memo=None):
    """env: term(var)->python value (arrays: callables or dict/list). Real arithmetic in float unless exact."""
    if memo is None: memo = {}
    mf = dict(sin=math.sin, cos=math.cos, sqrt=math.sqrt, exp=math.exp, atan=math.atan, asin=math.asin,
              acos=math.acos, atan2=math.atan2, tan=math.tan, log=math.log, pow=lambda a, b: a ** b, log10=math.log10,
              cat=lambda *a: ''.join(a), itos=lambda a: str(a), strlen=len)
    if funcs:
        mf.update(funcs)

    def arr(a, i):
        if callable(a): return a(i)
        return a[i]

    def go(x, loc):
        if not (loc and (fv(x) & set(loc))):
            if x in memo:
                return memo[x]
        r = go1(x, loc)
        if not (loc and (fv(x) & set(loc))):
            memo[x] = r
        return r

    def go1(x, loc):
        op = x.op
        if op == 'c':
            return float(x.val) if (x.sort == REAL and not exact) else x.val
        if op == 'v':
            if x in loc: return loc[x]
            if x in env: return env[x]
            if x is PI: return math.pi
            if callable(env.get('default')):
                env[x] = env['default'](x); return env[x]
            raise EvalError('no value for %r' % x)
        A = x.args
        if op == 'ite':
            return go(A[1], loc) if go(A[0], loc) else go(A[2], loc)
        if op == 'and': return all(go(a, loc) for a in A)
        if op == 'or': return any(go(a, loc) for a in A)
        if op == 'sum':
            lo, hi = go(A[2], loc), go(A[3], loc)
            s = 0
            for k in range(lo, hi):
                l2 = dict(loc); l2[A[0]] = k
                s = s + go(A[1], l2)
            return s
        if op == 'lam':
            def f(i, A=A, loc=loc):
                l2 = dict(loc); l2[A[0]] = i
                return go(A[1], l2)
            return f
        if op in ('forall', 'exists'):
            if any(b.sort != INT for b in A[:-1]) or len(A) > 3: raise EvalError('quantifier')
            res = op == 'forall'
            for k in itertools.product(range(-1, 12), repeat=len(A) - 1):
                l2 = dict(loc)
                for b, kk in zip(A[:-1], k): l2[b] = kk
                if bool(go(A[-1], l2)) != res: return not res
            return res
        v = [go(a, loc) for a in A]
        if op == '+': return sum(v[1:], v[0])
        if op == '*':
            r = v[0]
            for y in v[1:]: r = r * y
            return r
        if op == '/':
            if v[1] == 0: raise EvalError('div0')
            return v[0] / v[1]
        if op == 'tdiv':
            q = abs(v[0]) // abs(v[1]); return q if (v[0] >= 0) == (v[1] >= 0) else -q
        if op == 'tmod': return int(math.fmod(v[0], v[1]))
        if op == 'to_real': return float(v[0]) if not exact else v[0]
        if op == 'floor': return math.floor(v[0])
        if op == 'not': return not v[0]
        if op == '<': return v[0] < v[1]
        if op == '<=': return v[0] <= v[1]
        if op == '=': return v[0] == v[1]
        if op == 'select': return arr(v[0], v[1])
        if op == 'store':
            a, i, w = v
            return lambda j: w if j == i else arr(a, j)
        if op == 'constarr':
            return lambda j: v[0]
        if op == 'app':
            if x.val in mf:
                try:
                    return mf[x.val](*v)
                except (ValueError, OverflowError, ZeroDivisionError) as e:
                    raise EvalError(str(e))
            raise EvalError('function ' + x.val)
        raise EvalError(op)
    return go(t, {})


# --- differentiation ----------------------------------------------------------------------------------------
class NotDiff(Exception):
    pass


def diff(t, x, memo=None):
    memo = {} if memo is None else memo

    def go(u):
        if x not in fv(u):
            return R(0)
        r = memo.get(u)
        if r is not None:
            return r
        op, A = u.op, u.args
        if u is x:
            r = R(1)
        elif op == '+':
            r = add(*[go(a) for a in A])
        elif op == '*':
            r = R(0)
            for k, a in enumerate(A):
                if x in fv(a):
                    r = add(r, mul(*([go(a)] + [b for j, b in enumerate(A) if j != k])))
        elif op == '/':
            n, d = A
            if x in fv(d):
                nn = sub(mul(go(n), d), mul(n, go(d)))
                # the derivative is taken where the quotient is defined
                r = R(0) if nn is R(0) else div(nn, mul(d, d))
            else:
                r = div(go(n), d)
        elif op == 'ite':
            if x in fv(A[0]):
                # almost-everywhere derivative: the guard's boundary is excluded
                pass
            r = ite(A[0], go(A[1]), go(A[2]))
        elif op == 'sum':
            r = bsum(A[0], go(A[1]), A[2], A[3])
        elif op == 'app':
            f = u.val
            a = A[0]
            if f == 'sin': r = mul(cos(a), go(a))
            elif f == 'cos': r = mul(neg(sin(a)), go(a))
            elif f == 'exp': r = mul(u, go(a))
            elif f == 'sqrt': r = div(go(a), mul(R(2), u))
            elif f == 'atan2':
                y, xx = A
                r = div(sub(mul(xx, go(y)), mul(y, go(xx))), add(mul(xx, xx), mul(y, y)))
            elif f == 'atan': r = div(go(a), add(R(1), mul(a, a)))
            elif f == 'log': r = div(go(a), a)
            else: raise NotDiff(f)
        else:
            raise NotDiff(op)
        memo[u] = r
        return r
    return go(t)


# --- exact rational normal form: polynomials over atoms, with sin^2 = 1-cos^2 and sqrt(a)^2 = a ----------------
class Poly:
    __slots__ = ('d',)

    def __init__(self, d=None): self.d = d or {}
    def __add__(a, b):
        r = dict(a.d)
        for m, c in b.d.items():
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: r.pop(m, None)
        return Poly(r)
    def scale(a, k): return Poly({m: c * k for m, c in a.d.items()}) if k else Poly()
    def __sub__(a, b): return a + b.scale(-1)
    def iszero(a): return not a.d
    def const(a):
        if not a.d: return Fraction(0)
        if len(a.d) == 1 and () in a.d: return a.d[()]
        return None


class TooBig(Exception):
    pass


class Normalizer:
    def __init__(self, limit=200000):
        self.memo = {}
        self.limit = limit
        self.atoms = {}

    def mulp(self, a, b):
        if len(a.d) * len(b.d) > self.limit:
            raise TooBig()
        r = {}
        for m1, c1 in a.d.items():
            for m2, c2 in b.d.items():
                m = self.mm(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        r = {m: c for m, c in r.items() if c}
        return self.reduce(Poly(r))

    @staticmethod
    def mm(m1, m2):
        if not m1: return m2
        if not m2: return m1
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items(), key=lambda x: x[0].id))

    def reduce(self, p):
        """rewrite s^2 -> 1-c^2, sqrt(a)^2 -> a until none is left"""
        again = True
        while again:
            again = False
            r = {}
            for m, c in p.d.items():
                hit = None
                for k, (a, e) in enumerate(m):
                    if e >= 2 and a.op == 'app' and a.val in ('sin', 'sqrt'):
                        if a.val == 'sqrt' and self.rat(a.args[0])[1].const() is None:
                            self.frac = True; continue
                        hit = (k, a, e); break
                if hit is None:
                    r[m] = r.get(m, 0) + c
                    continue
                again = True
                k, a, e = hit
                rest = list(m[:k] + m[k + 1:])
                if e > 2:
                    rest.append((a, e - 2))
                rest = tuple(sorted(rest, key=lambda x: x[0].id))
                if a.val == 'sin':
                    ca = cos(a.args[0])
                    r[rest] = r.get(rest, 0) + c
                    m2 = self.mm(rest, ((ca, 2),))
                    r[m2] = r.get(m2, 0) - c
                else:
                    n, d = self.rat(a.args[0])
                    dc = d.const()
                    for mm_, cc in n.d.items():
                        m2 = self.mm(rest, mm_)
                        r[m2] = r.get(m2, 0) + c * cc / dc
            p = Poly({m: c for m, c in r.items() if c})
        return p

    def rat(self, t):
        """t as (numerator, denominator)"""
        r = self.memo.get(t)
        if r is not None:
            return r
        one = Poly({(): Fraction(1)})
        op = t.op
        if op == 'c':
            r = (Poly({(): Fraction(t.val)} if t.val else {}), one)
        elif op == '+':
            n, d = self.rat(t.args[0])
            for a in t.args[1:]:
                n2, d2 = self.rat(a)
                if d.d == d2.d:
                    n = n + n2
                elif d2.const() is not None:
                    n = n + self.mulp(n2, d).scale(1 / d2.const())
                elif d.const() is not None:
                    n, d = self.mulp(n, d2).scale(1 / d.const()) + n2, d2
                else:
                    n, d = self.mulp(n, d2) + self.mulp(n2, d), self.mulp(d, d2)
            r = (n, d)
        elif op == '*':
            n, d = self.rat(t.args[0])
            for a in t.args[1:]:
                n2, d2 = self.rat(a)
                n, d = self.mulp(n, n2), self.mulp(d, d2)
            r = (n, d)
        elif op == '/':
            n, d = self.rat(t.args[0]); n2, d2 = self.rat(t.args[1])
            r = (self.mulp(n, d2), self.mulp(d, n2))
        else:
            a = t
            if op == 'app':
                # canonicalise the argument so that syntactically different but equal arguments share an atom
                a = app(t.val, tuple(self.canon(x) if x.sort == REAL else x for x in t.args), t.sort)
                if a.op != 'app':
                    return self.rat(a)
                if a.val in ('sin', 'cos'):
                    ex = self.trigsum(a)
                    if ex is not None:
                        r = self.rat(ex); self.memo[t] = r; return r
            r = (Poly({((a, 1),): Fraction(1)}), one)
        if self.frac: r = self.clear(*r)
        self.memo[t] = r
        return r

    frac = False

    def clear(self, n, d):
        """sqrt(p/q)^2 -> p/q in numerator and denominator"""
        for side in (0, 1):
            while True:
                x = (n, d)[side]
                hit = next((a for m in x.d for a, e in m if e >= 2 and a.op == 'app' and a.val == 'sqrt' and self.rat(a.args[0])[1].const() is None), None)
                if hit is None: break
                p, q = self.rat(hit.args[0])
                w, wo = {}, {}
                for m, c in x.d.items():
                    e = dict(m).get(hit, 0)
                    if e >= 2: w[tuple((a, k - 2 if a is hit else k) for a, k in m if a is not hit or k > 2)] = c
                    else: wo[m] = c
                x = self.mulp(Poly(w), p) + self.mulp(Poly(wo), q)
                if side == 0: n, d = x, self.mulp(d, q)
                else: n, d = self.mulp(n, q), x
        return n, d

    expand_trig = True

    def trigsum(self, a):
        """sin/cos of a sum of >=2 terms -> angle addition formulas, so that all angle bookkeeping is polynomial"""
        x = a.args[0]
        if not self.expand_trig or x.op not in ('+', '*'):
            return None
        d, c = _lin(x)
        if len(d) == 1 and c == 0:
            (t0, k), = d.items()
            if k == 1 or Fraction(k).denominator != 1 or abs(k) > 4:
                if Fraction(k).denominator != 1 or abs(k) > 4 or k == 1:
                    return None
            if k < 0:
                return None
            rest = mul(_cst(k - 1, REAL), t0)
            u, v = t0, rest
        else:
            parts = [mul(_cst(k, REAL), t0) for t0, k in sorted(d.items(), key=lambda z: z[0].id)]
            if c != 0:
                parts.append(_cst(c, REAL))
            u, v = parts[0], add(*parts[1:])
        su, cu, sv, cv = sin(u), cos(u), sin(v), cos(v)
        return add(mul(su, cv), mul(cu, sv)) if a.val == 'sin' else sub(mul(cu, cv), mul(su, sv))

    def canon(self, t):
        n, d = self.rat(t)
        dc = d.const()
        if dc is not None and dc != 0:
            return self.unpoly(n.scale(1 / dc))
        return div(self.unpoly(n), self.unpoly(d))

    def unpoly(self, p):
        r = R(0)
        for m, c in sorted(p.d.items(), key=lambda x: [(a.id, e) for a, e in x[0]]):
            fs = [R(c)]
            for a, e in m:
                fs += [a] * e
            r = add(r, mul(*fs))
        return r

    def zero(self, t):
        n, d = self.rat(t)
        return n.iszero()


def rat_equal(a, b):
    """a == b as rational functions over the atoms (valid wherever no denominator vanishes)"""
    try:
        return Normalizer().zero(sub(a, b))
    except TooBig:
        return None


# --- printing -----------------------------------------------------------------------------------------------
def pp(t, d=0):
    if t.op == 'c':
        return repr(t.val) if t.sort == STR else str(t.val)
    if t.op == 'v':
        return str(t.val)
    if d > 12:
        return '...'
    a = [pp(x, d + 1) for x in t.args]
    if t.op in ('+', '*', '/', '<', '<=', '=', 'and', 'or'):
        return '(' + (' %s ' % t.op).join(a) + ')'
    if t.op == 'app':
        return '%s(%s)' % (t.val, ', '.join(a))
    if t.op == 'select':
        return '%s[%s]' % tuple(a)
    return '%s(%s)' % (t.op, ', '.join(a))
