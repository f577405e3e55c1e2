"""Assumed contracts of the C++ standard library / boost types the code uses (each use is recorded in ex.notes)."""
from . import terms as t
from .terms import INT, REAL, BOOL, STR, ARR
from .ir import SCAL


def TL(m):
    from .symex import ToolLimit
    raise ToolLimit(m)


def V(ty, l):
    from .symex import Val
    return Val(ty, l)


def mkptr(alts):
    from .symex import Ptr
    return Ptr(alts)


NOEFFECT = {'printf', 'fprintf', 'puts', 'fflush', 'flush', 'putchar', 'fputs', 'fputc', 'MPI_Wtime', 'endl', 'setw', 'setprecision',
            'precision', 'width', 'setf', 'GA_Sync', 'srand', 'rdbuf', 'perror', 'snprintf_', 'write_'}
MATH1 = {'sin', 'cos', 'exp', 'sqrt', 'asin', 'acos', 'atan', 'log', 'log10', 'sinh', 'cosh', 'tanh'}


def real(v):
    x = v.x
    return t.to_real(x if x.sort != BOOL else t.ite(x, t.I(1), t.I(0)))


def order(a, b):
    """result of comparing two strings: its sign is what the program can rely on"""
    return t.ite(t.eq(a, b), t.I(0), t.ite(t.app('strlt', (a, b), BOOL), t.I(-1), t.I(1)))


def args_of(ex, e, st, start=0):
    return [ex.ev(a, st) for a in e['args'][start:]]


def cparts(v):
    if '.re' in v.l: return v.l['.re'], v.l['.im']
    return real(v), t.R(0)


def cmul(a, b):
    return (t.sub(t.mul(a[0], b[0]), t.mul(a[1], b[1])), t.add(t.mul(a[0], b[1]), t.mul(a[1], b[0])))


def cdiv(a, b):
    d = t.add(t.mul(b[0], b[0]), t.mul(b[1], b[1]))
    n = cmul(a, (b[0], t.neg(b[1])))
    return (t.div(n[0], d), t.div(n[1], d))


def cop(op, a, b):
    if op == '+': return (t.add(a[0], b[0]), t.add(a[1], b[1]))
    if op == '-': return (t.sub(a[0], b[0]), t.sub(a[1], b[1]))
    if op == '*': return cmul(a, b)
    if op == '/':
        if b[1].op == 'c' and b[1].val == 0: return (t.div(a[0], b[0]), t.div(a[1], b[0]))
        return cdiv(a, b)
    TL('complex ' + op)


def call(ex, e, st, name, short):
    args = e['args']
    is_op = 'opcall' in e
    if e['k'] == 'mcall':
        return member(ex, e, st, name, short)
    if is_op:
        return opcall(ex, e, st, name, e['opcall'])
    if short in NOEFFECT:
        for a in args:
            try: ex.ev(a, st)
            except Exception as x:
                if x.__class__.__name__ not in ('ToolLimit',): raise
        return V(e['t'], {'': t.fresh('io', INT)}) if e['t'].k != 'void' else None
    if short in ('__assert_fail', 'abort', 'exit', '_exit', '__throw_out_of_range', 'MPI_Abort', 'GA_Error'):
        ex.throws.append(st.clone())
        st.pc.append(t.FALSE)
        return None
    if short in MATH1 or short in ('tan', 'atan2', 'pow', 'fabs', 'abs', 'floor', 'ceil', 'fmod', 'max', 'min', 'norm', 'real', 'imag', 'conj', 'arg',
                                   'polar', 'isnan', 'isinf', 'round', 'sqrtf', 'fabsf', 'hypot', 'fmax', 'fmin', '__isnan', 'log1p', 'labs'):
        return mathcall(ex, e, st, name, short)
    if short in ('sprintf', 'snprintf', '__builtin_sprintf'):
        return sprintf(ex, e, st, short)
    if short == 'make_pair':
        a = args_of(ex, e, st)
        ty = e['t']
        l = {'.first' + k: v for k, v in ex.conv(a[0], ty.args[0]).l.items()}
        l.update({'.second' + k: v for k, v in ex.conv(a[1], ty.args[1]).l.items()})
        return V(ty, l)
    if short in ('dynamic_pointer_cast', 'static_pointer_cast', 'move', 'forward', 'ref', 'cref', 'get_pointer', 'addressof', 'const_pointer_cast'):
        if short in ('move', 'forward'): return ex.lv_or_temp(args[0], st)
        return V(e['t'], ex.ev(args[0], st).l)
    if short in ('strcmp', 'strcasecmp'):
        a = args_of(ex, e, st)
        if short == 'strcmp':
            return V(e['t'], {'': order(a[0].x, a[1].x)})
        return V(e['t'], {'': t.app(short, (a[0].x, a[1].x), INT)})
    if short in ('strlen',):
        return V(e['t'], {'': t.app('strlen', (ex.ev(args[0], st).x,), INT)})
    if short in ('atoi', 'atof', 'strtol', 'strtod'):
        so = INT if short in ('atoi', 'strtol') else REAL
        return V(e['t'], {'': t.app(short, (ex.ev(args[0], st).x,), so)})
    if short == 'to_string':
        return V(e['t'], {'': itos(ex.ev(args[0], st).x)})
    if short == 'strcpy':
        v = ex.ev(args[1], st)
        strdest(ex, args[0], v.x, st)
        return v
    if short == 'strncpy':
        v, n = ex.ev(args[1], st), ex.ev(args[2], st).x
        strdest(ex, args[0], t.app('strncpy', (v.x, n), STR), st)      # unterminated until a zero byte is put behind it
        return v
    if short == 'swap' and len(args) == 2:
        a, b = ex.lv(args[0], st), ex.lv(args[1], st)
        va, vb = ex.readg(st, a), ex.readg(st, b)
        ex.writeg(st, a, V(va.ty, vb.l)); ex.writeg(st, b, V(vb.ty, va.l))
        return None
    if short in ('find', 'count', 'accumulate', 'fill', 'copy') and name.startswith('std::'):
        r = algorithm(ex, e, st, short)
        if r is not NotImplemented: return r
    if short == 'getline' or name.startswith('boost::algorithm'):
        TL('library function ' + name)
    if short in ('free', 'operator delete', 'operator delete[]'):
        return None
    TL('call of %s, line %s' % (name, e.get('l')))


def itos(x):
    if x.op == 'c': return t.S(str(x.val))
    return t.app('itos', (x,), STR)


def cat(*xs):
    out = []
    for x in xs:
        if x.op == 'app' and x.val == 'cat': out += list(x.args)
        else: out.append(x)
    r = []
    for x in out:
        if x.op == 'c' and r and r[-1].op == 'c': r[-1] = t.S(r[-1].val + x.val)
        elif x.op == 'c' and x.val == '': continue
        else: r.append(x)
    if not r: return t.S('')
    if len(r) == 1: return r[0]
    return t.app('cat', tuple(r), STR)


def strdest(ex, a, val, st):
    """assign a string to the char array / char* expression a"""
    x = a
    while x['k'] == 'cast' and x['ck'] in ('ArrayToPointerDecay', 'NoOp', 'LValueToRValue', 'BitCast'): x = x['e']
    lvs = ex.lv(x, st)
    ex.writeg(st, lvs, V(lvs[0][1].ty, {'': val}))


def sprintf(ex, e, st, short):
    import re
    args = e['args']
    dest = args[0]
    rest = args[1:] if short != 'snprintf' else args[2:]
    fmt = ex.ev(rest[0], st).x
    vals = [ex.ev(a, st) for a in rest[1:]]
    if fmt.op == 'c':
        parts = re.split(r'(%[-+ 0-9.*]*l{0,2}[a-zA-Z%])', fmt.val)
        out, k, ub = [], 0, 0                # ub: upper bound of the length, None if unknown
        for p in parts:
            if p.startswith('%') and len(p) > 1:
                if p == '%%': out.append(t.S('%')); continue
                if k >= len(vals): TL('sprintf arguments')
                v = vals[k].x; k += 1
                w = vals[k - 1].ty
                n = len(v.val) if v.op == 'c' and isinstance(v.val, str) else {32: 11, 16: 6, 64: 20}.get(w.bits) if w is not None and w.k == 'int' and p in ('%d', '%i', '%ld', '%u') else None
                ub = None if n is None or ub is None else ub + n
                if p == '%s': out.append(v)
                elif p in ('%d', '%i', '%ld', '%u'): out.append(itos(v))
                else: out.append(t.app('fmt', (t.S(p), v), STR))
            elif p:
                out.append(t.S(p))
                if ub is not None: ub += len(p)
        s = cat(*out)
    else:
        ub = None
        s = t.app('sprintf%d' % len(vals), (fmt,) + tuple(v.x for v in vals), STR)
    x = dest
    while x['k'] == 'cast' and x['ck'] in ('ArrayToPointerDecay', 'NoOp', 'BitCast'): x = x['e']
    if x['t'].k == 'arr' and x['t'].n and ex.safety:
        ex.oblige(st, 'safety', 'sprintf fits in char[%d]' % x['t'].n, e.get('l'), t.TRUE if ub is not None and ub < x['t'].n else t.lt(strlen(s), t.I(x['t'].n)))
    strdest(ex, dest, s, st)
    return V(e['t'], {'': t.fresh('sprintf', INT)})


def strlen(s):
    if s.op == 'c': return t.I(len(s.val))
    if s.op == 'app' and s.val == 'cat': return t.add(*[strlen(x) for x in s.args])
    return t.app('strlen', (s,), INT)


def mathcall(ex, e, st, name, short):
    ty = e['t']
    a = args_of(ex, e, st)
    if any('.re' in v.l for v in a):
        z = [cparts(v) for v in a]
        x, y = z[0]
        if short == 'real': return V(ty, {'': x})
        if short == 'imag': return V(ty, {'': y})
        if short == 'conj': return V(ty, {'.re': x, '.im': t.neg(y)})
        if short == 'norm': return V(ty, {'': t.add(t.mul(x, x), t.mul(y, y))})
        if short in ('abs',): return V(ty, {'': t.sqrt(t.add(t.mul(x, x), t.mul(y, y)))})
        if short == 'arg': return V(ty, {'': t.app('atan2', (y, x), REAL)})
        if short == 'exp': return V(ty, {'.re': t.mul(t.exp(x), t.cos(y)), '.im': t.mul(t.exp(x), t.sin(y))})
        if short in ('pow',) and len(z) == 1:
            pass
        if short in ('sqrt', 'pow'):
            flat = tuple(q for c in z for q in c)
            return V(ty, {'.re': t.app('c%s_re' % short, flat, REAL), '.im': t.app('c%s_im' % short, flat, REAL)})
        TL('complex ' + short)
    if short == 'polar':
        r, th = real(a[0]), real(a[1]) if len(a) > 1 else t.R(0)
        return V(ty, {'.re': t.mul(r, t.cos(th)), '.im': t.mul(r, t.sin(th))})
    if short == 'real': return V(ty, {'': real(a[0])})
    if short == 'imag': return V(ty, {'': t.R(0)})
    if short == 'conj': return V(ty, {'.re': real(a[0]), '.im': t.R(0)} if ty.k == 'rec' else {'': real(a[0])})
    if short == 'norm': return V(ty, {'': t.mul(real(a[0]), real(a[0]))})
    if short in ('max', 'min', 'fmax', 'fmin'):
        x, y = a[0].x, a[1].x
        if short in ('fmax', 'fmin'): x, y = t.to_real(x), t.to_real(y)
        # std::max(a,b) = (a<b)?b:a ; std::min(a,b) = (b<a)?b:a
        r = t.ite(t.lt(x, y), y, x) if short in ('max', 'fmax') else t.ite(t.lt(y, x), y, x)
        return V(ty if ty.k != 'ref' else ty.to, {'': r})
    if short in ('fabs', 'abs', 'labs', 'fabsf'):
        x = a[0].x
        if ty.k == 'int':
            return V(ty, {'': t.ite(t.le(t.I(0), x), x, t.neg(x))})
        return V(ty, {'': t.fabs(real(a[0]))})
    if short == 'floor': return V(ty, {'': t.to_real(t.floor_(real(a[0])))})
    if short == 'ceil': return V(ty, {'': t.to_real(t.neg(t.floor_(t.neg(real(a[0])))))})
    if short in ('isnan', 'isinf', '__isnan'):
        ex.notes.add('real arithmetic: no NaN or infinity arises')
        return V(ty, {'': t.FALSE if ty.k == 'bool' else t.I(0)})
    if short == 'pow':
        x, y = real(a[0]), real(a[1])
        if y.op == 'c' and y.val.denominator == 1 and abs(y.val) <= 6:
            n = int(y.val)
            if n == 0: return V(ty, {'': t.R(1)})
            r = x ** abs(n)
            return V(ty, {'': r if n > 0 else t.div(t.R(1), r)})
        if y.op == 'c' and y.val == t.Fraction(1, 2): return V(ty, {'': t.sqrt(x)})
        return V(ty, {'': t.app('pow', (x, y), REAL)})
    if short == 'hypot':
        x, y = real(a[0]), real(a[1])
        return V(ty, {'': t.sqrt(t.add(t.mul(x, x), t.mul(y, y)))})
    if short == 'fmod':
        x, y = real(a[0]), real(a[1])
        z = t.div(x, y)
        return V(ty, {'': t.ite(t.le(t.R(0), z), t.sub(x, t.mul(y, t.to_real(t.floor_(z)))), t.add(x, t.mul(y, t.to_real(t.floor_(t.neg(z))))))})
    if short == 'tan':
        x = real(a[0])
        return V(ty, {'': t.div(t.sin(x), t.cos(x))})
    return V(ty, {'': t.app(short, tuple(real(v) for v in a), REAL)})


def objkind(ex, ty):
    if ty.k == 'ref': ty = ty.to
    return ex.P.kind(ty)


from .ir import ITER


def opcall(ex, e, st, name, op):
    args = e['args']
    ty = e['t']
    k0 = objkind(ex, args[0]['t'])
    k1 = objkind(ex, args[1]['t']) if len(args) > 1 else None
    if op == '<<' or op == '>>':
        if op == '<<' and k0 == 'opaque' and ('ostream' in args[0]['t'].s or 'stream' in args[0]['t'].s):
            for a in args[1:]:
                if a['t'].k == 'func' or a['k'] == 'fn': continue
                try: ex.ev_void(a, st)
                except Exception as x:
                    if x.__class__.__name__ not in ('ToolLimit', '_Value'): raise
            return ex.lv_or_temp(args[0], st)
        TL('operator' + op + ' on ' + args[0]['t'].s)
    if k0 == 'complex' or k1 == 'complex':
        if op in ('+', '-', '*', '/') and len(args) == 2:
            a, b = ex.ev(args[0], st), ex.ev(args[1], st)
            r = cop(op, cparts(a), cparts(b))
            return V(ty, {'.re': r[0], '.im': r[1]})
        if op == '-' and len(args) == 1:
            a = cparts(ex.ev(args[0], st))
            return V(ty, {'.re': t.neg(a[0]), '.im': t.neg(a[1])})
        if op == '+' and len(args) == 1: return ex.ev(args[0], st)
        if op in ('==', '!='):
            a, b = cparts(ex.ev(args[0], st)), cparts(ex.ev(args[1], st))
            c = t.and_(t.eq(a[0], b[0]), t.eq(a[1], b[1]))
            return V(ty, {'': c if op == '==' else t.not_(c)})
        if op in ('=', '+=', '-=', '*=', '/='):
            b = cparts(ex.ev(args[1], st))
            lvs = ex.lv(args[0], st)
            if op != '=':
                b = cop(op[0], cparts(ex.readg(st, lvs)), b)
            ex.writeg(st, lvs, V(ex.nonconst(args[0]['t']), {'.re': b[0], '.im': b[1]}))
            return lvs
    if op == '=':
        # implicit copy/move assignment
        lvs = ex.lv_or_temp(args[0], st)
        tty = ex.nonconst(args[0]['t'])
        if tty.name == 'std::_Bit_reference': tty = lvs[0][1].ty
        if args[1]['t'].k == 'int' and k0 == 'ptr':
            v = ex.default(tty)
        else:
            v = ex.ev(args[1], st)
        ex.writeg(st, lvs, ex.conv(v, tty))
        return lvs
    if op == '[]' and k0 in ('vec', 'arr'):
        lvs = ex.lv_or_temp(args[0], st)
        i = ex.ev(args[1], st).x
        return index(ex, lvs, i, st, e)
    if op == '[]' and k0 == 'map':
        lvs = ex.lv_or_temp(args[0], st)
        key = keyterm(ex, ex.ev(args[1], st))
        return mapindex(ex, lvs, key, st)
    if op == '[]' and k0 == 'ptr':
        v = ex.ev(args[0], st)
        return ex.ptrelem(v, ex.nonconst(args[0]['t']), ex.ev(args[1], st).x, st)
    if op in ('->', '*') and len(args) == 1:
        if iskind_iter(args[0]['t']):
            return iterderef(ex, args[0], st, op, e)
        v = ex.ev(args[0], st)
        if op == '->': return V(ty, v.l)
        return ex.deref(v, ex.nonconst(args[0]['t']))
    if iskind_iter(args[0]['t']):
        return iterop(ex, e, st, op)
    if k0 == 'str' or k1 == 'str':
        if op in ('==', '!='):
            a, b = ex.ev(args[0], st).x, ex.ev(args[1], st).x
            c = t.eq(a, b)
            return V(ty, {'': c if op == '==' else t.not_(c)})
        if op == '+':
            a, b = ex.ev(args[0], st), ex.ev(args[1], st)
            if a.x.sort != STR or b.x.sort != STR: TL('string + char')
            return V(ty, {'': cat(a.x, b.x)})
        if op == '+=':
            b = ex.ev(args[1], st)
            if b.x.sort != STR: TL('string += char')
            lvs = ex.lv(args[0], st)
            a = ex.readg(st, lvs)
            ex.writeg(st, lvs, V(a.ty, {'': cat(a.x, b.x)}))
            return lvs
        if op in ('<', '>'):
            a, b = ex.ev(args[0], st).x, ex.ev(args[1], st).x
            if op == '>': a, b = b, a
            return V(ty, {'': t.app('strlt', (a, b), BOOL)})
    if op in ('==', '!=') and (k0 == 'ptr' or k1 == 'ptr'):
        a, b = ex.ev(args[0], st), ex.ev(args[1], st)
        r = ex.ptreq(a, b)
        return V(ty, {'': r if op == '==' else t.not_(r)})
    if op in ('==', '!=') and k0 == 'pair':
        a, b = ex.ev(args[0], st), ex.ev(args[1], st)
        r = t.and_(*[t.eq(a.l[k], b.l[k]) for k in a.l])
        return V(ty, {'': r if op == '==' else t.not_(r)})
    if op == '!' and k0 == 'ptr':
        return V(ty, {'': t.not_(ex.tobool(ex.ev(args[0], st)))})
    TL('operator%s on %s, line %s' % (op, args[0]['t'].s, e.get('l')))


def keyterm(ex, v):
    ks = list(v.l)
    if len(ks) == 1: return v.l[ks[0]]
    TL('composite map key')


def index(ex, lvs, i, st, e=None):
    if ex.safety:
        for g, l, *_ in lvs:
            if ex.P.kind(l.ty) == 'vec':
                n = ex.read(st, l).l['#n']
                ex.oblige(st, 'safety', 'vector index in range', e.get('l') if e else 0, t.implies(g, t.and_(t.le(t.I(0), i), t.lt(i, n))))
    return [(g, ex.elem(l, i), None) for g, l, *_ in lvs]


def mapindex(ex, lvs, key, st):
    out = []
    for g, l, *_ in lvs:
        l = ex.asloc(l)
        m = ex.read(st, l)
        has = t.select(m.l['?'], key)
        vt = l.ty.args[1]
        # insert a value-initialised element when the key is new
        d = ex.default(vt) if ex.P.kind(vt) in ('str', 'vec', 'map', 'set') else (ex.zero(vt) if vt.k in SCAL or ex.P.kind(vt) in ('ptr', 'complex') else None)
        new = dict(m.l)
        new['?'] = t.store(m.l['?'], key, t.TRUE)
        new['#n'] = t.add(m.l['#n'], t.ite(has, t.I(0), t.I(1)))
        for suf, so in ex.P.leaves(vt):
            dv = d.l[suf] if d else t.fresh('dflt', so)
            old = t.select(m.l['[]' + suf], key)
            new['[]' + suf] = t.store(m.l['[]' + suf], key, t.ite(has, old, dv))
        ex.writeg(st, [(g, l, None)] if g is t.TRUE else [(g, l, None), (t.not_(g), l, None)][:1], V(l.ty, new)) if g is t.TRUE else TL('conditional map')
        from .symex import Loc
        out.append((g, Loc(l.root, l.idx + (key,), l.path + '[]', vt), None))
    return out


def iskind_iter(ty):
    if ty.k == 'ref': ty = ty.to
    return ty.k == 'rec' and ty.name in ITER


def itval(ex, ty, place, l):
    d = dict(l)
    d['^p'] = mkptr([(t.TRUE, place, None)])
    return V(ty, d)


def algorithm(ex, e, st, short):
    """algorithms of the standard library over a range of one vector"""
    args = e['args']
    a = [ex.ev(x, st) for x in args]
    if len(a) < 3 or not all('#i' in x.l and '^p' in x.l for x in a[:2]): return NotImplemented
    pls = [x.l['^p'].alts[0][1] for x in a[:2]]
    if any(len(x.l['^p'].alts) != 1 for x in a[:2]): return NotImplemented
    if not all(hasattr(p, 'root') and ex.P.kind(p.ty) == 'vec' for p in pls): return NotImplemented
    if (pls[0].root, pls[0].idx, pls[0].path) != (pls[1].root, pls[1].idx, pls[1].path): return NotImplemented
    place, lo, hi = pls[0], a[0].l['#i'], a[1].l['#i']
    v = ex.read(st, place)
    et = place.ty.args[0]
    if ex.safety: ex.oblige(st, 'safety', 'range of %s' % short, e.get('l'), t.and_(t.le(t.I(0), lo), t.le(lo, hi), t.le(hi, v.l['#n'])))
    ls = ex.P.leaves(et)
    at = lambda suf, i: t.select(v.l['[]' + suf], i)
    if short in ('find', 'count'):
        if len(a) != 3 or len(ls) != 1 or et.k == 'rec' and ex.P.kind(et) not in ('str',): return NotImplemented
        x = ex.conv(a[2], et).x
        hit = lambda i: t.eq(at('', i), x)
        if short == 'count':
            j = t.fresh('j', INT)
            return V(e['t'], {'': t.bsum(j, t.ite(hit(j), t.I(1), t.I(0)), lo, hi)})
        kc = t.var('k!exit', INT)
        cache = ex.__dict__.setdefault('exit_index', {})
        ck = (hi, t.and_(t.lt(kc, hi), t.not_(hit(kc)))) if lo is t.I(0) else (lo, hi, t.not_(hit(kc)))
        K = cache.get(ck)
        if K is None: K = cache[ck] = t.fresh('K', INT)
        j = t.fresh('j', INT)
        for f in (t.le(lo, K), t.le(K, hi), t.forall([j], t.implies(t.and_(t.le(lo, j), t.lt(j, K)), t.not_(hit(j)))), t.implies(t.lt(K, hi), hit(K))): ex.assume_in(st, t.implies(t.le(lo, hi), f))
        return itval(ex, e['t'], place, {'#i': K})
    if short == 'accumulate':
        if len(a) != 3 or len(ls) != 1 or et.k not in SCAL: return NotImplemented
        r = e['t']
        if r.k not in ('int', 'float') or (r.k == 'int') != (et.k == 'int'): return NotImplemented
        j = t.fresh('j', INT)
        return V(r, {'': t.add(ex.conv(a[2], r).x, t.bsum(j, at('', j), lo, hi))})
    l = dict(v.l)
    if short == 'fill':
        x = ex.conv(a[2], et)
        for suf, so in ls:
            j = t.fresh('j', INT)
            l['[]' + suf] = t.lam(j, t.ite(t.and_(t.le(lo, j), t.lt(j, hi)), x.l[suf], at(suf, j)))
        ex.write(st, place, V(place.ty, l))
        return None
    if short == 'copy':
        if '#i' not in a[2].l or len(a[2].l['^p'].alts) != 1: return NotImplemented
        to = a[2].l['^p'].alts[0][1]
        if not hasattr(to, 'root') or ex.P.kind(to.ty) != 'vec' or (to.root, to.idx, to.path) == (place.root, place.idx, place.path) or to.ty.args[0].s != et.s: return NotImplemented
        w, d = ex.read(st, to), a[2].l['#i']
        if ex.safety: ex.oblige(st, 'safety', 'room for the copy', e.get('l'), t.and_(t.le(t.I(0), d), t.le(t.add(d, t.sub(hi, lo)), w.l['#n'])))
        l = dict(w.l)
        for suf, so in ls:
            j = t.fresh('j', INT)
            l['[]' + suf] = t.lam(j, t.ite(t.and_(t.le(d, j), t.lt(t.sub(j, d), t.sub(hi, lo))), at(suf, t.add(t.sub(j, d), lo)), t.select(w.l['[]' + suf], j)))
        ex.write(st, to, V(to.ty, l))
        return itval(ex, e['t'], to, {'#i': t.add(d, t.sub(hi, lo))})
    return NotImplemented


def range_of(ex, a, et):
    """(vector value, first, last) of two iterators into one vector with elements of the type"""
    if len(a) != 2 or not all('#i' in x.l and '^p' in x.l and len(x.l['^p'].alts) == 1 for x in a): return None
    p, q = (x.l['^p'].alts[0][1] for x in a)
    if not all(hasattr(z, 'root') and ex.P.kind(z.ty) == 'vec' for z in (p, q)) or (p.root, p.idx, p.path) != (q.root, q.idx, q.path) or p.ty.args[0].s != et.s: return None
    return p, a[0].l['#i'], a[1].l['#i']


def iterderef(ex, a, st, op, e):
    v = ex.ev(a, st)
    place = v.l['^p'].alts[0][1]
    from .symex import Loc
    k = ex.P.kind(place.ty)
    if k == 'vec':
        r = index(ex, [(t.TRUE, place, None)], v.l['#i'], st, e)
        if op == '*': return r
        return V(e['t'], {'^p': mkptr(r)})
    if k == 'map':
        if ex.safety:
            ex.oblige(st, 'safety', 'map iterator is dereferenceable', e.get('l'), t.not_(v.l['#e']))
        pl = _MapEntry(place, v.l['#k'])
        if op == '->': return V(e['t'], {'^p': mkptr([(t.TRUE, pl, None)])})
        return [(t.TRUE, pl, None)]
    if k == 'set' and op == '*':
        return V(place.ty.args[0], {ex.P.leaves(place.ty.args[0])[0][0]: v.l['#k']})
    TL('iterator dereference')


from .symex import Loc as _Loc


class _MapEntry(_Loc):
    """(key,value) pair of a map designated by an iterator"""
    __slots__ = ('key', 'place')

    def __init__(self, place, key):
        _Loc.__init__(self, place.root, place.idx, place.path, _EntryTy(place.ty))
        self.key, self.place = key, place


class _EntryTy:
    k = 'entry'; const = False

    def __init__(self, m):
        self.s, self.name, self.args, self._leaves, self.n, self.elem = 'entry', None, m.args, None, None, None


def iterop(ex, e, st, op):
    args = e['args']
    ty = e['t']
    if op in ('==', '!='):
        a, b = ex.ev(args[0], st), ex.ev(args[1], st)
        if '#i' in a.l: c = t.eq(a.l['#i'], b.l['#i'])
        else: c = t.or_(t.and_(a.l['#e'], b.l['#e']), t.and_(t.not_(a.l['#e']), t.not_(b.l['#e']), t.eq(a.l['#k'], b.l['#k'])))
        return V(ty, {'': c if op == '==' else t.not_(c)})
    if op in ('++', '--', '+', '-', '+=') :
        if op in ('+', '-'):
            a, b = ex.ev(args[0], st), ex.ev(args[1], st)
            if '#i' not in a.l: TL('map iterator arithmetic')
            if '#i' in b.l: return V(ty, {'': t.sub(a.l['#i'], b.l['#i'])})
            l = dict(a.l); l['#i'] = t.add(a.l['#i'], b.x) if op == '+' else t.sub(a.l['#i'], b.x)
            return V(ty, l)
        lvs = ex.lv_or_temp(args[0], st)
        v = ex.readg(st, lvs)
        if '#i' not in v.l: TL('iteration over a map')
        l = dict(v.l)
        d = t.I(1) if op == '++' else t.I(-1)
        if op == '+=': d = ex.ev(args[1], st).x
        l['#i'] = t.add(l['#i'], d)
        ex.writeg(st, lvs, V(v.ty, l))
        if len(args) == 2 and op in ('++', '--'): return V(ty, v.l)     # postfix
        return lvs
    TL('iterator ' + op)


def member(ex, e, st, name, short):
    args = e['args']
    ty = e['t']
    b = e['b']
    if b['t'].k == 'ptr' or e.get('arrow'): oty = ex.P.target(b['t']) if b['t'].k in ('ptr', 'ref') or b['t'].k == 'rec' else b['t']
    else: oty = b['t']
    if oty.k == 'ref': oty = oty.to
    if oty.name == 'std::_Bit_reference':
        v = ex.readg(st, ex.lv_or_temp(b, st))
        if short == 'operator bool': return V(ty, {'': v.x})
        if short == 'operator=':
            x = ex.ev(args[0], st)
            lvs = ex.lv_or_temp(b, st)
            ex.writeg(st, lvs, ex.conv(V(ty, x.l) if False else x, lvs[0][1].ty)); return lvs
    k = ex.P.kind(oty)
    if iskind_iter(oty):
        k = 'iter'
    if k == 'vec': return vec(ex, e, st, short)
    if k == 'str': return string(ex, e, st, short)
    if k == 'complex':
        lvs = ex.base_places(e, st)
        v = ex.readg(st, lvs)
        if short in ('real', 'imag') and not args:
            return V(ty, {'': v.l['.re' if short == 'real' else '.im']})
        if short in ('real', 'imag'):
            l = dict(v.l); l['.re' if short == 'real' else '.im'] = real(ex.ev(args[0], st))
            ex.writeg(st, lvs, V(v.ty, l)); return None
    if k in ('map', 'set'): return mapm(ex, e, st, short, k)
    if k == 'ptr':
        if short in ('get', 'lock'): return V(ty, ex.ev(b, st).l if not e.get('arrow') else ex.readg(st, ex.base_places(e, st)).l)
        if short == 'operator bool' or short.startswith('operator'):
            v = ex.readg(st, ex.base_places(e, st))
            return V(ty, {'': ex.tobool(v)})
        if short == 'reset':
            lvs = ex.base_places(e, st)
            pty = lvs[0][1].ty
            if args:
                ex.writeg(st, lvs, ex.conv(ex.ev(args[0], st), pty))
            else: ex.writeg(st, lvs, ex.default(pty))
            return None
        if short == 'expired':
            v = ex.readg(st, ex.base_places(e, st))
            return V(ty, {'': t.not_(ex.tobool(v))})
    if k == 'opaque' and ('stream' in oty.s or 'Coarse' in oty.s):
        for a in args: ex.ev_void(a, st)
        return V(ty, {s: t.fresh('io', so) for s, so in ex.P.leaves(ty)}) if ty.k != 'void' else None
    if short in NOEFFECT:
        return V(ty, {s: t.fresh('io', so) for s, so in ex.P.leaves(ty)}) if ty.k != 'void' else None
    if k == 'arr':
        if short == 'size': return V(ty, {'': t.I(oty.args[1])})
        if short in ('at',): return index(ex, ex.base_places(e, st), ex.ev(args[0], st).x, st, e)
    TL('member call %s on %s, line %s' % (name, oty.s, e.get('l')))


def vec(ex, e, st, short):
    args = e['args']
    ty = e['t']
    lvs = ex.base_places(e, st)
    if len(lvs) != 1: TL('conditional vector')
    place = lvs[0][1]
    if not hasattr(place, 'root'): place = ex.asloc(place)
    v = ex.read(st, place)
    n = v.l['#n']
    et = place.ty.args[0]
    if short in ('size', 'length'): return V(ty, {'': n})
    if short == 'empty': return V(ty, {'': t.eq(n, t.I(0))})
    if short in ('at', 'operator[]'): return index(ex, lvs, ex.ev(args[0], st).x, st, e)
    if short in ('front',): return index(ex, lvs, t.I(0), st, e)
    if short in ('back',): return index(ex, lvs, t.sub(n, t.I(1)), st, e)
    if short in ('push_back', 'emplace_back'):
        x = ex.conv(ex.ev(args[0], st), et)
        v = ex.read(st, place)
        n = v.l['#n']
        l = dict(v.l)
        l['#n'] = t.add(n, t.I(1))
        for suf, so in ex.P.leaves(et):
            l['[]' + suf] = t.store(v.l['[]' + suf], n, x.l[suf])
        ex.write(st, place, V(place.ty, l))
        return None
    if short == 'pop_back':
        l = dict(v.l); l['#n'] = t.sub(n, t.I(1)); ex.write(st, place, V(place.ty, l)); return None
    if short == 'clear':
        l = dict(v.l); l['#n'] = t.I(0); ex.write(st, place, V(place.ty, l)); return None
    if short == 'reserve': return None
    if short == 'resize':
        m = ex.ev(args[0], st).x
        fill = ex.conv(ex.ev(args[1], st), et) if len(args) > 1 and args[1]['k'] != 'zero' else None
        if fill is None and (et.k in SCAL or ex.P.kind(et) in ('complex', 'ptr', 'str')): fill = ex.zero(et)
        if fill is None and ex.P.kind(et) == 'vec':
            fill = ex.default(et)
        l = dict(v.l); l['#n'] = m
        for suf, so in ex.P.leaves(et):
            j = t.fresh('j', INT)
            fv_ = fill.l[suf] if fill else t.fresh('dflt', so)
            if n is t.I(0): l['[]' + suf] = t.constarr(INT, fv_)
            else: l['[]' + suf] = t.lam(j, t.ite(t.lt(j, n), t.select(v.l['[]' + suf], j), fv_))
        ex.write(st, place, V(place.ty, l)); return None
    if short == 'assign' and len(args) == 2 and args[0]['t'].k == 'int':
        m = ex.ev(args[0], st).x; fill = ex.conv(ex.ev(args[1], st), et)
        l = dict(v.l); l['#n'] = m
        for suf, so in ex.P.leaves(et): l['[]' + suf] = t.constarr(INT, fill.l[suf])
        ex.write(st, place, V(place.ty, l)); return None
    if short == 'insert' and len(args) == 3 or short == 'assign' and len(args) == 2:
        a = [ex.ev(x, st) for x in args]
        r = range_of(ex, a[-2:], et)
        if r is not None and (short == 'assign' or '#i' in a[0].l and a[0].l['#i'] is n):
            src = ex.read(st, r[0])
            if short == 'assign': n = t.I(0)
            m = t.sub(r[2], r[1])
            l = dict(v.l); l['#n'] = t.add(n, m)
            for suf, so in ex.P.leaves(et):
                x = src.l['[]' + suf]
                if m.op == 'c' and 0 <= m.val <= 8:
                    for i in range(m.val): l['[]' + suf] = t.store(l['[]' + suf], t.add(n, t.I(i)), t.select(x, t.add(r[1], t.I(i))))
                else:
                    j = t.fresh('j', INT)
                    l['[]' + suf] = t.lam(j, t.ite(t.lt(j, n), t.select(v.l['[]' + suf], j), t.select(x, t.add(t.sub(j, n), r[1]))))
            ex.write(st, place, V(place.ty, l))
            return itval(ex, ty, place, {'#i': n}) if short == 'insert' else None
    if short in ('begin', 'cbegin'): return itval(ex, ty, place, {'#i': t.I(0)})
    if short in ('end', 'cend'): return itval(ex, ty, place, {'#i': n})
    if short == 'data':
        return V(ty, {'^p': mkptr([(t.TRUE, place, t.I(0))])})
    if short == 'swap':
        o = ex.lv(args[0], st)
        vo = ex.readg(st, o)
        ex.write(st, place, V(place.ty, vo.l)); ex.writeg(st, o, V(vo.ty, v.l)); return None
    TL('vector::%s line %s' % (short, e.get('l')))


def string(ex, e, st, short):
    args = e['args']
    ty = e['t']
    lvs = ex.base_places(e, st)
    v = ex.readg(st, lvs)
    if short in ('c_str', 'data'): return V(ty, {'': v.x})
    if short in ('size', 'length'): return V(ty, {'': strlen(v.x)})
    if short == 'empty': return V(ty, {'': t.eq(v.x, t.S(''))})
    if short == 'clear':
        ex.writeg(st, lvs, V(v.ty, {'': t.S('')})); return None
    if short == 'append' and len(args) == 1:
        b = ex.ev(args[0], st).x
        ex.writeg(st, lvs, V(v.ty, {'': cat(v.x, b)})); return lvs
    if short == 'compare' and len(args) == 1:
        b = ex.ev(args[0], st).x
        return V(ty, {'': order(v.x, b)})
    if short in ('operator=', 'assign') and len(args) == 1:
        b = ex.ev(args[0], st)
        ex.writeg(st, lvs, V(v.ty, {'': b.x})); return lvs
    if short in ('find', 'substr', 'find_first_of', 'rfind', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        a = [ex.ev(x, st).x for x in args]
        if short == 'substr': return V(ty, {'': t.app('substr', (v.x,) + tuple(a), STR)})
        return V(ty, {'': t.app('str_' + short, (v.x,) + tuple(a), INT)})
    TL('string::%s line %s' % (short, e.get('l')))


def mapm(ex, e, st, short, k):
    args = e['args']
    ty = e['t']
    lvs = ex.base_places(e, st)
    if len(lvs) != 1: TL('conditional map')
    place = ex.asloc(lvs[0][1])
    m = ex.read(st, place)
    if short == 'size': return V(ty, {'': m.l['#n']})
    if short == 'empty': return V(ty, {'': t.eq(m.l['#n'], t.I(0))})
    if short == 'clear':
        ex.write(st, place, ex.default(place.ty)); return None
    if short in ('end', 'cend'):
        ks = ex.P.keysort(place.ty.args[0])
        return itval(ex, ty, place, {'#k': t.var('endkey_%s' % str(ks), ks), '#e': t.TRUE})
    if short == 'find':
        key = keyterm(ex, ex.ev(args[0], st))
        return itval(ex, ty, place, {'#k': key, '#e': t.not_(t.select(m.l['?'], key))})
    if short == 'count':
        key = keyterm(ex, ex.ev(args[0], st))
        return V(ty, {'': t.ite(t.select(m.l['?'], key), t.I(1), t.I(0))})
    if short in ('operator[]',):
        return mapindex(ex, lvs, keyterm(ex, ex.ev(args[0], st)), st)
    if short == 'at':
        from .symex import Loc
        key = keyterm(ex, ex.ev(args[0], st))
        return [(t.TRUE, Loc(place.root, place.idx + (key,), place.path + '[]', place.ty.args[1]), None)]
    if short == 'insert' and len(args) == 1:
        a = ex.ev(args[0], st)
        m = ex.read(st, place)
        if place.ty.name in ('std::multimap',): TL('multimap')
        l = dict(m.l)
        if k == 'map':
            kk = [s for s in a.l if s.startswith('.first')]
            if len(kk) != 1: TL('composite key')
            key = a.l[kk[0]]
            has = t.select(m.l['?'], key)
            for suf, so in ex.P.leaves(place.ty.args[1]):
                old = m.l['[]' + suf]
                src = a.l.get('.second' + suf)
                if src is None: TL('map insert value')
                l['[]' + suf] = t.store(old, key, t.ite(has, t.select(old, key), src))
        else:
            key = keyterm(ex, a); has = t.select(m.l['?'], key)
        l['?'] = t.store(m.l['?'], key, t.TRUE)
        l['#n'] = t.add(m.l['#n'], t.ite(has, t.I(0), t.I(1)))
        ex.write(st, place, V(place.ty, l))
        # returned pair<iterator,bool>: keep what callers use
        return V(ty, {'.second': t.not_(has), '.first#k': key, '.first#e': t.FALSE})
    if short == 'erase' and len(args) == 1:
        a = ex.ev(args[0], st)
        m = ex.read(st, place)
        key = a.l['#k'] if '#k' in a.l else keyterm(ex, a)
        has = t.select(m.l['?'], key)
        l = dict(m.l)
        l['?'] = t.store(m.l['?'], key, t.FALSE)
        l['#n'] = t.sub(m.l['#n'], t.ite(has, t.I(1), t.I(0)))
        ex.write(st, place, V(place.ty, l))
        return V(ty, {'': t.ite(has, t.I(1), t.I(0))}) if ty.k == 'int' else None
    TL('map::%s line %s' % (short, e.get('l')))


def construct(ex, e, ty, st):
    args = e['args']
    k = ex.P.kind(ty)
    if iskind_iter(ty):
        if len(args) == 1: return V(ty, ex.ev(args[0], st).l)
        return V(ty, {s: t.fresh('it', so) for s, so in ex.P.leaves(ty)})
    real_args = [a for a in args if not (a['k'] in ('ctor', 'mat') and 'allocator' in a['t'].s) and 'allocator' not in a['t'].s]
    if not real_args:
        return ex.default(ty)
    if k == 'complex':
        vs = [ex.ev(a, st) for a in real_args]
        if len(vs) == 1:
            r = cparts(vs[0]); return V(ty, {'.re': r[0], '.im': r[1]})
        return V(ty, {'.re': real(vs[0]), '.im': real(vs[1])})
    if k == 'str':
        v = ex.ev(real_args[0], st)
        if len(real_args) == 1 and v.l.get('') is not None and v.x.sort == STR: return V(ty, {'': v.x})
        TL('string constructor')
    if k == 'ptr':
        v = ex.ev(real_args[0], st)
        return ex.conv(V(ex.nonconst(real_args[0]['t']), v.l), ty)
    if k == 'pair':
        if len(real_args) == 2:
            a, b = [ex.ev(x, st) for x in real_args]
            l = {'.first' + s: x for s, x in ex.conv(a, ty.args[0]).l.items()}
            l.update({'.second' + s: x for s, x in ex.conv(b, ty.args[1]).l.items()})
            return V(ty, l)
        v = ex.ev(real_args[0], st)
        l = {}
        for s, so in ex.P.leaves(ty):
            x = v.l.get(s)
            if x is None: TL('pair conversion')
            if x.sort != so and so == REAL: x = t.to_real(x)
            l[s] = x
        return V(ty, l)
    if k == 'vec':
        vs = [ex.ev(a, st) for a in real_args]
        if len(vs) in (1, 2) and vs[0].ty.k == 'int':
            et = ty.args[0]
            fill = ex.conv(vs[1], et) if len(vs) == 2 else (ex.zero(et) if et.k in SCAL or ex.P.kind(et) in ('complex', 'ptr', 'str') else ex.default(et))
            l = {'#n': vs[0].x}
            for suf, so in ex.P.leaves(et): l['[]' + suf] = t.constarr(INT, fill.l[suf])
            return V(ty, l)
        if len(vs) == 1: return V(ty, vs[0].l)
        TL('vector constructor')
    if k == 'opaque':
        for a in real_args:
            try: ex.ev_void(a, st)
            except Exception as x:
                if x.__class__.__name__ not in ('ToolLimit', '_Value'): raise
        return V(ty, {s: t.fresh('obj', so) for s, so in ex.P.leaves(ty)})
    TL('constructor of %s' % ty.s)
