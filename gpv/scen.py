"""Scenarios: a scenario is one contract instance.  It names the objects and inputs (all values symbolic), runs the real
functions through the executor in the order given, and states postconditions.  Every postcondition is
  - an obligation for the prover (for all values satisfying the preconditions), and
  - a test of the compiled real code on sampled states (the same specification term, evaluated), which serves to replay
    refuted obligations and to validate the extraction."""
import os, math, random, subprocess, tempfile, json, hashlib, time, shutil
from . import terms as t
from .terms import INT, REAL, BOOL, STR, T
from .ir import Type, ExtractError, REPO, SCAL
from .symex import Exec, State, Val, Loc, Obj, Ptr, ToolLimit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ob:
    def __init__(self, name, cls, ref):
        self.name, self.cls, self.ref = name, cls, ref

    def __repr__(self): return self.name


class Fam:
    def __init__(self, name, cls, base, n):
        self.name, self.cls, self.base, self.n = name, cls, base, n


class Buf(Val):
    pass


class Post:
    def __init__(self, label, hyps, got, want, idx, kind, tol, scale):
        self.sampled = False
        self.label, self.hyps, self.got, self.want, self.idx, self.kind, self.tol, self.scale = label, hyps, got, want, idx, kind, tol, scale


class Sampler(random.Random):
    def small(self): return self.choice([0, 1, 1, 2, 2, 3])
    def rv(self):
        r = self.random()
        if r < .06: return 0.0
        if r < .1: return 1.0
        if r < .55: return self.uniform(-2.5, 2.5)
        return self.uniform(0.05, 2.5)
    def pos(self): return self.uniform(0.05, 3.0)
    def ang(self): return self.uniform(-3.0, 3.0)


class Scenario:
    def __init__(self, prog, name, contracts=None, safety=False, samples=None, bounded=0):
        self.P, self.name = prog, name
        self.ex = Exec(prog, contracts, safety=safety)
        self.ex.bounded = bounded
        self.st = State()
        self.objs, self.fams = [], []
        self.pre = []
        self.steps = []          # native statements
        self.posts = []
        self.nobs = 0
        self.inputs = []
        self.gens = {}
        self.links = []
        self.setup = []
        self.limited = None
        self.samples = samples
        self.lemmas = []
        self.cuts = None
        self.proof_only = False
        self.extra_fields = set()
        self.skip_fields = set()
        self.sample_pre = []
        self.call_pre = []      # assumed only where a callee's precondition is discharged
        self.reach = []
        self.nref = 100
        self.hints = []
        self.sizes = {}
        self.entry = None
        self.native_only_msg = None

    # ---- declaration -----------------------------------------------------------------------------------------
    def cls(self, c):
        return self.ex.clsname(c)

    def obj(self, name, cls):
        self.nref += 100
        o = Ob(name, self.cls(cls), t.I(self.nref))
        self.objs.append(o)
        return o

    def family(self, name, cls, n=4):
        self.nref += 1000
        f = Fam(name, self.cls(cls), self.nref, n)
        self.fams.append(f)
        return f

    def link(self, o, field, target):
        """o.field (a pointer of any kind) designates target"""
        self.set(o, field, {'': target.ref if target is not None else t.I(0)})
        self.links.append((o, field, target))

    def link_choice(self, o, field, targets, fn=None):
        """o.field designates one of the given objects (symbolically: any); fn(rng, shared) -> object for the samples"""
        self.links.append((o, field, list(targets)))
        self.gen(o, field, lambda r, s: (fn(r, s) if fn else r.choice(targets)).ref.val)

    def link_family(self, o, field, fam):
        """o.field is a sequence of pointers to members of the family (any number, symbolic)"""
        self.links.append((o, field, fam))
        self.gen(o, field, lambda r, s: [fam.base + i for i in range(r.randrange(fam.n + 1))])

    def link_distinct(self, o, field, fam, fn, base):
        """o.field holds distinct members of the family, seen through pointers to the class base; fn(rng, shared) -> how many"""
        self.links.append((o, field, fam))
        self.gen(o, field, lambda r, s: [fam.base + i for i in range(fn(r, s))])
        self.ex.distinct.add(self.old(o, field, '[]')); t.INJECTIVE.add(self.old(o, field, '[]'))
        self.ex.dyn_of[self.cls(base)] = fam.cls

    def gen(self, o, field, fn):
        """fn(rng, shared) -> value tree for the native sample of o.field (o: object, family or class name)"""
        self.gens[(o.name if not isinstance(o, str) else o, field)] = fn

    def input(self, name, ctype, gen=None):
        ty = self.type(ctype)
        ls = self.P.leaves(ty)
        v = Val(ty, {s: t.var('in_' + name + s, so) for s, so in ls})
        self.inputs.append((name, ctype, ty, v, gen))
        return v

    def type(self, s):
        s = s.replace('std::string', 'std::basic_string<char>')
        ty = self.P.types.get(s)
        if ty is None and s.startswith('std::vector<') and s.endswith('>'):
            ty = Type()
            ty.k, ty.s, ty.name, ty.const, ty.args = 'rec', s, 'std::vector', False, [self.type(s[12:-1].strip())]
            ty._leaves, ty.prog, ty.d, ty.tid = None, self.P, {}, s
            ty.to = ty.elem = ty.n = ty.bits = ty.signed = None
            ty.char = False
            self.P.types[s] = ty
        if ty is None and s == 'std::complex<double>': raise ToolLimit('no complex type')
        if ty is None: raise ToolLimit('type %s does not occur in the current source' % s)
        return ty

    def assume(self, *cs):
        for c in cs:
            self.pre.append(c)

    # ---- state -----------------------------------------------------------------------------------------------
    def old(self, o, field, leaf=''):
        if not isinstance(o, Ob): return self.ex.fld(State(), o[0], o[1], field).l[leaf]
        v = self.ex.fld(State(), o.ref, o.cls, field)
        return v.l[leaf]

    def now(self, o, field, leaf=''):
        if not isinstance(o, Ob): return self.ex.fld(self.st, o[0], o[1], field).l[leaf]
        return self.ex.fld(self.st, o.ref, o.cls, field).l[leaf]

    def at(self, cls, ref, field, leaf='', old=True):
        return self.ex.fld(State() if old else self.st, ref, self.cls(cls), field).l[leaf]

    def cx(self, o, field, i=None, old=True):
        """complex field (or element i of a vector of complex)"""
        v = self.ex.fld(State() if old else self.st, o.ref, o.cls, field).l
        if i is None: return v['.re'], v['.im']
        return t.select(v['[].re'], i), t.select(v['[].im'], i)

    def set(self, o, field, leaves):
        self.ex.setfld(self.st, o.ref, o.cls, field, leaves)

    def put(self, o, field, val):
        """o.field := constant (python number/bool/str), in the executor and natively"""
        v = self.ex.fld(self.st, o.ref, o.cls, field)
        if val == [] and not isinstance(val, (bool, str)):
            self.set(o, field, {'#n': t.I(0)})
            self.steps.append('o_%s->%s.clear();' % (o.name, field))
            return
        so = v.l[''].sort
        c = t.B(val) if so == BOOL else t.I(val) if so == INT else t.R(val) if so == REAL else t.S(val)
        self.set(o, field, c)
        if isinstance(val, bool): lit = 'true' if val else 'false'
        elif isinstance(val, str): lit = json.dumps(val)
        else: lit = repr(val)
        ty = v.ty
        if ty.k == 'enum': lit = '(decltype(o_%s->%s))%s' % (o.name, field, lit)
        self.steps.append('o_%s->%s = %s;' % (o.name, field, lit))

    def buf(self, name, ctype, n, zero=False):
        """an output array the callee fills"""
        self.nref += 100
        ty = self.type(ctype)
        self.steps.append('%s %s[%d]; std::fill(%s, %s+%d, %s(0));' % (ctype, name, n, name, name, n, ctype))
        b = t.I(self.nref)
        t.FRESH.add(self.nref)
        v = Buf(None, {'^b': b, '^o': t.I(0)})
        v.elt = ty
        v.name = name
        return v

    def bufat(self, b, i, leaf=''):
        so = dict(self.P.leaves(b.elt))[leaf]
        return self.ex.rawget(self.st, ('M', b.elt.s, 'mem'), (b.l['^b'], t.lift(i, INT)), leaf, so)

    def setbuf(self, b, i, term, cexpr):
        """element i of an array given to the callee"""
        self.ex.rawset(self.st, ('M', b.elt.s, 'mem'), (b.l['^b'], t.I(i)), '', term.sort, term)
        self.steps.append('%s[%d] = %s;' % (b.name, i, cexpr))

    def outvar(self, name, ctype, cinit=None):
        """a local variable passed by reference / address"""
        ty = self.type(ctype)
        loc = Loc(('L', 'out', name), (), '', ty)
        self.steps.append('%s %s%s;' % (ctype, name, ' = ' + cinit if cinit else (' = %s()' % ctype)))
        lv = [(t.TRUE, loc, None)]
        return lv

    def outptr(self, lv):
        return Val(None, {'^p': Ptr([(g, l, None) for g, l, o in lv])})

    def outval(self, lv, leaf=''):
        return self.ex.read(self.st, lv[0][1]).l[leaf]

    # ---- execution -------------------------------------------------------------------------------------------
    def func(self, name, cls=None, nparams=None, pred=None):
        """resolve a method: most derived definition for class cls"""
        if cls is None: return self.P.find1(name, nparams, pred)
        for c in self.P.bases(self.cls(cls)):
            fs = [f for f in self.P.funcs.values() if f.get('cls', '').replace('__cxx11::', '') == c and f['n'].split('::')[-1] == name and
                  (nparams is None or len(f['params']) == nparams) and (pred is None or pred(f))]
            if len(fs) == 1: return fs[0]
            if len(fs) > 1: raise ToolLimit('%s::%s is overloaded' % (cls, name))
        raise ToolLimit('%s::%s not found' % (cls, name))

    def call(self, o, name, args=(), cargs='', ret=None, nparams=None, pred=None, cpp=None, cls=None):
        """execute o.name(args); natively  [ret =] o->name(cargs)"""
        if cpp is None:
            tgt = 'o_%s->%s' % (o.name, name) if o is not None else name
            cpp = '%s%s(%s);' % ('auto %s = ' % ret if ret else '', tgt, cargs)
        self.steps.append(cpp)
        if os.environ.get('GPV_LIMIT'): self.limit('forced')        # debugging: exercise the bounded stand-ins
        if self.limited: return None
        try:
            f = self.func(name, cls or o.cls, nparams if nparams is not None else len(args), pred) if o is not None else self.func(name, None, nparams, pred)
            if o is not None: self.ex.dyn[o.ref] = o.cls
            a2 = []
            for p, a in zip(f['params'], args):
                if isinstance(a, T): a = Val(p['t'], {'': a})
                if isinstance(a, Val) and p['t'].k == 'ref':
                    a = self.tempref(a, p['t'].to)
                elif isinstance(a, Val) and a.ty is None: a = Val(p['t'], a.l)
                elif isinstance(a, Val): a = self.ex.conv(a, p['t'])
                a2.append(a)
            this = None
            if o is not None:
                c0 = f['cls'].replace('__cxx11::', '')
                this = Obj(o.ref, self.P.types[c0])
            st, r = self.ex.run(f, this if o is not None else None, a2, self.st, tuple(self.pre))
            self.entry = self.entry or f['n']
            if self.ex.dead(st):
                raise ToolLimit('%s never returns under the precondition' % f['n'])
            return r
        except (ToolLimit, ExtractError) as e:
            self.limit(str(e)); return None
        except RecursionError:
            self.limit('recursion depth in the executor'); return None
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            if os.environ.get('GPV_DEBUG'): raise
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.limit('executor: %s: %s (%s:%d)' % (type(e).__name__, e, tb.name, tb.lineno)); return None

    def tempref(self, a, to):
        loc = Loc(('L', 'arg', next(self.ex.frames)), (), '', self.ex.nonconst(to))
        self.ex.write(self.st, loc, self.ex.conv(a, self.ex.nonconst(to)))
        return [(t.TRUE, loc, None)]

    def limit(self, msg):
        if not self.limited: self.limited = msg

    # ---- postconditions --------------------------------------------------------------------------------------
    def post(self, label, got, want, native=None, hyps=(), tol=1e-7, scale=None):
        """got == want.  got: term or thunk (evaluated unless the function is out of reach); native: C++ expression"""
        if callable(got):
            try: got = got() if not self.limited else None
            except (ToolLimit, ExtractError, KeyError, AttributeError, TypeError) as e: self.limit(str(e)); got = None
        if self.limited: got = None
        if not isinstance(want, T):
            want = t.lift(want, got.sort if got is not None else REAL)
        if got is not None and got.sort == INT and want.sort == BOOL: want = t.ite(want, t.I(1), t.I(0))
        if got is not None and got.sort == BOOL and want.sort == INT: want = t.ne(want, t.I(0))
        idx = None
        if native is not None:
            idx = self.nobs; self.nobs += 1
            self.steps.append('drv::wr(%s);' % native)
        self.posts.append(Post(label, list(self.pre) + list(hyps) + self.pathcond(), got, want, idx, 'eq', tol, scale))

    def sampled(self, label, want, native, hyps=(), tol=1e-7):
        """a consequence of the proved postconditions, stated in a form that can be evaluated on samples; not an obligation"""
        idx = self.nobs; self.nobs += 1
        self.steps.append('drv::wr(%s);' % native)
        p = Post(label, list(self.pre) + list(hyps), None, want, idx, 'eq', tol, None)
        p.sampled = True
        self.posts.append(p)

    def post_each(self, label, n, got, want, native=None, hyps=(), tol=1e-7):
        """for all 0 <= k < n: got(k) == want(k); native: C++ expression of a vector"""
        k = t.fresh('k', INT)
        g = None
        if not self.limited:
            try: g = got(k)
            except (ToolLimit, ExtractError, KeyError, AttributeError, TypeError) as e: self.limit(str(e))
        w = want(k)
        if g is not None and not isinstance(w, T): w = t.lift(w, g.sort)
        if g is not None and g.sort == INT and w.sort == BOOL: w = t.ite(w, t.I(1), t.I(0))
        idx = None
        if native is not None:
            idx = self.nobs; self.nobs += 1
            self.steps.append('drv::wr(%s);' % native)
        p = Post(label, list(self.pre) + list(hyps) + self.pathcond() + [t.le(t.I(0), k), t.lt(k, n)], g, w, idx, 'each', tol, None)
        p.k, p.n = k, n
        self.posts.append(p)

    def ensure(self, label, goal, hyps=(), native=None):
        """a boolean goal over the final state (native: a C++ bool expression with the same meaning)"""
        if callable(goal):
            try: goal = goal() if not self.limited else None
            except (ToolLimit, ExtractError, KeyError, AttributeError, TypeError) as e: self.limit(str(e)); goal = None
        if self.limited: goal = None
        idx = None
        if native is not None:
            idx = self.nobs; self.nobs += 1
            self.steps.append('drv::wr((bool)(%s));' % native)
        self.posts.append(Post(label, list(self.pre) + list(hyps) + self.pathcond(), goal, t.TRUE, idx, 'bool', 0, None))

    def pathcond(self):
        return [] if self.limited else list(self.st.pc)

    def native(self, s):
        self.steps.append(s)

    # ---- native side -----------------------------------------------------------------------------------------
    def wanted_fields(self, baseline):
        """(object or family, record, field) read by the run, in a fixed order"""
        out = []
        keys = {}
        for (root, path) in self.ex.init:
            if root[0] == 'H': keys.setdefault(root[1], set()).add(path)
        base = set(map(tuple, baseline)) if (self.limited and baseline) else set()
        for o in self.objs + self.fams:
            for c, f in self.P.fields_all(self.P.types[o.cls]):
                nm = '.' + f['name']
                hit = any(p == nm or p.startswith(nm) and p[len(nm)] in '.[#?^' for p in keys.get(c, ()))
                if (c, f['name']) in base: hit = True
                if (o.name, f['name']) in self.gens or (o.cls.split('::')[-1], f['name']) in self.gens: hit = True
                if (o.name, f['name']) in self.extra_fields: hit = True
                if (o.name, f['name']) in self.skip_fields: hit = False
                if hit and self.nativeable(f['t']): out.append((o, c, f))
        return out

    def nativeable(self, ty):
        k = self.P.kind(ty)
        if k in ('scalar', 'str', 'complex'): return not ty.const
        if k in ('vec', 'arr'):
            et = ty.elem or ty.args[0]
            return bool(self.recfields(et)) if self.P.kind(et) == 'rec' else self.nativeable(et)
        if k == 'pair': return all(self.nativeable(a) for a in ty.args[:2])
        if k in ('map', 'set'): return True
        if k == 'ptr': return True
        return False

    def recfields(self, ty):
        """members of a record that the driver can set (elements of vectors of records)"""
        return [f for c, f in self.P.fields_all(ty) if self.P.kind(f['t']) != 'rec' and self.nativeable(f['t'])]

    def rdrec(self, o, fname, ty, acc):
        """C++ that fills the record acc"""
        out = []
        for f in self.recfields(ty):
            a, k = acc + '.' + f['name'], self.P.kind(f['t'])
            if k == 'ptr':
                tg = self.linkof(o, fname + '.' + f['name'])
                raw = '.get()' if f['t'].k == 'ptr' else ''
                if isinstance(tg, Fam): out.append('{ int k = drv::get<int>(); if (k) %s = f_%s[k-%d]%s; }' % (a, tg.name, tg.base, raw))
                elif isinstance(tg, list): out.append('{ int k = drv::get<int>(); %s }' % ' else '.join('if (k==%d) %s = o_%s%s;' % (x.ref.val, a, x.name, raw) for x in tg))
                elif tg is not None: out.append('drv::get<int>(); %s = o_%s%s;' % (a, tg.name, raw))
                else: out.append('drv::get<int>();')
                continue
            out.append('drv::rd(%s);' % a)
        return ' '.join(out)

    def linkof(self, o, fname):
        for a, f, tg in self.links:
            if a is o and f == fname: return tg
        return None

    def cppcode(self, fields, idx):
        b = []
        for o in self.objs:
            b.append('boost::shared_ptr< %s > o_%s(new %s());' % (o.cls, o.name, o.cls))
        for f in self.fams:
            b.append('std::vector< boost::shared_ptr< %s > > f_%s; for(int i=0;i<%d;i++) f_%s.push_back(boost::shared_ptr< %s >(new %s()));' % (f.cls, f.name, f.n, f.name, f.cls, f.cls))
        b += self.setup
        done = set()
        for o, c, f in fields:
            acc = []
            ow = self.P.owner(o.cls, f['name'])
            fn = f['name'] if ow is None or ow[0] == c else c + '::' + f['name']     # a member hidden by a derived class
            if isinstance(o, Fam): acc = ['f_%s[%d]->%s' % (o.name, i, fn) for i in range(o.n)]
            else: acc = ['o_%s->%s' % (o.name, fn)]
            tg = self.linkof(o, f['name'])
            k = self.P.kind(f['t'])
            for a in acc:
                if k == 'ptr':
                    if isinstance(tg, list):
                        raw = f['t'].k == 'ptr'
                        b.append('{ int k = drv::get<int>(); %s }' % ' else '.join('if (k==%d) %s = o_%s%s;' % (x.ref.val, a, x.name, '.get()' if raw else '') for x in tg)); continue
                    if tg is not None:
                        raw = f['t'].k == 'ptr'
                        b.append('%s = o_%s%s;' % (a, tg.name, '.get()' if raw else '')); continue
                    if self.P.ptrmode(f['t']) == 'mem' and f['t'].k == 'ptr':
                        b.append('drv::rdp(%s);' % a)
                    continue
                if k == 'vec' and self.P.kind(f['t'].args[0]) == 'ptr':
                    if isinstance(tg, Fam):
                        b.append('{ int n = drv::get<int>(); %s.resize(n); for(int i=0;i<n;i++) %s[i] = f_%s[drv::get<int>()-%d]%s; }' % (a, a, tg.name, tg.base, '.get()' if f['t'].args[0].k == 'ptr' else ''))
                    continue
                if k == 'vec' and self.P.kind(f['t'].args[0]) == 'rec':
                    b.append('{ int n = drv::get<int>(); %s.resize(n); for(int i=0;i<n;i++) { %s } }' % (a, self.rdrec(o, f['name'], f['t'].args[0], a + '[i]')))
                    continue
                b.append('drv::rd(%s);' % a)
        for nm, ct, ty, v, g in self.inputs:
            b.append('%s in_%s; drv::rd(in_%s);' % (ct if ct != 'const char *' else 'std::string', nm, nm))
        b += self.steps
        return 'static void scen%d() {\n  %s\n}\n' % (idx, '\n  '.join(b))

    def gval(self, rng, o, c, f, shared):
        for key in ((o.name, f['name']), (o.cls.split('::')[-1], f['name'])):
            g = self.gens.get(key)
            if g is not None: return g(rng, shared)
        return self.rnd(rng, f['t'], shared)

    def rnd(self, rng, ty, s):
        k = self.P.kind(ty)
        if k == 'scalar':
            if ty.k == 'bool': return rng.random() < 0.6
            if ty.k == 'real': return rng.rv()
            if ty.k == 'enum': return rng.randrange(4)
            return rng.small()
        if k == 'str': return rng.choice(['a', '1', 'b2', '', 'zz', 'BL'])
        if k == 'complex': return complex(rng.rv(), rng.rv())
        if k == 'vec':
            if self.P.kind(ty.args[0]) == 'ptr': return []
            n = s.setdefault('n', rng.small())
            return [self.rnd(rng, ty.args[0], s) for _ in range(n)]
        if k == 'arr':
            n = ty.n or ty.args[1]
            return [self.rnd(rng, ty.elem or ty.args[0], s) for _ in range(n)]
        if k == 'pair': return (self.rnd(rng, ty.args[0], s), self.rnd(rng, ty.args[1], s))
        if k == 'map': return {}
        if k == 'set': return set()
        if k == 'rec': return {f['name']: self.rnd(rng, f['t'], s) for f in self.recfields(ty)}
        if k == 'ptr':
            if self.P.ptrmode(ty) == 'mem':
                return [self.rnd(rng, self.P.target(ty), s)]
            return 0
        return 0

    def ser(self, v, ty, out):
        k = self.P.kind(ty)
        if k == 'scalar':
            if ty.k == 'real': out.append(repr(float(v)))
            else: out.append(str(int(v)))
        elif k == 'str': out.append('x' + ''.join('%02x' % ord(c) for c in v))
        elif k == 'complex': out += [repr(v.real), repr(v.imag)]
        elif k == 'vec':
            out.append(str(len(v)))
            for x in v: self.ser(x, ty.args[0], out) if self.P.kind(ty.args[0]) != 'ptr' else out.append(str(x))
        elif k == 'arr':
            for x in v: self.ser(x, ty.elem or ty.args[0], out)
        elif k == 'pair':
            self.ser(v[0], ty.args[0], out); self.ser(v[1], ty.args[1], out)
        elif k == 'map':
            out.append(str(len(v)))
            for a, b in v.items(): self.ser(a, ty.args[0], out); self.ser(b, ty.args[1], out)
        elif k == 'set':
            out.append(str(len(v)))
            for a in v: self.ser(a, ty.args[0], out)
        elif k == 'rec':
            for f in self.recfields(ty):
                if self.P.kind(f['t']) == 'ptr': out.append(str(int(v.get(f['name'], 0))))
                else: self.ser(v[f['name']], f['t'], out)
        elif k == 'ptr':
            if v is None: out.append('-1')
            else:
                out.append(str(len(v)))
                for x in v: self.ser(x, self.P.target(ty), out)

    def leafvals(self, v, ty, path=''):
        """path -> python value/array for a value tree (arrays as callables)"""
        k = self.P.kind(ty)
        if k in ('scalar', 'str'):
            return {path: v}
        if k == 'complex': return {path + '.re': v.real, path + '.im': v.imag}
        if k in ('vec', 'arr'):
            et = ty.elem or ty.args[0]
            d = {}
            if k == 'vec': d[path + '#n'] = len(v)
            if self.P.kind(et) == 'ptr':
                d[path + '[]'] = lst(list(v), 0); return d
            cols = {}
            for i, x in enumerate(v):
                for p, y in self.leafvals(x, et, '').items(): cols.setdefault(p, []).append(y)
            for p, so in self.P.leaves(et):
                d[path + '[]' + p] = lst(cols.get(p, []), zero(so))
            return d
        if k == 'pair':
            d = self.leafvals(v[0], ty.args[0], path + '.first')
            d.update(self.leafvals(v[1], ty.args[1], path + '.second'))
            return d
        if k in ('map', 'set'):
            d = {path + '#n': len(v), path + '?': (lambda kk, v=v: kk in v)}
            if k == 'map':
                for p, so in self.P.leaves(ty.args[1]):
                    col = {a: self.leafvals(b, ty.args[1], '')[p] for a, b in v.items()}
                    d[path + '[]' + p] = (lambda kk, col=col, so=so: col.get(kk, zero(so)))
            return d
        if k == 'rec':
            d = {}
            for f in self.recfields(ty): d.update(self.leafvals(v.get(f['name'], 0), f['t'], path + '.' + f['name']))
            return d
        if k == 'ptr':
            return {path: v if isinstance(v, int) else 0}
        return {path: 0}

    def relink(self, o, f, v):
        """pointers inside records that designate a fixed object"""
        out = []
        for x in v:
            x = dict(x)
            for g in self.recfields(f['t'].args[0]):
                if self.P.kind(g['t']) != 'ptr': continue
                tg = self.linkof(o, f['name'] + '.' + g['name'])
                if isinstance(tg, Ob): x[g['name']] = tg.ref.val
                elif tg is None: x[g['name']] = 0
            out.append(x)
        return out

    def sample(self, rng, fields):
        """one random state: (tokens, env, description)"""
        toks = []
        heap = {}        # (root, path) -> {ref: value}
        mem = {}         # M roots: type -> {(b,o): leaves}
        shared_all = {}
        desc = {}
        nb = 5000
        # generation order: keep declared order; shared dict per object instance
        order = {}
        for o, c, f in fields:
            insts = range(o.n) if isinstance(o, Fam) else [0]
            for i in insts:
                ref = o.base + i if isinstance(o, Fam) else o.ref.val
                s = shared_all.setdefault(ref, {'all': shared_all, 'idx': i})
                tg = self.linkof(o, f['name'])
                k = self.P.kind(f['t'])
                if k == 'ptr' and isinstance(tg, list):
                    v = self.gval(rng, o, c, f, s)
                    s[f['name']] = v; toks.append(str(v))
                    heap.setdefault((('H', c), '.' + f['name']), {})[ref] = v
                    continue
                if k == 'ptr' and tg is not None:
                    heap.setdefault((('H', c), '.' + f['name']), {})[ref] = tg.ref.val
                    continue
                v = self.gval(rng, o, c, f, s)
                s[f['name']] = v
                desc['%s%s.%s' % (o.name, '[%d]' % i if isinstance(o, Fam) else '', f['name'])] = v
                if k == 'ptr':
                    if self.P.ptrmode(f['t']) == 'mem' and f['t'].k == 'ptr':
                        self.ser(v, f['t'], toks)
                        if v is None:
                            b = 0
                        else:
                            nb += 1; b = nb
                            to = self.ex.nonconst(self.P.target(f['t']))
                            for j, x in enumerate(v):
                                for p, y in self.leafvals(x, to, '').items():
                                    mem.setdefault((('M', to.s, 'mem'), p), {})[(b, j)] = y
                        heap.setdefault((('H', c), '.' + f['name'] + '^b'), {})[ref] = b
                        heap.setdefault((('H', c), '.' + f['name'] + '^o'), {})[ref] = 0
                    else:
                        heap.setdefault((('H', c), '.' + f['name']), {})[ref] = 0
                    continue
                if k == 'vec' and self.P.kind(f['t'].args[0]) == 'rec': v = self.relink(o, f, v)
                if not (k == 'vec' and self.P.kind(f['t'].args[0]) == 'ptr' and not isinstance(tg, Fam)):
                    self.ser(v, f['t'], toks)
                for p, y in self.leafvals(v, f['t'], '.' + f['name']).items():
                    heap.setdefault((('H', c), p), {})[ref] = y
        env = {}
        for (root, path), sym in self.ex.init.items():
            if sym.op != 'v': continue
            if root[0] == 'H':
                col = heap.get((root, path), {})
                env[sym] = (lambda r, col=col, so=sym.sort[2]: col.get(r, zero(so)))
            elif root[0] == 'M' and root[2] == 'mem':
                col = mem.get((root, path), {})
                env[sym] = (lambda b, col=col, so=sym.sort[2][2]: (lambda off: col.get((b, off), zero(so))))
        for nm, ct, ty, v, g in self.inputs:
            x = g(rng, shared_all) if g else self.rnd(rng, ty, {})
            self.ser(x, ty, toks)
            desc[nm] = x
            for p, y in self.leafvals(x, ty, '').items():
                if p in v.l: env[v.l[p]] = y
        return toks, env, desc


def zero(so):
    if so == REAL: return 0.0
    if so == INT: return 0
    if so == BOOL: return False
    if so == STR: return ''
    return lambda i: zero(so[2])


def lst(l, d):
    return lambda i: l[i] if isinstance(i, int) and 0 <= i < len(l) else d
