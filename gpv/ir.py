"""Loads the JSON produced by cxx2ir (one file per translation unit) and merges it into one program."""
import json, os, subprocess, hashlib
from .terms import INT, REAL, BOOL, STR, ARR

REPO = os.environ.get('GPV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('GPV_CACHE', '/tmp/gpv_cache.%d' % os.getuid())

INCS = ('-std=gnu++17 -x c++ -fsyntax-only -w -DBOOST_ATOMIC_DYN_LINK '
        '-isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi '
        '-isystem /usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-complex/include').split()


class ExtractError(Exception):
    pass


def tool():
    exe = os.path.join(VERIF, 'build', 'cxx2ir')
    src = os.path.join(VERIF, 'tool', 'cxx2ir.cpp')
    if not os.path.exists(exe):
        subprocess.run(['bash', os.path.join(VERIF, 'setup.sh')], check=True, stdout=subprocess.DEVNULL)
    return exe


class Type:
    __slots__ = ('k', 's', 'd', 'to', 'elem', 'n', 'name', 'args', 'const', 'bits', 'signed', '_leaves', 'char', 'prog', 'tid')

    def __repr__(self):
        return '<%s>' % self.s


SMART = {'boost::shared_ptr', 'std::shared_ptr', 'boost::weak_ptr', 'std::weak_ptr', 'boost::scoped_ptr', 'std::unique_ptr',
         'std::auto_ptr', 'boost::scoped_array', 'boost::shared_array'}
ITER = ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'boost::unordered::iterator_detail::iterator')
SCAL = ('int', 'real', 'bool', 'enum')


class Program:
    def __init__(self):
        self.types = {}      # canonical string (+const) -> Type
        self.records = {}    # record name -> dict
        self.funcs = {}      # id -> dict
        self.externs = {}
        self.globals = {}
        self.byname = {}

    def load(self, path):
        d = json.load(open(path))
        tl = d['types']
        conv = {}
        raw = tl

        def T(i):
            if i in conv:
                return conv[i]
            o = raw[i]
            if o is None:
                return None
            key = ('const ' if o.get('const') else '') + o['s']
            t = self.types.get(key)
            if t is not None:
                conv[i] = t
                return t
            t = Type()
            t.k, t.s, t.const = o['k'], o['s'], bool(o.get('const'))
            t.bits, t.signed, t.char = o.get('bits'), o.get('signed'), o.get('char', False)
            t.name, t._leaves, t.prog, t.d, t.tid = o.get('name'), None, self, o, key
            t.to = t.elem = t.n = None
            t.args = []
            conv[i] = t
            self.types[key] = t
            if 'to' in o: t.to = T(o['to'])
            if 'elem' in o: t.elem = T(o['elem'])
            t.n = o.get('n')
            t.args = [T(a) if isinstance(a, int) else (a['int'] if a else None) for a in o.get('args', [])]
            return t

        def fix(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ('t', 'ret', 'nt', 'ct', 'clt', 'base') and isinstance(v, int):
                        x[k] = T(v)
                    elif isinstance(v, (dict, list)):
                        fix(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        fix(v)
        for part in ('records', 'funcs', 'externs', 'globals'):
            fix(d[part])
        for i in range(len(raw)):
            T(i)
        for n, r in d['records'].items():
            n = n.replace('__cxx11::', '')
            self.records.setdefault(n, r)
        for f in d['funcs']:
            if f.get('body') is None and not f.get('isctor'):
                continue
            if f['id'] not in self.funcs:
                self.funcs[f['id']] = f
                self.byname.setdefault(f['n'], []).append(f)
        for k, v in d['externs'].items():
            self.externs.setdefault(k, v)
        for k, v in d['globals'].items():
            self.globals.setdefault(k, v)

    def find(self, name, nparams=None, pred=None):
        """functions whose qualified name ends with `name`"""
        out = []
        for n, fs in self.byname.items():
            if n == name or n.endswith('::' + name):
                out += [f for f in fs if (nparams is None or len(f['params']) == nparams) and (pred is None or pred(f))]
        return out

    def enum(self, name):
        """value of an enumerator that some function mentions"""
        if not hasattr(self, '_enums'):
            self._enums = {}
            def walk(x):
                if isinstance(x, dict):
                    if 'en' in x: self._enums[x['en'].split('::')[-1]] = int(x['v'])
                    for v in x.values():
                        if isinstance(v, (dict, list)): walk(v)
                elif isinstance(x, list):
                    for v in x:
                        if isinstance(v, (dict, list)): walk(v)
            for f in self.funcs.values(): walk(f.get('body'))
        if name not in self._enums: raise ExtractError('enumerator %s is not mentioned in the current source' % name)
        return self._enums[name]

    def find1(self, name, nparams=None, pred=None):
        fs = self.find(name, nparams, pred)
        if len(fs) != 1:
            raise ExtractError('%d definitions of %s in the current source' % (len(fs), name))
        return fs[0]

    # ---- value decomposition -------------------------------------------------------------------------------
    def leaves(self, t):
        if t._leaves is not None:
            return t._leaves
        t._leaves = self._lv(t)
        return t._leaves

    def kind(self, t):
        """coarse kind used by the executor"""
        if t.k in SCAL or t.k == 'void':
            return 'scalar' if t.k != 'void' else 'void'
        if t.k == 'ref':
            return 'ref'
        if t.k == 'ptr':
            if t.to is not None and t.to.k == 'int' and t.to.char: return 'str'
            return 'ptr'
        if t.k == 'arr':
            if t.elem.k == 'int' and t.elem.char: return 'str'
            return 'arr'
        if t.k == 'rec':
            n = t.name
            if n in ('std::basic_string', 'std::string'): return 'str'
            if n in ('std::vector', 'std::deque', 'std::list', 'boost::container::vector', 'std::initializer_list'): return 'vec'
            if n in ('std::array', 'boost::array'): return 'arr'
            if n in ('std::map', 'std::multimap', 'std::unordered_map', 'boost::unordered_map', 'boost::unordered::unordered_map'): return 'map'
            if n in ('std::set', 'std::unordered_set', 'boost::unordered_set'): return 'set'
            if n in ('std::pair',): return 'pair'
            if n in ITER: return 'iter'
            if n == 'std::complex': return 'complex'
            if n in SMART: return 'ptr'
            if self.rec(t) is not None: return 'rec'
        return 'opaque'

    def rec(self, t):
        return self.records.get(t.s)

    def target(self, t):
        """pointee of a (smart) pointer or reference"""
        if t.k in ('ptr', 'ref'):
            return t.to
        return t.args[0]

    def ptrmode(self, t):
        """'obj' pointers are one Ref; 'mem' pointers are (base, offset)"""
        to = self.target(t)
        k = self.kind(to)
        if k in ('scalar', 'complex', 'void') or k == 'ptr' and t.k == 'ptr' and to.k == 'ptr':
            return 'mem'
        return 'obj'

    def _lv(self, t):
        k = self.kind(t)
        if k == 'scalar':
            return [('', {'int': INT, 'enum': INT, 'real': REAL, 'bool': BOOL}[t.k])]
        if k == 'str':
            return [('', STR)]
        if k == 'complex':
            return [('.re', REAL), ('.im', REAL)]
        if k == 'ptr':
            if self.ptrmode(t) == 'mem':
                return [('^b', INT), ('^o', INT)]
            return [('', INT)]
        if k == 'ref':
            return [('', INT)]
        if k == 'vec':
            return [('#n', INT)] + [('[]' + p, ARR(INT, s)) for p, s in self.leaves(t.args[0])]
        if k == 'arr':
            el = t.elem or t.args[0]
            return [('[]' + p, ARR(INT, s)) for p, s in self.leaves(el)]
        if k in ('map', 'set'):
            ks = self.keysort(t.args[0])
            r = [('#n', INT), ('?', ARR(ks, BOOL))]
            if k == 'map':
                r += [('[]' + p, ARR(ks, s)) for p, s in self.leaves(t.args[1])]
            return r
        if k == 'pair':
            return [('.first' + p, s) for p, s in self.leaves(t.args[0])] + [('.second' + p, s) for p, s in self.leaves(t.args[1])]
        if k == 'iter':
            if t.name == '__gnu_cxx::__normal_iterator': return [('#i', INT)]
            a = t.args[0]
            kt = a.args[0] if a.k == 'rec' and a.name == 'std::pair' else a
            return [('#k', self.keysort(kt)), ('#e', BOOL)]
        if k == 'rec':
            out = []
            r = self.rec(t)
            for b in r['bases']:
                out += self.leaves(b['t'])
            for f in r['fields']:
                out += [('.' + f['name'] + p, s) for p, s in self.leaves(f['t'])]
            return out
        return [('', INT)]

    def keysort(self, t):
        l = self.leaves(t)
        if len(l) == 1:
            return l[0][1]
        return ('Tup',) + tuple(s for _, s in l)

    def fields_all(self, t):
        r = self.rec(t)
        out = []
        for b in r['bases']:
            if self.rec(b['t']) is not None:
                out += self.fields_all(b['t'])
        for f in r['fields']:
            out.append((t.s, f))
        return out

    def owner(self, clsname, field):
        """record that declares `field`, searching clsname and its bases"""
        r = self.records.get(clsname)
        if r is None:
            return None
        for f in r['fields']:
            if f['name'] == field:
                return clsname, f
        for b in r['bases']:
            x = self.owner(b['t'].s, field)
            if x:
                return x
        return None

    def bases(self, clsname):
        out = [clsname]
        r = self.records.get(clsname)
        if r:
            for b in r['bases']:
                out += self.bases(b['t'].s)
        return out

    def resolve_virtual(self, fid, clsname):
        """most derived override of method `fid` for dynamic class clsname"""
        for c in self.bases(clsname):
            for f in self.funcs.values():
                if f.get('cls') == c and (f['id'] == fid or fid in self.allover(f)):
                    return f
        return None

    def allover(self, f):
        out = set(f.get('overrides', []))
        for o in list(out):
            g = self.funcs.get(o)
            if g:
                out |= self.allover(g)
        return out


def extract(src, roots='.*', incs=(), keep='/repo/src/', out=None, inst='^$'):
    """run the front end on the current source and return the path of the JSON dump"""
    os.makedirs(CACHE, exist_ok=True)
    h = hashlib.sha1((src + roots + keep + inst + repr(incs)).encode()).hexdigest()[:16]
    out = out or os.path.join(CACHE, '%d_%s.json' % (os.getpid(), h))
    keep = keep.replace('/repo/src/', REPO + '/src/')
    d = os.path.dirname(src)
    cmd = [tool(), '-roots=' + roots, '-keep=' + keep, '-inst=' + inst, '-o', out, src, '--'] + INCS + ['-I' + REPO + '/src', '-I' + d, '-ferror-limit=0', '-fno-access-control']
    for i in incs:
        cmd.append('-I' + i)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    # clang insists on bodies for the pure virtual members of explicitly instantiated classes, gcc (the project's compiler) does not
    errs = [l for l in p.stderr.split('\n') if ': error: ' in l or ': fatal error: ' in l]
    bad = [l for l in errs if 'explicit instantiation of undefined' not in l]
    if bad or (p.returncode != 0 and not errs) or not os.path.exists(out):
        if os.path.exists(out): os.unlink(out)
        raise ExtractError('cxx2ir failed on %s: %s' % (src, p.stderr[-2000:]))
    return out


def program(srcs):
    """srcs: list of (path, roots, incs, keep)"""
    P = Program()
    from concurrent.futures import ThreadPoolExecutor
    def one(s):
        return extract(s['src'], s.get('roots', '.*'), s.get('incs', ()), s.get('keep', '/repo/src/'), None, s.get('inst', '^$'))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, srcs))
    for o in outs:
        P.load(o)
        os.unlink(o)
    P.sources = [s['src'] for s in srcs]
    return P
