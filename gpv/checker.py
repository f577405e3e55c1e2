"""Runs one property: extraction of the current source, obligations, prover, compiled replay; evidence and verdict."""
import os, sys, json, time, random, math, subprocess, tempfile, shutil, hashlib, importlib, multiprocessing, traceback
from . import terms as t, ir, prove
from .terms import T, INT, REAL, BOOL
from .ir import ExtractError, REPO
from .symex import ToolLimit
from .scen import Scenario, Sampler, VERIF

MPI = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
       '-I/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-complex/include']
CXX = ['g++', '-std=c++17', '-O0', '-w', '-fno-access-control', '-ffunction-sections', '-fdata-sections', '-D_GLIBCXX_ASSERTIONS']


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.mod = importlib.import_module('props.' + pid)
        self.scens = []
        self.assumptions = set(getattr(self.mod, 'ASSUMPTIONS', []))
        self.results = []
        self.violations = []
        self.log = []
        self.work = tempfile.mkdtemp(prefix='gpv_%s_' % pid)
        self.kf = []
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p): self.kf = [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'open']
        self.known_hit = []
        self.native_stats = {}
        self.P = None
        self.fatal = None

    def rsrc(self, s): return s if s.startswith('/') else os.path.join(REPO, 'src', s)

    # ---- build scenarios ---------------------------------------------------------------------------------------
    def extract(self):
        specs = []
        for s in self.mod.SOURCES:
            s = dict(s) if isinstance(s, dict) else dict(src=s)
            src = s['src']
            s['src'] = os.path.join(VERIF, src[1:]) if src.startswith('@') else self.rsrc(src)
            s['incs'] = [self.rsrc(i) for i in s.get('incs', getattr(self.mod, 'INCS', []))]
            specs.append(s)
        self.P = ir.program(specs)

    def build(self):
        base = {}
        bp = os.path.join(VERIF, 'props', 'baseline', self.pid + '.json')
        if os.path.exists(bp): base = json.load(open(bp))
        self.baseline = base
        for f in self.mod.SCENARIOS:
            gens = f if isinstance(f, (list, tuple)) else [f]
            for fn in gens:
                try:
                    r = fn(self)
                    if r is None: continue
                    if isinstance(r, Scenario): self.scens.append(r)
                    else: self.scens += list(r)
                except (ToolLimit, ExtractError) as e:
                    if os.environ.get('GPV_DEBUG'): raise
                    self.log.append('%s: out of reach: %s' % (fn.__name__, e))
                    self.assumptions.add('NOT DECIDED: scenario %s: %s' % (fn.__name__, e))
                except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, RecursionError) as e:
                    if os.environ.get('GPV_DEBUG'): raise
                    self.assumptions.add('NOT DECIDED: scenario %s: executor %s %s' % (fn.__name__, type(e).__name__, e))

    def scen(self, name, **kw):
        return Scenario(self.P, name, **kw)

    # ---- native ------------------------------------------------------------------------------------------------
    def compile_objs(self):
        nat = self.mod.NATIVE
        incs = MPI + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'gpv', 'native')] + ['-I' + self.rsrc(i) for i in nat.get('incs', [])]
        cache = os.path.join(VERIF, 'build', 'obj')
        os.makedirs(cache, exist_ok=True)
        jobs = []
        objs = []
        for s in nat['srcs']:
            src = self.rsrc(s)
            jobs.append((src, CXX + nat.get('flags', []) + incs + ['-I' + os.path.dirname(src)]))
        from concurrent.futures import ThreadPoolExecutor

        def one(j):
            src, cmd = j
            e = subprocess.run(cmd + ['-E', '-P', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if e.returncode: return None, e.stderr.decode()[-2000:]
            h = hashlib.sha1(e.stdout + repr(cmd[1:8]).encode()).hexdigest()
            out = os.path.join(cache, h + '.o')
            if not os.path.exists(out):
                tmp = out + '.%d.tmp' % os.getpid()
                p = subprocess.run(cmd + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if p.returncode: return None, p.stderr[-3000:]
                os.rename(tmp, out)
            return out, ''
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
        for (src, _), (o, err) in zip(jobs, res):
            if o is None: return None, 'compiling %s: %s' % (src, err)
            objs.append(o)
        return objs, incs

    def build_native(self):
        nat = getattr(self.mod, 'NATIVE', None)
        live = [s for s in self.scens if not s.proof_only]
        self.exe = None
        if nat is None or not live: return
        objs, incs = self.compile_objs()
        if objs is None:
            self.native_err = incs; return
        self.objs, self.incs = objs, incs
        for s in live:
            s.nfields = s.wanted_fields(self.baseline.get(s.name))
        ok = self.link(live, 'drv')
        if not ok and len(live) > 1:
            # one scenario no longer compiles against this source (renamed members, changed signatures): drop it, keep the rest
            err = self.native_err
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex:
                good = list(ex.map(lambda s: self.link([s], 'd%d' % s.index, check=True), live))
            bad = [s for s, g in zip(live, good) if not g]
            live2 = [s for s, g in zip(live, good) if g]
            for s in bad: self.assumptions.add('native replay unavailable for scenario %s (driver does not compile against the current source)' % s.name)
            if live2: self.link(live2, 'drv')

    def link(self, live, name, check=False):
        nat = self.mod.NATIVE
        src = ['#include "drv.hpp"']
        src += ['#include "%s"' % h for h in nat['headers']]
        src.append(nat.get('pre', ''))
        for s in live: src.append(s.cppcode(s.nfields, s.index))
        src.append('int main(int argc, char **argv) {\n  %s\n  std::string tag;\n  while (std::cin >> tag) {\n    int k = atoi(tag.c_str()); drv::out().clear();\n    try { switch (k) {' % nat.get('init', ''))
        for s in live: src.append('      case %d: scen%d(); break;' % (s.index, s.index))
        src.append('    } } catch (drv::End &) { return 3; } catch (std::exception &e) { drv::out() += " EXC "; }\n    fprintf(stderr, "@%d%s\\n", k, drv::out().c_str()); fflush(stderr);\n  }\n  ' + nat.get('fini', '') + ' return 0; }')
        code = '\n'.join(src)
        cpp = os.path.join(self.work, name + '.cpp')
        open(cpp, 'w').write(code)
        o = os.path.join(self.work, name + '.o')
        cmd = CXX + nat.get('flags', []) + self.incs
        p = subprocess.run(cmd + (['-fsyntax-only'] if check else ['-c']) + [cpp] + ([] if check else ['-o', o]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            self.native_err = p.stderr[-4000:]
            if os.environ.get('GPV_DEBUG'): print(p.stderr[:4000])
            return False
        if check: return True
        exe = os.path.join(self.work, name)
        p = subprocess.run(['g++', '-Wl,--gc-sections', '-o', exe, o] + self.objs + nat.get('libs', []) +
                           ['-L/usr/lib/x86_64-linux-gnu', '-lboost_mpi', '-lboost_serialization', '-lmpi_cxx', '-lmpi'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            self.native_err = p.stderr[-4000:]
            if os.environ.get('GPV_DEBUG'): print(p.stderr[-4000:])
            return False
        self.exe = exe
        return True

    def run_driver(self, lines):
        """lines: token strings, one test each.  Returns list of token lists / 'CRASH ...' / None"""
        env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_pml='ob1', OMPI_MCA_btl='self,vader',
                   OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm='isolated', OMPI_MCA_plm_rsh_agent='', OMPI_MCA_opal_signal='',
                   MALLOC_PERTURB_='85', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OMPI_MCA_hwloc_base_binding_policy='none')
        res = []
        i = 0
        crashes = 0
        while i < len(lines):
            try:
                p = subprocess.run([self.exe], input='\n'.join(lines[i:]) + '\n', stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                   errors='replace', timeout=120, env=env, cwd=self.work)
                rc = p.returncode; err = p.stderr
            except subprocess.TimeoutExpired as e:
                rc = 'timeout'; err = e.stderr.decode(errors='replace') if e.stderr else ''
            got = [l for l in err.split('\n') if l.startswith('@')]
            for l in got: res.append(l[1:].split()[1:])
            i += len(got)
            if i < len(lines):
                other = [l for l in err.split('\n') if l and not l.startswith('@')]
                res.append('CRASH rc=%s %s' % (rc, (other[-1] if other else '')[:300])); i += 1
                crashes += 1
                if crashes >= 5:
                    res += [None] * (len(lines) - i); break
        return res

    # ---- one scenario ------------------------------------------------------------------------------------------
    def do_scenario(self, s):
        """prove + replay; returns plain data"""
        out = dict(name=s.name, results=[], native=[], nsamples=0, nchecks=0, encmis=0, skipped=0, limited=s.limited, proofs=0, assumptions=[])
        sys.setrecursionlimit(50000)
        pr = prove.Prover(seed=self.seed)
        cuts = s.cuts if not s.limited else None
        if cuts: cuts.prepare(s, Sampler(self.seed * 31 + s.index), self.holds, s.wanted_fields(self.baseline.get(s.name)))
        for p in s.posts:
            if s.limited or p.got is None:
                continue
            hyps = p.hyps + s.ex.assumes
            goal = p.got if p.kind == 'bool' else None
            if p.kind != 'bool':
                try: goal = t.eq(t.to_real(p.got) if p.want.sort == REAL and p.got.sort == INT else p.got, t.to_real(p.want) if p.got.sort == REAL and p.want.sort == INT else p.want)
                except TypeError as e:
                    out['results'].append(dict(name=p.label, status='unknown', how='sorts', secs=0, detail=str(e), func=s.name, kind='post')); continue
            try:
                if cuts and goal.op == '=' and goal.args[0].sort == REAL:
                    a, b = (cuts.simplify(pr, hyps, x) for x in goal.args)
                    if os.environ.get('GPV_CUTS') == p.label: print(t.pp(t.sub(a, b)))
                    goal = t.eq(a, b)
                r = pr.prove(p.label, hyps, goal, func=s.name, kind='post')
            except (RecursionError, t.TooBig) as e:
                r = prove.Result(p.label, 'unknown', 'prover', 0, 'prover gave up: %s' % e, s.name); r.kind = 'post'
            out['results'].append(dict(name=p.label, status=r.status, how=r.how, secs=r.secs, detail=r.detail, func=s.name, kind='post'))
        for label, ok, secs in (cuts.results if cuts else []):
            out['results'].append(dict(name=label, status='proved' if ok else 'unknown', how='identity', secs=secs, detail='', func=s.name, kind='lemma'))
        for lem in s.lemmas:
            if s.limited: continue
            label, hyps, goal = lem
            r = pr.prove(label, list(s.pre) + list(hyps) + s.ex.assumes, goal, func=s.name, kind='lemma')
            out['results'].append(dict(name=label, status=r.status, how=r.how, secs=r.secs, detail=r.detail, func=s.name, kind='lemma'))
        if not s.limited:
            for ob in s.ex.obls:
                if ob.goal is t.TRUE:
                    out['results'].append(dict(name='%s (%s:%s)' % (ob.desc, ob.func, ob.line), status='proved', how='simplify', secs=0, detail='', func=s.name, kind='safety')); continue
                r = pr.prove('%s (%s:%s)' % (ob.desc, ob.func, ob.line), list(s.pre) + s.call_pre + [ob.hyp] + s.ex.assumes, ob.goal, func=s.name, kind='safety')
                out['results'].append(dict(name=r.name, status=r.status, how=r.how, secs=r.secs, detail=r.detail, func=s.name, kind='safety'))
        out['assumptions'] = sorted(pr.assumptions)
        out['z3'] = [pr.z3time, pr.queries]
        bad = [r for r in out['results'] if r['status'] != 'proved']
        # native
        if self.exe and not s.proof_only and s.posts:
            n = s.samples or (250 if self.tier == 'quick' else 3000)
            if bad or s.limited: n = max(n, min(2500, 300000 // max(1, len(s.posts))))
            self.native(s, n, out)
        # vacuity: every postcondition must have a reachable state
        for i, p in enumerate(s.posts):
            if s.limited or p.got is None: continue
            if out.get('wit', {}).get(i): continue
            ok = pr.feasible(pr.flat(p.hyps), 5000)
            out['results'].append(dict(name='reachable: ' + p.label, status='proved' if ok else 'vacuous', how='z3', secs=0, detail='', func=s.name, kind='cover'))
        out['witnessed'] = len(out.get('wit', {}))
        return out

    def native(self, s, n, out):
        rng = Sampler(self.seed * 7919 + s.index)
        lines, envs = [], []
        tries, rej = 0, {}
        while len(lines) < n and tries < 20 * n:
            tries += 1
            try: toks, env, desc = s.sample(rng, s.nfields)
            except Exception as e:
                if os.environ.get('GPV_DEBUG'): raise
                out['native_err'] = 'sampler: %s' % e; return
            ok = True
            for h in list(s.pre) + list(s.sample_pre):
                try:
                    if not t.evaluate(h, env):
                        ok = False
                        if os.environ.get('GPV_REJ'): rej[h] = rej.get(h, 0) + 1
                        break
                except (t.EvalError, TypeError, OverflowError, ZeroDivisionError, ValueError):
                    pass
            if not ok: continue
            if s.cuts is not None:
                for it in s.cuts.items:
                    if it[0] != 'def': continue
                    try: env[it[1]] = t.evaluate(it[2], env)
                    except (t.EvalError, TypeError, OverflowError, ZeroDivisionError, ValueError, KeyError): pass
            lines.append('%d %s' % (s.index, ' '.join(toks)))
            envs.append((env, desc))
        for h, m in sorted(rej.items(), key=lambda x: -x[1])[:5]: print('  rejected %d: %s: %s' % (m, s.name, str(h)[:300]))
        if not lines: return
        res = self.run_driver(lines)
        out['nsamples'] = len(lines)
        wit = {}
        for (env, desc), line, r in zip(envs, lines, res):
            if r is None: continue
            if isinstance(r, str) or 'EXC' in r:
                out['native'].append(dict(post='(run)', expected='normal completion', got=r if isinstance(r, str) else 'exception', input=jsonable(desc), line=line)); continue
            pos = 0
            vals = []
            for p in sorted([p for p in s.posts if p.idx is not None], key=lambda p: p.idx):
                if p.kind == 'each':
                    m = int(r[pos]); vals.append(r[pos + 1:pos + 1 + m]); pos += 1 + m
                else:
                    vals.append(r[pos]); pos += 1
            k = 0
            for i, p in enumerate(s.posts):
                if p.idx is None: continue
                v = vals[p.idx]
                if p.kind == 'each':
                    try: nn = t.evaluate(p.n, env) if isinstance(p.n, T) else p.n
                    except Exception: out['skipped'] += 1; continue
                    if nn != len(v):
                        hy = [h for h in p.hyps if p.k not in t.fv(h)]
                        if self.holds(hy, env):
                            out['native'].append(dict(post=p.label, expected='length %s' % nn, got='length %s' % len(v), input=jsonable(desc), line=line))
                        continue
                    for j in range(nn):
                        e2 = dict(env); e2[p.k] = j
                        self.cmp(s, p, e2, v[j], out, desc, line, wit, i, j)
                else:
                    self.cmp(s, p, env, v, out, desc, line, wit, i, None)
        out['wit'] = wit

    def holds(self, hyps, env):
        for h in hyps:
            if h is t.TRUE: continue
            try:
                if not t.evaluate(h, env): return False
            except t.EvalError as x:
                if '!' in str(x): continue      # a fact about an iteration count or choice of the executor, true of every run
                return False
            except (TypeError, OverflowError, ZeroDivisionError, ValueError): return False
        return True

    def cmp(self, s, p, env, tok, out, desc, line, wit, i, j):
        # only the scenario's own preconditions and explicit hypotheses restrict the claim
        hy = [h for h in p.hyps]
        if not s.limited and not self.holds(hy, env):
            out['skipped'] += 1; return
        if s.limited and not self.holds(list(s.pre) + [h for h in hy if h not in s.pre], env):
            out['skipped'] += 1; return
        try: w = t.evaluate(p.want, env)
        except (t.EvalError, TypeError, OverflowError, ZeroDivisionError, ValueError, KeyError):
            out['skipped'] += 1; return
        so = p.want.sort
        if so == t.STR:
            g = bytes.fromhex(tok[1:]).decode('latin1')
        elif so == BOOL: g = tok not in ('0',)
        else:
            try: g = float(tok)
            except ValueError: out['skipped'] += 1; return
        out['nchecks'] += 1
        wit[i] = 1
        if not close(g, w, p.tol):
            if len(out['native']) < 20:
                out['native'].append(dict(post=p.label + ('[%d]' % j if j is not None else ''), expected=w if not callable(w) else '?', got=g, input=jsonable(desc), line=line))
            return
        if p.got is not None and not s.limited and out['nchecks'] % 3 == 0:
            try:
                e = t.evaluate(p.got, env)
                if not close(float(e) if not isinstance(e, str) else e, g, max(p.tol, 1e-6)) and so != t.STR:
                    out['encmis'] += 1
                    out.setdefault('encmis_ex', '%s: model %r native %r' % (p.label, e, g))
            except (t.EvalError, TypeError, OverflowError, ZeroDivisionError, ValueError, KeyError): pass

    # ---- top ---------------------------------------------------------------------------------------------------
    def run(self):
        try:
            sys.setrecursionlimit(50000)
            self.native_err = None
            T = [time.time()]
            def lap(w):
                if os.environ.get('GPV_DEBUG'): print('  [%s %.1fs]' % (w, time.time() - T[0]))
                T[0] = time.time()
            self.exe = None
            try:
                self.extract(); lap('extract')
                self.build(); lap('execute')
            except ExtractError as e:
                self.fatal = str(e)
                self.assumptions.add('NOT DECIDED: extraction failed: %s' % str(e)[-500:])
            for i, s in enumerate(self.scens): s.index = i
            if self.scens: self.build_native()
            lap('native build')
            if hasattr(self.mod, 'EXTRA'):
                self.extra = self.mod.EXTRA(self)
            ctx = multiprocessing.get_context('fork')
            global _self
            _self = self
            if self.scens:
                with ctx.Pool(min(8, len(self.scens))) as pool:
                    self.outs = pool.map(_work, range(len(self.scens)), chunksize=1)
            else: self.outs = []
            lap('prove')
            return self.verdict()
        finally:
            os.environ.get("GPV_KEEP") or shutil.rmtree(self.work, ignore_errors=True)

    def known(self, scen, label):
        for k in self.kf:
            if k['scenario'] == scen and (k['label'] == label or label.startswith(k['label'])):
                return k
        return None

    def verdict(self):
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        viol = []
        for o in self.outs:
            if 'error' in o:
                self.assumptions.add('NOT DECIDED: scenario %s: internal error %s' % (o['name'], o['error'][-300:])); continue
            # natively failing inputs
            fails = []
            for f in o['native']:
                k = self.known(o['name'], f['post'])
                if k: self.known_hit.append(k); continue
                fails.append(f)
            bad = []
            for r in o['results']:
                if r['status'] in ('refuted', 'unknown', 'vacuous'):
                    k = self.known(o['name'], r['name'])
                    if k: self.known_hit.append(k); continue
                    bad.append(r)
            if fails or bad:
                viol.append((o, fails, bad))
        for x in getattr(self, 'extra', None) or []:
            # extra checks report dicts: name,status('proved'|'refuted'|'bounded-ok'|'bounded-fail'|'undecided'),detail,input
            if x['status'] in ('refuted', 'bounded-fail'):
                if self.known(x.get('scenario', 'extra'), x['name']): self.known_hit.append(self.known(x.get('scenario', 'extra'), x['name'])); continue
                viol.append((dict(name=x.get('scenario', 'extra')), [x] if x.get('input') is not None else [], [x] if x.get('input') is None else []))
        paths = []
        rc = 0
        printed = set()
        for k in self.known_hit:
            line = 'KNOWN-FINDING: property=%s %s' % (self.pid, k['what'])
            if line not in printed: print(line); printed.add(line)
        # violations with a failing input first
        viol.sort(key=lambda v: 0 if v[1] else 1)
        for n, (o, fails, bad) in enumerate(viol[:6]):
            path = os.path.join(VERIF, 'replay', '%s_%d.json' % (self.pid, n))
            json.dump(dict(property=self.pid, scenario=o['name'], seed=self.seed, failing_inputs=fails[:5], failed_obligations=bad[:10],
                           how='python3-vt /verif/check.py %s' % self.pid), open(path, 'w'), indent=1, default=str)
            paths.append(path)
            rc = 1
            if fails:
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            else:
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, path))
            for f in fails[:1]: print('  scenario %s: %s expected %s got %s' % (o['name'], f.get('post', f.get('name')), f.get('expected'), f.get('got', f.get('detail'))))
            for b in bad[:3]: print('  scenario %s: obligation not discharged (%s): %s -- %s' % (o['name'], b['status'], b['name'], str(b.get('detail'))[:300]))
        self.evidence(viol, paths)
        tot = [r for o in self.outs for r in o.get('results', [])]
        print('%s: %d obligations, %d discharged, %d scenarios (%d out of the verifier\'s reach), native checks %d, %.1fs' % (
            self.pid, len(tot), sum(r['status'] == 'proved' for r in tot), len(self.outs), sum(1 for o in self.outs if o.get('limited')),
            sum(o.get('nchecks', 0) for o in self.outs), time.time() - self.t0))
        if os.environ.get('GPV_DEBUG') or os.environ.get('GPV_VERBOSE'):
            for o in self.outs:
                print('  ', o['name'], '%.1fs' % o.get('wall', 0), 'limited=%s' % o.get('limited'), 'samples', o.get('nsamples'), 'checks', o.get('nchecks'), 'skipped', o.get('skipped'), 'encmis', o.get('encmis'), o.get('encmis_ex', ''), o.get('native_err', ''), o.get('error', ''))
            if self.native_err: print('native error:', self.native_err[-3000:])
            for a in sorted(self.assumptions): print('  A:', a)
        return rc

    def evidence(self, viol, paths):
        tot = [r for o in self.outs for r in o.get('results', [])]
        how = {}
        for r in tot:
            if r['status'] == 'proved': how[r['how']] = how.get(r['how'], 0) + 1
        inl, used, notes = {}, {}, set()
        for s in self.scens:
            for k, v in s.ex.inlined.items(): inl[k] = '%s:%s' % (v[0].replace(REPO + '/', ''), v[1])
            for k, v in s.ex.used_contracts.items(): used[k] = used.get(k, 0) + v
            notes |= s.ex.notes
        under = sorted({s.entry for s in self.scens if s.entry and not s.limited})
        A = set(self.assumptions) | notes
        for o in self.outs: A |= set(o.get('assumptions', []))
        A |= {'double arithmetic is treated as exact real arithmetic; int arithmetic as mathematical integers',
              'standard library, boost and libm calls follow the contracts in gpv/lib.py',
              'the extractor (tool/cxx2ir.cpp on clang 18) and the executor/normaliser in gpv/ are trusted; cross-checked by running the compiled functions on sampled states'}
        lim = [dict(scenario=o['name'], why=o['limited'], native_checks=o.get('nchecks', 0)) for o in self.outs if o.get('limited')]
        nob = len(tot)
        ndis = sum(r['status'] == 'proved' for r in tot)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=getattr(self.mod, 'LEVEL', 'proof'),
                  coverage=dict(obligations=nob, discharged=ndis, failed=nob - ndis,
                                checker_cmd='python3-vt /verif/check.py %s --tier %s' % (self.pid, self.tier),
                                trusted_base=['clang-18 front end', 'tool/cxx2ir.cpp', 'gpv/symex.py', 'gpv/loops.py', 'gpv/lib.py (assumed library contracts)', 'gpv/terms.py rational normaliser', 'z3', 'cvc5'],
                                functions_under_contract=under, functions_inlined=inl, contracts_used_at_calls=used,
                                backends=how, solver_seconds=round(sum(o.get('z3', [0])[0] for o in self.outs), 2),
                                solver_queries=sum(o.get('z3', [0, 0])[1] for o in self.outs),
                                bounded_standins=lim,
                                replay=dict(samples=sum(o.get('nsamples', 0) for o in self.outs), checks=sum(o.get('nchecks', 0) for o in self.outs),
                                            encoder_mismatches=sum(o.get('encmis', 0) for o in self.outs)),
                                scenarios=[dict(name=o['name'], obligations=len(o.get('results', [])), discharged=sum(r['status'] == 'proved' for r in o.get('results', [])),
                                                witnessed=o.get('witnessed'), native_checks=o.get('nchecks')) for o in self.outs],
                                extra=[{k: (str(v)[:500]) for k, v in x.items() if k != 'input'} for x in (getattr(self, 'extra', None) or [])],
                                native_build=self.native_err[-800:] if self.native_err else 'ok'),
                  assumptions=sorted(A), wall_s=round(time.time() - self.t0, 2),
                  violations=len(viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)


def _work(i):
    try:
        t0 = time.time()
        r = _self.do_scenario(_self.scens[i])
        r['wall'] = time.time() - t0
        return r
    except Exception as e:
        return dict(name=_self.scens[i].name, error=traceback.format_exc(), results=[], native=[])


def close(a, b, tol):
    if isinstance(a, str) or isinstance(b, str): return a == b
    if isinstance(b, bool) or isinstance(a, bool): return bool(a) == bool(b)
    try:
        if math.isnan(a) or math.isnan(b): return math.isnan(a) == math.isnan(b)
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    except TypeError:
        return False


def jsonable(x):
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, complex): return [x.real, x.imag]
    if isinstance(x, set): return sorted(x)
    return x
