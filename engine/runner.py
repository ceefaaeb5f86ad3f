"""Runs the harness configurations of one property: symbolic execution + solver, validation, replay, evidence."""
import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction
from . import talk

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable


class Timeout(BaseException):
    pass


def load_property(pid):
    import importlib
    sys.path.insert(0, ROOT) if ROOT not in sys.path else None
    return importlib.import_module('props.' + pid.lower())


def known_ids():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                kid, rest = line[len('finding:'):].strip().split(' ', 1)
                out[kid] = rest
    return out


# --------------------------------------------------------------------------------------------------------------------
# symbolic side
# --------------------------------------------------------------------------------------------------------------------
def _viol(x, y, scale=None):
    if x != x or y != y:
        return not (x != x and y != y)
    if math.isinf(x) or math.isinf(y):
        return x != y
    s = max(abs(x), abs(y), scale or 0.)
    return abs(x - y) > 3e-6 * s + 1e-9


class Decision(object):
    """decides the assertions of one path"""
    def __init__(self, solver, explorer, env, stats, known):
        self.s, self.ex, self.env, self.stats, self.known = solver, explorer, env, stats, known

    def cond_holds(self, asg, cache):
        from . import sym
        for m, signs in self.ex.cond:
            v = sym.evaluate(sym.Sym(Fraction(1), m), asg, cache)
            sg = '0' if v == 0 else ('+' if v > 0 else '-')
            if v != v or sg not in signs:
                return False
        return True

    def full(self, asg, salt=0):
        from .env import draw
        out = {}
        for n, (lo, hi) in self.env.vars.items():
            if n in self.env.fixed:
                out[n] = self.env.fixed[n]
            elif n in asg:
                out[n] = asg[n]
            else:
                out[n] = float(draw((self.env.seed, salt), n, lo, hi))
        for b in sys.modules['engine.sym'].BASES:
            if b.kind == 'var' and b.name.startswith('uninit'):
                out[b.name] = 12345.678
        return out

    def candidates(self, model):
        if model is not None:
            yield self.full(model, 0)
        pm = self.s.path_model(self.ex.cond)
        if pm:
            yield self.full(pm, 1)
        for salt in range(2, 400):
            yield self.full({}, salt)
            if pm and salt < 60:
                # perturbations of the model of the path condition
                a = self.full({}, salt)
                b = self.full(pm, 1)
                w = (salt % 10) / 40.
                yield {k: b[k] * (1 - w) + a[k] * w for k in b}
        # very small and very large values of the inputs that may have any positive value
        for salt in range(400, 412):
            f = (1e-10, 1e-20, 1e10, 1e20)[salt % 4]
            a = self.full({}, salt)
            yield {k: v * f if self.env.vars.get(k) == (0, None) and k not in self.env.fixed else v for k, v in a.items()}

    def numeric(self, x, y, model, scale=None):
        """an assignment on this path for which x and y differ substantially"""
        from . import sym

        def extreme(asg):
            return any(self.env.vars.get(k) == (0, None) and not 1e-8 < abs(v) < 1e8 for k, v in asg.items())
        for asg in self.candidates(model):
            cache = {}
            try:
                if not self.cond_holds(asg, cache):
                    continue
                u, v = sym.evaluate(x, asg, cache), sym.evaluate(y, asg, cache)
            except (KeyError, OverflowError, ZeroDivisionError):
                continue
            if _viol(u, v, scale) and not (extreme(asg) and not math.isfinite(v)):
                return asg
        return None

    def witness(self):
        from . import sym
        for asg in self.candidates(None):
            try:
                if self.cond_holds(asg, {}):
                    return asg
            except (KeyError, OverflowError, ZeroDivisionError):
                continue
        return None

    def known_identity(self, x, y, alt):
        """x is the value of a known finding (and not the required one)"""
        from . import sym
        try:
            x, y, alt = sym.lift(x), sym.lift(y), sym.lift(alt)
        except (sym.EngineError, TypeError):
            sym.ENGINE_ERRORS.clear()
            return False
        if x.special or y.special or alt.special:
            return False
        return (x - alt).c == 0 and (x - y).c != 0 and self.s.opaque_query(x, alt) == 'unsat'

    def eq(self, x, y, tol=None, scale=None):
        """'ok', ('cex', assignment), ('unknown', reason)"""
        from . import sym
        if x is None or y is None:
            w = self.witness()
            return ('cex', w) if w is not None else ('unknown', 'shape mismatch on a path without witness')
        try:
            x, y = sym.lift(x), sym.lift(y)
        except sym.EngineError:
            return ('unknown', 'not a number')
        if x.special or y.special:
            self.stats['assertions'] += 1
            if x.special == y.special:
                return 'ok'
            if self.s.feasible(self.ex.cond) == 'unsat':
                return 'ok'
            w = self.witness()
            return ('cex', w) if w is not None else ('unknown', 'special value on a path without witness')
        self.stats['assertions'] += 1
        d = x - y
        if d.c == 0:
            self.stats['identities'] += 1
            n = 1
            for v in (x, y):
                k = 1
                for b, e in v.m:
                    if sym.BASES[b].kind == 'poly':
                        k *= len(sym.BASES[b].data) ** min(4, abs(int(math.ceil(abs(e)))))
                n *= k
            r = None
            if n <= 400:
                r, _ = self.s.equal_query(self.ex.cond, x, y)
                if r == 'sat':
                    return ('unknown', 'normal form and solver disagree')
            if r != 'unsat':
                r = self.s.opaque_query(x, y)
            self.stats['z3_unsat' if r == 'unsat' else 'z3_unknown'] += 1
            return 'ok'
        # tolerance (weights of numerical kernels are rounded to 12 digits)
        t = Fraction(1, 10 ** 8) if tol is None else Fraction(tol)
        ref = y if scale is None else sym.lift(scale)
        if ref.c != 0 and ref.sign() in ('+', '-', '0+', '0-'):
            yy = ref * t if ref.sign() in ('+', '0+') else -(ref * t)
            try:
                e1, e2 = yy - d, yy + d
                if self.s.nonneg_linear(e1) and self.s.nonneg_linear(e2):
                    self.stats['tolerance'] += 1
                    return 'ok'
            except sym.TooLarge:
                sym.ENGINE_ERRORS.clear()
        r, model = self.s.refute(self.ex.cond, [(d.m, frozenset('+-'))])
        if r == 'unsat':
            return 'ok'
        sc = None
        if scale is not None:
            v = sym.const_value(sym.lift(scale))
            sc = v
        a = self.numeric(x, y, model, sc)
        if a is not None:
            return ('cex', a)
        # a difference that is large enough to be seen in the execution of the package
        if r == 'sat':
            ref = sym.lift(scale) if scale is not None else y if y.sign() == '+' else sym.Sym(Fraction(1), ())
            for k in (1, 100, 10000, 1000000 // 4):
                rs = []
                for e in (d - ref * Fraction(1, k), -d - ref * Fraction(1, k)):
                    if not e.m:
                        continue
                    rk, mk = self.s.refute(self.ex.cond, [(e.m, frozenset('+' if e.c > 0 else '-'))])
                    rs.append(rk)
                    if mk is not None:
                        a = self.numeric(x, y, mk, sc)
                        if a is not None:
                            return ('cex', a)
                if 'unknown' in rs:
                    break
        # tolerance query
        eps = sym.Sym(Fraction(1, 10 ** 7), ())
        r1, m1 = self.s.refute(self.ex.cond, [((d - eps).m, frozenset('+' if (d - eps).c > 0 else '-'))]) \
            if (d - eps).m else ('unsat', None)
        e2 = -d - eps
        r2, m2 = self.s.refute(self.ex.cond, [(e2.m, frozenset('+' if e2.c > 0 else '-'))]) if e2.m else ('unsat', None)
        if r1 == 'unsat' and r2 == 'unsat':
            self.stats['tolerance'] += 1
            return 'ok'
        for m in (m1, m2):
            if m is not None:
                a = self.numeric(x, y, m, sc)
                if a is not None:
                    return ('cex', a)
        return ('unknown', 'solver: {}, no numerical counterexample'.format(r))

    def true(self, cond, margin=None):
        from . import sym
        self.stats['assertions'] += 1
        if isinstance(cond, sym.SymBool):
            d = cond.d
            pos = {'>': '+', '>=': '0+', '==': '0'}[cond.op]
            flip = {'+': '-', '-': '+', '0': '0'}
            ts = frozenset(pos if d.c > 0 else [flip[c] for c in pos])
            bad = (frozenset('-0+') - ts) if not cond.neg else ts
            r, model = self.s.refute(self.ex.cond, [(d.m, bad)])
            if r == 'unsat':
                return 'ok'
            for asg in self.candidates(model):
                cache = {}
                try:
                    if not self.cond_holds(asg, cache):
                        continue
                    v = sym.evaluate(sym.Sym(Fraction(1), d.m), asg, cache)
                except (KeyError, OverflowError, ZeroDivisionError):
                    continue
                if margin is not None:
                    mv = sym.evaluate(margin, asg, cache)
                    if mv < -1e-6:
                        return ('cex', asg)
                    continue
                if ('+' if v > 0 else '-' if v < 0 else '0') in bad:
                    return ('cex', asg)
            return ('unknown', 'solver: {}, no numerical counterexample'.format(r))
        if bool(cond):
            return 'ok'
        if self.ex.cond and self.s.feasible(self.ex.cond) == 'unsat':
            return 'ok'
        w = self.witness()
        return ('cex', w) if w is not None else ('unknown', 'assertion fails on a path without witness')


class FunctionTrace(object):
    def __init__(self):
        self.names = set()

    def __call__(self, frame, event, arg):
        if event == 'call':
            code = frame.f_code
            fn = code.co_filename
            if fn.startswith(REPO):
                self.names.add('{}:{}'.format(os.path.relpath(fn, REPO), getattr(code, 'co_qualname', code.co_name)))


def run_symbolic(args):
    """executed in a forked worker"""
    prop, index, name, params, seed, keep_n, limit = args
    from . import sym, npx, path, solve
    from .env import SymEnv, HarnessAbort
    bl = sys.modules[npx.PACKAGE]
    res = dict(index=index, name=name, status='decided', paths=0, decisions=0, assertions=0, identities=0, tolerance=0,
               z3_unsat=0, z3_unknown=0, cex=[], unknown=[], known=[], witnesses=[], functions=[], vars=0, symbolic=0,
               assumed_out=0)
    solver = solve.Solver()
    ex = path.Explorer(solver, max_paths=params.get('max_paths', 600))
    known = known_ids()
    fset = FunctionTrace()
    keep = None if keep_n is None else (lambda i: i < keep_n)
    t0 = time.time()

    fired = []

    def on_alarm(*a):
        fired.append(1)
        raise Timeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 5)      # repeated: callbacks of extension modules swallow exceptions
    first = [True]

    def run(explorer):
        sym.ENGINE_ERRORS.clear()
        npx.PLOT_CALLS.clear()
        sym.FORK_MAX[0] = False
        sym.TINY = getattr(prop, 'TINY', 1e-200)
        env = SymEnv(bl, explorer, seed, keep)
        err = None
        if first[0]:
            sys.setprofile(fset)
        try:
            with talk.output(bl, talk.talks(name)):
                prop.harness(env, **{k: v for k, v in params.items() if k != 'max_paths'})
        except sym.EngineError:
            raise
        except HarnessAbort:
            raise path.PathAbort('assumption')
        except Exception as e:
            if fired:
                raise Timeout()
            err = (type(e).__name__, str(e)[:300], traceback.format_exc()[-1200:])
        finally:
            sys.setprofile(None)
            first[0] = False
        if fired:
            raise Timeout()
        return env, err, list(sym.ENGINE_ERRORS)

    try:
        for env, err, eng in ex.explore(run):
            dec = Decision(solver, ex, env, res, known)
            res['vars'] = max(res['vars'], len(env.vars))
            res['symbolic'] = max(res['symbolic'], len(env.vars) - len(env.fixed))
            if eng:
                res['unknown'].append('engine: ' + eng[0])
                res['status'] = 'inconclusive'
                continue
            sym.DECIDER[0] = None
            if err is not None:
                w = dec.witness()
                if w is None:
                    if solver.feasible(ex.cond) == 'unsat':
                        continue
                    res['unknown'].append('exception without witness: ' + err[1])
                    res['status'] = 'inconclusive'
                else:
                    w.update(env.choices)
                    res['cex'].append(dict(label='exception ' + err[0] + ': ' + err[1], assignment=w, trace=err[2]))
                if len(res['cex']) >= 6:
                    break
                continue
            for a in env.asserts:
                if a[0] == 'eq':
                    _, label, x, y, kn, tol, scale = a
                    if kn is not None and kn[0] in known and kn[1] is not None and dec.known_identity(x, y, kn[1]):
                        res['assertions'] += 1
                        if kn[0] not in res['known']:
                            res['known'].append(kn[0])
                        continue
                    v = dec.eq(x, y, tol, scale)
                    if v != 'ok' and kn is not None and kn[0] in known and kn[1] is not None:
                        v2 = dec.eq(x, kn[1], tol, scale)
                        if v2 == 'ok':
                            if kn[0] not in res['known']:
                                res['known'].append(kn[0])
                            continue
                        # keep a counterexample that differs from the known finding as well
                        if v2[0] == 'cex' and v[0] == 'cex':
                            v = v2
                else:
                    label = a[1]
                    v = dec.true(a[2], a[3] if len(a) > 3 else None)
                if v == 'ok':
                    continue
                if v[0] == 'cex':
                    w = dict(v[1])
                    w.update(env.choices)
                    if len(res['cex']) < 6:
                        res['cex'].append(dict(label=label, assignment=w))
                else:
                    res['unknown'].append(label + ': ' + v[1])
                    res['status'] = 'inconclusive'
            # a witness of every path (vacuity) and its predicted observations (validation of the engine)
            if len(res['witnesses']) < params.get('witnesses', 2) or ex.paths % 50 == 0:
                w = dec.witness()
                if w is not None:
                    obs = []
                    cache = {}
                    for lab, v in env.observed:
                        try:
                            obs.append([lab, sym.evaluate(sym.lift(v), w, cache)])
                        except (KeyError, OverflowError, sym.EngineError):
                            obs.append([lab, None])
                    w.update(env.choices)
                    res['witnesses'].append(dict(assignment=w, observed=obs))
            if len(res['cex']) >= 6:
                break
    except Timeout:
        res['status'] = 'inconclusive'
        res['unknown'].append('time limit of {} s'.format(limit))
    except sym.EngineError as e:
        res['status'] = 'inconclusive'
        res['unknown'].append('{}: {}'.format(type(e).__name__, str(e)[:200]))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except Exception as e:
        res['status'] = 'inconclusive'
        res['unknown'].append('internal: {}: {}'.format(type(e).__name__, str(e)[:200]))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if res['cex']:
        res['status'] = 'refuted'
    res['paths'] = ex.paths
    res['decisions'] = ex.decisions_total
    res['functions'] = sorted(fset.names)
    res['linear'] = sorted(set(npx.LINEAR_CALLS))
    res['queries'] = solver.queries
    res['solver'] = [solver.unsat, solver.sat, solver.unknown]
    res['solver_time'] = solver.time
    res['wall'] = time.time() - t0
    if res['status'] == 'decided' and res['assertions'] == 0:
        res['status'] = 'inconclusive'
        res['unknown'].append('no assertion was reached')
    return res


def _safe(args):
    try:
        return run_symbolic(args)
    except BaseException as e:
        return dict(index=args[1], name=args[2], status='inconclusive', paths=0, decisions=0, assertions=0,
                    identities=0, tolerance=0, z3_unsat=0, z3_unknown=0, cex=[], known=[], witnesses=[], functions=[],
                    vars=0, symbolic=0, linear=[], queries=0, solver=[0, 0, 0], solver_time=0., wall=0.,
                    unknown=['worker: {}: {}'.format(type(e).__name__, e)])


# --------------------------------------------------------------------------------------------------------------------
# concrete side
# --------------------------------------------------------------------------------------------------------------------
def run_concrete(pid, tier, seed, jobs, workers=8, timeout=600):
    """jobs: list of (config index, assignment); returns list of results (None: the process died)"""
    out = [None] * len(jobs)
    if not jobs:
        return out
    n = max(1, min(workers, (len(jobs) + 5) // 6))
    chunks = [[] for _ in range(n)]
    for i, j in enumerate(jobs):
        chunks[i % n].append((i, j))
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
    env.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    for c in chunks:
        p = subprocess.Popen([PY, os.path.join(ROOT, 'check.py'), '--concrete', pid, tier, str(seed)],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=ROOT)
        procs.append((p, c))
    import threading

    def talk(p, c):
        data = json.dumps([[i, j[0], j[1]] for i, j in c]).encode()
        try:
            o, _ = p.communicate(data, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
        for line in o.decode(errors='replace').splitlines():
            if line.startswith('@@RESULT '):
                r = json.loads(line[9:])
                out[r['job']] = r
    ts = [threading.Thread(target=talk, args=pc) for pc in procs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


def concrete_main(pid, tier, seed):
    """in a fresh process: the unmodified package"""
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import io
    import contextlib
    real_out = sys.stdout
    import numpy as np
    import matplotlib
    matplotlib.use('Agg')
    with contextlib.redirect_stdout(io.StringIO()):
        import bayesloop as bl
    from .env import ConcreteEnv, HarnessAbort
    np.seterr(all='ignore')
    prop = load_property(pid)
    configs = dict(enumerate(prop.configs(tier)))
    jobs = json.loads(sys.stdin.read())
    real_empty = np.empty
    for job, index, asg in jobs:
        name, params = configs[index]
        env = ConcreteEnv(bl, np, asg, seed, known=known_ids())
        res = dict(job=job, failures=[], error=None, observed=[], known=[], aborted=False, checked=0)
        if any(k.startswith('uninit') for k in asg):
            def empty(shape, dtype=float, *a, **k):
                r = real_empty(shape, dtype, *a, **k)
                if r.dtype.kind == 'f':
                    r.fill(12345.678)
                return r
            np.empty = empty
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
                    talk.output(bl, talk.talks(name)):
                prop.harness(env, **{k: v for k, v in params.items() if k not in ('max_paths',)})
        except HarnessAbort:
            res['aborted'] = True
        except Exception as e:
            res['error'] = '{}: {}'.format(type(e).__name__, str(e)[:300])
            res['trace'] = traceback.format_exc()[-1500:]
        finally:
            np.empty = real_empty
        res['failures'] = env.failures[:10]
        res['known'] = sorted(set(env.known_hits))
        res['checked'] = env.checked
        res['observed'] = env.observed
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass
        real_out.write('@@RESULT ' + json.dumps(res) + '\n')
        real_out.flush()


# --------------------------------------------------------------------------------------------------------------------
# main
# --------------------------------------------------------------------------------------------------------------------
def confirmed(pid, tier, seed, results):
    """a counterexample found so far fails in the real code: no need to decide the remaining configurations"""
    jobs = [(i, c['assignment']) for i, r in sorted(results.items()) for c in r['cex'][:1]]
    return any(c and not c['aborted'] and (c['failures'] or c['error'])
               for c in run_concrete(pid, tier, seed, jobs[:16], timeout=200))


def check(pid, tier, seed, only=None, verbose=False):
    t0 = time.time()
    os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    prop = load_property(pid)
    configs = list(prop.configs(tier))
    from . import npx
    import warnings
    warnings.simplefilter('ignore')
    npx.rnp.seterr(all='ignore')
    importable = True
    try:
        npx.load_symbolic()
    except BaseException as e:
        importable = False
        print('engine: package cannot be loaded symbolically: {}: {}'.format(type(e).__name__, e))
    limit = prop.LIMIT.get(tier, 60) if hasattr(prop, 'LIMIT') else (60 if tier == 'quick' else 600)
    todo = [(i, n, p) for i, (n, p) in enumerate(configs) if only is None or only in n]
    results = {}
    attempts = [(i, n, p, None) for i, n, p in todo] if importable else []
    ctx = mp.get_context('fork')
    rounds = 0
    if tier == 'quick':
        DEADLINE[0] = t0 + 480.
    workers = int(os.environ.get('VERIF_WORKERS', '8'))
    while attempts and rounds < 4:
        rounds += 1
        if rounds > 1 and (time.time() > DEADLINE[0] - 30. or confirmed(pid, tier, seed, results)):
            break
        with ctx.Pool(workers, maxtasksperchild=1) as pool:
            tasks = [(_P(pid), i, n, p, seed, k, limit if k is None else limit / 2.) for i, n, p, k in attempts]
            retry = []
            for r in pool.imap_unordered(_safe_pid, tasks):
                i = r['index']
                old = results.get(i)
                k = next(t[5] for t in tasks if t[1] == i)
                r['slice'] = k
                if r['status'] == 'inconclusive' and (k is None or k > 0):
                    nk = {None: 4, 4: 1, 1: 0}.get(k, 0)
                    retry.append((i, r['name'], configs[i][1], nk))
                    r['retried'] = True
                if old is not None:
                    r['first_attempt'] = old.get('first_attempt', []) + [dict(slice=old.get('slice'),
                                                                          unknown=old['unknown'][:2])]
                    r['queries'] += old['queries']
                    r['solver_time'] += old['solver_time']
                    r['solver'] = [a + b for a, b in zip(r['solver'], old['solver'])]
                    if not r['witnesses']:
                        r['witnesses'] = old['witnesses']
                results[i] = r
                if verbose:
                    print('  {:40s} {:12s} paths {:4d} asserts {:5d} ident {:5d} tol {:4d} q {:5d} {:.1f}s/{:.1f}s {} {}'
                          .format(r['name'][:40], r['status'], r['paths'], r['assertions'], r['identities'],
                                  r['tolerance'], r['queries'], r['solver_time'], r['wall'],
                                  'known ' + ','.join(r['known']) if r['known'] else '',
                                  '; '.join(r['unknown'][:2]) or '; '.join(c['label'] for c in r['cex'][:2])))
            attempts = retry
    # concrete executions: counterexamples, path witnesses, and for undecided configurations default inputs
    jobs, meta = [], []
    for i, n, p in todo:
        r = results.get(i)
        if r is not None:
            for c in r['cex']:
                jobs.append((i, c['assignment']))
                meta.append(('cex', i, c))
            for w in r['witnesses'][:6]:
                jobs.append((i, w['assignment']))
                meta.append(('witness', i, w))
        if r is None or r['status'] == 'inconclusive' or not r['witnesses']:
            jobs.append((i, {}))
            meta.append(('default', i, None))
    conc = run_concrete(pid, tier, seed, jobs,
                        timeout=600 if tier != 'quick' else max(60., 820. - (time.time() - t0)))
    violations, unreproduced, mismatches, validated = [], [], [], 0
    known_hits = set()
    for (kind, i, m), job, c in zip(meta, jobs, conc):
        name = configs[i][0]
        if c is None:
            (unreproduced if kind == 'cex' else mismatches).append('{}: concrete run died'.format(name))
            continue
        known_hits.update(c['known'])
        if c['aborted']:
            continue
        bad = c['failures'] or c['error']
        if bad:
            violations.append(dict(property=pid, tier=tier, seed=seed, config_index=i, config=name, assignment=job[1],
                                   failures=c['failures'], error=c['error'], trace=c.get('trace'),
                                   found_by='solver counterexample' if kind == 'cex' else
                                   'execution of a path witness', claimed=m.get('label') if kind == 'cex' else None))
            continue
        if kind == 'cex':
            unreproduced.append('{}: {}'.format(name, m['label']))
            results[i]['status'] = 'inconclusive'
            results[i]['unknown'].append('counterexample not reproduced: ' + m['label'])
        elif kind == 'witness':
            validated += 1
            want, got = m['observed'], c['observed']
            if len(want) != len(got):
                mismatches.append('{}: {} vs {} observations'.format(name, len(want), len(got)))
            for (l1, v1), (l2, v2) in zip(want, got):
                if v1 is None or v2 is None:
                    continue
                if _viol(v1, v2):
                    mismatches.append('{}: {} {} (symbolic) vs {} (real)'.format(name, l1, v1, v2))
                    break
    for i in results:
        known_hits.update(results[i]['known'])
    known = known_ids()
    decided = [r for r in results.values() if r['status'] == 'decided']
    undecided = [r for r in results.values() if r['status'] == 'inconclusive']
    replay = None
    if violations:
        d = os.path.join(ROOT, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(violations[0], sort_keys=True, default=str).encode()).hexdigest()[:10]
        replay = os.path.join(d, '{}-{}.json'.format(pid, h))
        with open(replay, 'w') as f:
            json.dump(violations[0], f, indent=1, default=str)
    tot = lambda k: sum(r[k] for r in results.values())
    functions = sorted(set(f for r in results.values() for f in r['functions']))
    samples = []
    for r in sorted(decided, key=lambda r: r['index'])[:4]:
        if r['witnesses']:
            w = r['witnesses'][0]
            samples.append(dict(config=r['name'], witness=dict(list(w['assignment'].items())[:12]),
                                observed=w['observed'][:6]))
    if not samples:
        samples.append(dict(config=configs[0][0]))
    evidence = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot('paths'), transitions=tot('decisions') + tot('paths'),
            traces_validated_against_impl=validated, samples=samples,
            explanation='states: symbolic paths executed to the end; transitions: branch decisions plus path ends; '
                        'every path stands for all real-valued inputs that satisfy its path condition',
            functions_encoded=functions,
            source_files={os.path.relpath(p, REPO): hashlib.sha256(s).hexdigest()[:16]
                          for p, s in npx.ENCODED_FILES.items()},
            bounds=getattr(prop, 'BOUNDS', ''),
            configurations=[dict(name=r['name'], status=r['status'], paths=r['paths'], assertions=r['assertions'],
                                 inputs=r['vars'], symbolic_inputs=r['symbolic'],
                                 slice=r.get('slice'), solver_queries=r['queries'],
                                 solver_time_s=round(r['solver_time'], 3), undecided=r['unknown'][:3],
                                 first_attempts=r.get('first_attempt', []), probed_operators=r.get('linear', []))
                            for r in sorted(results.values(), key=lambda r: r['index'])],
            assertions=tot('assertions'), equalities_with_coinciding_normal_form=tot('identities'),
            equalities_confirmed_unsat_by_z3=tot('z3_unsat'), equalities_by_normal_form_alone=tot('z3_unknown'),
            assertions_closed_within_tolerance=tot('tolerance'),
            solver_queries=tot('queries'),
            solver_verdicts=dict(unsat=sum(r['solver'][0] for r in results.values()),
                                 sat=sum(r['solver'][1] for r in results.values()),
                                 unknown=sum(r['solver'][2] for r in results.values())),
            solver_time_s=round(tot('solver_time'), 3),
            configurations_decided=len(decided), configurations_undecided=len(undecided),
            engine_mismatches=mismatches[:10], unreproduced_counterexamples=unreproduced[:10],
            known_findings=sorted(k for k in known_hits if k in known)),
        assumptions=BASE_ASSUMPTIONS + list(getattr(prop, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 3), violations=len(violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    for k in sorted(known_hits):
        if k in known:
            print('KNOWN-FINDING: property={} {} {}'.format(pid, k, known[k]))
    print('{}: {} configurations, {} decided, {} undecided, {} paths, {} assertions, {} queries, solver {:.1f} s, '
          '{} validated runs, {:.1f} s'.format(pid, len(results), len(decided), len(undecided), tot('paths'),
                                              tot('assertions'), tot('queries'), tot('solver_time'), validated,
                                              time.time() - t0))
    for m in mismatches[:5]:
        print('ENGINE-MISMATCH', m)
    for u in unreproduced[:5]:
        print('UNREPRODUCED', u)
    for r in undecided[:8]:
        print('UNDECIDED', r['name'], '|', '; '.join(r['unknown'][:2]))
    if violations:
        v = violations[0]
        print('violated: {} | {}'.format(v['config'], v['failures'][:3] or v['error']))
        print('VIOLATION property={} replay={}'.format(pid, replay))
        return 1
    if not decided:
        print('NO-ANSWER: no configuration was decided by the solver')
        return 2
    return 0


BASE_ASSUMPTIONS = [
    'claims are about exact real arithmetic; floating-point rounding is outside the claim (concrete runs are compared '
    'with a relative tolerance of 1e-6)',
    'NumPy array functions are modelled by engine/npx.py; SciPy filters are modelled by the matrix obtained by '
    'applying the real function to all unit vectors (weights rounded to 13 significant digits, weights below 1e-15 '
    'dropped)',
    'numbers with absolute value below 1e-200 are treated as zero',
]


DEADLINE = [float('inf')]


class _P(str):
    pass


def _safe_pid(args):
    args = [load_property(str(args[0]))] + list(args[1:])
    args[6] = max(1., min(args[6], DEADLINE[0] - time.time()))     # time limit, within the budget of the whole check
    return _safe(tuple(args))


def replay(path):
    v = json.load(open(path))
    out = run_concrete(v['property'], v['tier'], v['seed'], [(v['config_index'], v['assignment'])])
    print(json.dumps(out[0], indent=1))
    return 1 if out[0] and (out[0]['failures'] or out[0]['error']) else 0
