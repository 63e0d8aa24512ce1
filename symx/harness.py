"""
Harness runner: executes a property harness symbolically over the shimmed
import of the real code, discharges its assertions with z3, replays every
counterexample on the untouched import and writes the evidence.
"""
import os, sys, json, time, math, random, tempfile, shutil, traceback, warnings, signal
from fractions import Fraction
import multiprocessing as mp
import numpy as np
from . import core, nps, load, fakeio
from .core import E, Sym, SymBool, EngineError, Inconclusive, PathAbort

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class AssumeFailed(Exception):
    pass

REG = {}      # property -> list of (name, fn, exact, configs, opts)

def mixed(cfgs, n, ok=None, seed=1, p=0.4):
    """configurations combining the values of given ones, the same every time"""
    rnd = random.Random(seed)
    key = lambda d: repr(sorted(d.items()))
    seen, out, vals = {key(d) for d in cfgs}, [], {}
    for d in cfgs:
        for k, v in d.items():
            if not any(repr(v) == repr(w) for w in vals.setdefault(k, [])):
                vals[k].append(v)
    for _ in range(400*n):
        if len(out) == n:
            break
        d = dict(rnd.choice(cfgs))
        for k in d:
            if rnd.random() < p:
                d[k] = rnd.choice(vals[k])
        # orders above the maximum degree have no meaning
        if isinstance(d.get('L'), int) and isinstance(d.get('M'), int) and d['M'] > d['L']:
            continue
        if key(d) not in seen and (ok is None or ok(**d)):
            seen.add(key(d))
            out.append(d)
    return out

def harness(prop, name=None, exact=False, configs=None, thorough=None,
        max_paths=2000, timeout=60000, known=None, mix=0, ok=None, deep=None):
    """register a harness; ``configs`` run in both tiers, ``thorough`` adds;
    ``mix`` configurations crossing the values of these that satisfy ``ok``
    are added, and ``deep`` (four times as many) in the thorough tier"""
    def deco(f):
        nonlocal configs, thorough
        if mix:
            deep_ = 4*mix if deep is None else deep
            both = mixed(list(configs) + list(thorough or []), mix + deep_, ok)
            configs = list(configs) + both[:mix]
            thorough = list(thorough or []) + both[mix:]
        REG.setdefault(prop, []).append(dict(name=name or f.__name__, fn=f,
            exact=exact, configs=configs or [{}], thorough=thorough or [],
            max_paths=max_paths, timeout=timeout))
        return f
    return deco

class Ctx:
    """what a harness sees; the same harness runs symbolically and concretely"""
    def __init__(self, inst, env=None, cfg=None):
        self.inst = inst
        self.gt = inst.root
        self.sym = inst.symbolic
        self.env = env or {}
        self.cfg = cfg or {}
        self.out = []          # values compared, in order
        self.failures = []     # concrete mode
        self.found = []        # symbolic mode: (label, model)
        self.vars = {}
        self._tmp = None
        self.nchecks = 0
        self.nterms = 0

    @property
    def np(self):
        return load._cache['shims']['numpy'] if self.sym else np

    def mod(self, n):
        return self.inst.mod(n)

    def script(self, n):
        return self.inst.script(n)

    # ---- symbolic inputs
    def real(self, name, lo=-1.0, hi=1.0):
        if self.sym:
            if E.exact:
                lo = None if lo is None else Fraction(lo)
                hi = None if hi is None else Fraction(hi)
            return core.base_var(name, 'R', lo, hi)
        v = self.env.get(name)
        if v is None:
            v = 0.0 if (lo is None or lo <= 0) and (hi is None or hi >= 0) else (lo if lo is not None else hi)
        return float(v)

    def int(self, name, lo, hi):
        if self.sym:
            return core.base_var(name, 'I', lo, hi)
        v = self.env.get(name)
        if v is None:
            v = 0 if lo <= 0 <= hi else lo
        return int(v)

    def bool(self, name):
        if self.sym:
            return core.compare('==', core.base_var(name, 'I', 0, 1), 1)
        return bool(self.env.get(name, 0))

    def reals(self, name, shape, lo=-1.0, hi=1.0):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = nps.zeros(shape) if self.sym else np.zeros(shape)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + '[' + ','.join(map(str, i)) + ']', lo, hi)
        return a

    def ints(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = nps.zeros(shape, dtype=int) if self.sym else np.zeros(shape, dtype=int)
        for i in np.ndindex(*shape):
            a[i] = self.int(name + '[' + ','.join(map(str, i)) + ']', lo, hi)
        return a

    def array(self, x):
        """array of (symbolic) numbers for oracles"""
        return nps.sarray(x) if self.sym else np.array(x)

    def zeros(self, shape):
        return nps.zeros(shape) if self.sym else np.zeros(shape)

    def arr(self, x, dtype=None):
        """concrete data as the array class of this mode"""
        return nps.array(x, dtype=dtype) if self.sym else np.array(x, dtype=dtype)

    def digits(self, v, width):
        """integer (not of the form 7xx...) as a fixed number of digits, for names of files"""
        if self.sym and isinstance(v, core.Sym):
            k = ('digits', width, core.mkey(v.t))
            t = E.table.get(k)
            if t is None:
                n = E.table['digits', width] = E.table.get(('digits', width), 0) + 1
                t = E.table[k] = '7' + str(n).rjust(width-1, '0')
                E.literals[t] = E.literals[float(t)] = v
            return t
        return f'{int(v):0{width}d}'

    # ---- environment
    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='symx_')
        return self._tmp

    def close_env(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def assume(self, cond):
        if self.sym:
            E.explorer.assume(cond)
        elif not bool(np.all(cond)):
            raise AssumeFailed()

    def pick(self, cond):
        """truth value of a condition (splits the path in symbolic mode)"""
        return bool(cond)

    # ---- assertions
    def true(self, cond, label):
        self.nchecks += 1
        if self.sym:
            cond = nps._all(cond) if isinstance(cond, np.ndarray) else cond
            cond = core.tobool(cond)
            self.out.append((label, cond, 0))
            self._violated(core.bnot(cond), label)
        else:
            c = bool(np.all(cond))
            self.out.append((label, c, 0))
            if not c:
                self.failures.append((label, 'condition false'))

    def same(self, a, b, label):
        """structural equality of concrete things (shapes, strings, lists)"""
        self.nchecks += 1
        try:
            ok = bool(np.all(a == b)) if not isinstance(a, (str, tuple, list, dict)) else a == b
        except ValueError:
            ok = False
        if not ok:
            if self.sym:
                self._violated(True, f'{label}: {a!r} != {b!r}'[:300])
            else:
                self.failures.append((label, f'{a!r} != {b!r}'[:300]))

    def close(self, a, b, tol, label):
        """|a-b| <= tol elementwise (shapes must agree)"""
        self.nchecks += 1
        sa, sb = np.shape(nps.base(a) if isinstance(a, np.ndarray) else nps.base(nps.sarray(a))), \
            np.shape(nps.base(b) if isinstance(b, np.ndarray) else nps.base(nps.sarray(b)))
        if sa != sb:
            if self.sym:
                self._violated(True, f'{label}: shape {sa} != {sb}')
            else:
                self.failures.append((label, f'shape {sa} != {sb}'))
            return
        if not self.sym:
            a_, b_ = np.asarray(a), np.asarray(b)
            if a_.dtype.kind == 'b' or b_.dtype.kind == 'b':
                a_, b_ = a_.astype(float), b_.astype(float)
            if a_.dtype.kind == 'O' or b_.dtype.kind == 'O':
                a_, b_ = a_.astype(complex), b_.astype(complex)
            self.out.append((label, np.array(a_), tol))
            with np.errstate(all='ignore'):
                bad = np.abs(a_ - b_) > 0.9*tol
                bad |= np.isnan(a_) != np.isnan(b_)
            if np.any(bad):
                i = tuple(int(x) for x in np.argwhere(bad)[0]) if bad.ndim else ()
                self.failures.append((label, f'index {i}: {a_[i]!r} expected {b_[i]!r}'))
            return
        la = nps.sarray(a).flat_elems()
        lb = nps.sarray(b).flat_elems()
        self.out.append((label, nps.sarray(a).copy(), tol))
        bad, strong, pairs, size = [], [], [], 0
        for x, y in zip(la, lb):
            if isinstance(x, SymBool):
                x = core.bool_to_num(x)
            if isinstance(y, SymBool):
                y = core.bool_to_num(y)
            nx = core.is_num(x) and core.is_nan(core.norm_num(x))
            ny = core.is_num(y) and core.is_nan(core.norm_num(y))
            if nx or ny:
                if nx != ny:
                    bad.append(True)
                continue
            ix = core.is_num(x) and core.is_inf(core.norm_num(x))
            iy = core.is_num(y) and core.is_inf(core.norm_num(y))
            if ix or iy:
                if not (ix and iy and x == y):
                    bad.append(True)
                continue
            d = x - y
            self.nterms += 1
            t = Fraction(tol) if E.exact else tol
            for part in ((d.real, d.imag) if isinstance(d, (complex,)) or (isinstance(d, Sym) and d.iscomplex) else (d,)):
                if isinstance(part, Sym):
                    cl = core.clear_inverses(part) if not E.exact else None
                    if cl is not None:
                        N, m = cl
                        if isinstance(N, Sym):
                            cleared = [SymBool('cmp', ('<', -(g))) for g in (N - t*m, -N - t*m) if isinstance(g, Sym)]
                        else:
                            cleared = [abs(N) > t*m]
                        strong += cleared
                    else:
                        for g in (part - t, -part - t):
                            strong.append(SymBool('cmp', ('<', -g)) if isinstance(g, Sym) else g > 0)
                    # no interval shortcut here: the solver decides
                    for g in (part - t, -part - t):
                        bad.append(SymBool('cmp', ('<', -g)) if isinstance(g, Sym) else g > 0)
                elif abs(part) > tol:
                    bad.append(True)
                    strong.append(True)
                elif isinstance(x, Sym) and isinstance(y, Sym) and not (x.iscomplex or y.iscomplex):
                    size += len(x.t) + len(y.t)
                    if size < PAIRS:
                        pairs.append(SymBool('pair', (x, y, max(t, 1e-300 if t else 0))))
        if pairs and not any(b is not False for b in bad):
            # both sides have the same normal form: the solver confirms it on
            # their separate encodings
            q = core.Query([core.bor(*pairs)], linear=True, define=False)
            if q.check() == 'unsat':
                return
        # with denominators multiplied out first (implies the assertion)
        if strong and not any(b is True for b in bad) and self._refuted(strong):
            return
        self._violated(bad, label)

    def _refuted(self, cond):
        if any(c is True for c in cond):
            return False
        cond = [c for c in cond if c is not False]
        pc = E.explorer.pc
        light = [f for f in pc if not core.is_heavy(f)]
        for b in batches(cond):
            # without the long nonlinear conditions of the path first
            if len(light) < len(pc) and core.solve(light + [core.bor(*b)], want_model=False, timeout=self.cfg.get('_timeout'), linear_only=True)[0] == 'unsat':
                continue
            if core.solve(E.explorer.pc + [core.bor(*b)], want_model=False, timeout=self.cfg.get('_timeout'), linear_only=True)[0] != 'unsat':
                return False
        return True

    def _violated(self, cond, label):
        """is there an assignment on this path that makes cond true?"""
        if isinstance(cond, list):
            if any(c is True for c in cond):
                cond = True
            else:
                cond = [c for c in cond if c is not False]
                for b in batches(cond):
                    self._violated(core.bor(*b), label)
                if not cond:
                    # every difference normalised to a constant within tolerance
                    E.stats['normalised'] = E.stats.get('normalised', 0) + 1
                return
        r, m = solve_path(E.explorer.pc + [cond], timeout=self.cfg.get('_timeout'))
        if r == 'sat':
            if not holds_at(E.explorer.pc + [cond], m):
                # the model gave cos, exp... values they do not have
                m = witness(E.explorer.pc + [cond]) or m
            self.found.append((label, m))
            if len(self.found) >= 6:
                raise StopPath()
        elif r != 'unsat':
            # no verdict: a point at which the encoding violates the assertion
            # is as good as a model
            m = witness(E.explorer.pc + [cond])
            if m is None:
                raise Inconclusive(f'solver answered {r} for {label}')
            self.found.append((label, m))
            if len(self.found) >= 6:
                raise StopPath()

def solve_path(formulas, timeout=None):
    """solver verdict; for long nonlinear conditions a point is tried first"""
    if any(core.is_heavy(f) for f in formulas):
        light = [f for f in formulas if not core.is_heavy(f)]
        if core.solve(light, want_model=False, timeout=timeout, linear_only=True)[0] == 'unsat':
            return 'unsat', None
        m = witness(formulas)
        return ('sat', m) if m is not None else ('unknown', None)
    return core.solve(formulas, timeout=timeout)

def batches(cond):
    """groups of disjuncts small enough to keep the solver's tableau small"""
    out, size = [], 0
    for c in cond:
        n = len(c.a[1].t) if c.k == 'cmp' else 20
        if out and (size + n > BATCH or len(out) >= 200):
            yield out
            out, size = [], 0
        out.append(c)
        size += n
    if out:
        yield out

BATCH = 60
PAIRS = 400     # monomials of identical terms handed to the solver per assertion

class StopPath(BaseException):
    pass

# ------------------------------------------------------------------ functions executed
class Tracer:
    def __init__(self):
        self.seen = set()
    def __enter__(self):
        self.mon = sys.monitoring
        self.tool = 4
        try:
            self.mon.use_tool_id(self.tool, 'symx')
        except ValueError:
            self.tool = None
            return self
        def start(code, off):
            f = code.co_filename
            if f.startswith(load.REPO + '/'):
                self.seen.add(f'{os.path.relpath(f, load.REPO)}:{code.co_qualname}')
            return self.mon.DISABLE
        self.mon.restart_events()
        self.mon.register_callback(self.tool, self.mon.events.PY_START, start)
        self.mon.set_events(self.tool, self.mon.events.PY_START)
        return self
    def __exit__(self, *a):
        if self.tool is not None:
            self.mon.set_events(self.tool, 0)
            self.mon.register_callback(self.tool, self.mon.events.PY_START, None)
            self.mon.free_tool_id(self.tool)

# ------------------------------------------------------------------ one task
def concrete_run(h, cfg, env, inst):
    """run harness on concrete values; returns ('ok'|'assume'|'fail', details, out)"""
    c = Ctx(inst, env, cfg)
    try:
        with inst.active(), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            h['fn'](c, **{k: v for k, v in cfg.items() if not k.startswith('_')})
    except AssumeFailed:
        return 'assume', [], c.out
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f'{os.path.relpath(f.filename, load.REPO)}:{f.lineno}' for f in tb if f.filename.startswith(load.REPO + '/')]
        return 'fail', c.failures + [(f'raises {type(e).__name__}: {e}'[:300], ' '.join(loc[-2:]))], c.out
    finally:
        c.close_env()
    return ('fail' if c.failures else 'ok'), c.failures, c.out

def jsonable(env):
    return {k: (str(v) if isinstance(v, Fraction) and v.denominator != 1 else (int(v) if isinstance(v, (int, Fraction)) else v))
        for k, v in env.items()}

def unjson(env):
    return {k: (Fraction(v) if isinstance(v, str) else v) for k, v in env.items()}

def run_task(h, cfg):
    """symbolic exploration of one harness configuration"""
    real, sym = load.load()
    t0 = time.time()
    E.reset(h['exact'])
    nps._slack.clear()
    fakeio.clear()
    E.stats = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, forks=0, feas=0)
    E.timeout_ms = h['timeout']
    res = dict(name=h['name'], cfg={k: repr(v) for k, v in cfg.items()}, paths=0, checks=0, terms=0,
        reach=0, validated=0, violations=[], inconclusive=[], functions=[], mismatch=[])
    ex = core.Explorer(h['max_paths'])
    E.explorer = ex
    tr = Tracer()
    cands = []
    try:
        with tr:
            while ex.stack:
                prefix = ex.stack.pop()
                ex.begin(prefix)
                ex.paths += 1
                c = Ctx(sym, None, cfg)
                err = None
                aborted = False
                try:
                    with sym.active(), warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        h['fn'](c, **{k: v for k, v in cfg.items() if not k.startswith('_')})
                except PathAbort:
                    aborted = True
                except StopPath:
                    pass
                except (EngineError, Inconclusive) as e:
                    err = e
                    tbl = traceback.extract_tb(e.__traceback__)
                    loc = [f'{f.filename}:{f.lineno}' for f in tbl if 'symx' not in f.filename]
                    res['inconclusive'].append(f'{type(e).__name__}: {e} at {loc[-1:]}')
                except Exception as e:
                    err = e
                    r, m = solve_path(list(ex.pc))
                    if r == 'sat':
                        cands.append((f'raises {type(e).__name__}: {e}'[:300], m,
                            ''.join(traceback.format_exception(e)[-6:])))
                    elif r != 'unsat':
                        res['inconclusive'].append(f'path with exception {e!r} undecided')
                finally:
                    c.close_env()
                res['checks'] += c.nchecks
                res['terms'] += c.nterms
                for lab, m in c.found:
                    cands.append((lab, m, ''))
                if aborted or err is not None:
                    continue
                # reachability twin: the end of the path with assert(False)
                if not c.found:
                    r, m = solve_path(list(ex.pc))
                    if r == 'sat':
                        res['reach'] += 1
                        if res['validated'] < 12:
                            validate(h, cfg, m, c, real, res, list(ex.pc))
                    elif r == 'unknown' and witness(ex.pc) is not None:
                        res['reach'] += 1
                    elif r == 'unknown':
                        res.setdefault('reach_unknown', 0)
                        res['reach_unknown'] += 1
                if len(cands) >= 12:
                    break
    except (EngineError, Inconclusive) as e:
        res['inconclusive'].append(f'{type(e).__name__}: {e}')
    res['paths'] = ex.paths
    E.explorer = None
    # replay on the untouched code
    seen = set()
    for lab, m, tb in cands:
        if len(res['violations']) >= 3:
            break
        st, fails, _ = concrete_run(h, cfg, m, real)
        if st == 'fail':
            key = fails[0][0]
            if key in seen:
                continue
            seen.add(key)
            res['violations'].append(dict(label=lab, env=jsonable(m), failures=[list(map(str, f)) for f in fails[:5]]))
        else:
            res['inconclusive'].append(f'counterexample not reproduced ({st}): {lab} {str(jsonable(m))[:300]} {tb}')
    if res['inconclusive'] and not res['violations']:
        # part of this configuration was not decided: look at the untouched code
        # at a few points (a failure there is a violation; no failure decides nothing)
        rng = np.random.default_rng(4321)
        base = [a for a in E.atoms if a.kind == 'base' and not a.name.startswith('slack')]
        for trial in range(4):
            env = {}
            for a in base:
                lo = -1.0 if a.lo is None else float(a.lo)
                hi = 1.0 if a.hi is None else float(a.hi)
                env[a.name] = float(lo + (hi-lo)*rng.random()) if a.sort == 'R' else int(rng.integers(int(lo), int(hi)+1))
            st, fails, _ = concrete_run(h, cfg, env, real)
            if st == 'fail':
                res['violations'].append(dict(label='found at a point of an undecided configuration', env=jsonable(env),
                    failures=[list(map(str, f)) for f in fails[:5]]))
                break
    if not cands and not res['inconclusive'] and res['reach'] == 0:
        res['inconclusive'].append('vacuous: no path reaches the end of the harness')
    res['functions'] = sorted(tr.seen)
    res['stats'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in E.stats.items()}
    res['wall'] = round(time.time() - t0, 2)
    if os.environ.get('SYMX_DEBUG') and cands:
        res['tb'] = [x[2] for x in cands][:2]
    return res

def holds_at(pc, env):
    try:
        cache = {}
        return all(bool(core.evaluate(p, env, cache)) for p in pc)
    except (ZeroDivisionError, OverflowError, ValueError, KeyError):
        return False

def witness(pc):
    """a point satisfying the path condition, when the solver gave no model"""
    rng = np.random.default_rng(99)
    base = [a for a in E.atoms if a.kind == 'base']
    for _ in range(50):
        env = {}
        for a in base:
            lo = -1.0 if a.lo is None else float(a.lo)
            hi = 1.0 if a.hi is None else float(a.hi)
            env[a.name] = float(lo + (hi-lo)*rng.random()) if a.sort == 'R' else int(rng.integers(int(lo), int(hi)+1))
        try:
            cache = {}
            if all(bool(core.evaluate(p, env, cache)) for p in pc):
                return env
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
    return None

def validate(h, cfg, m, c, real, res, pc):
    """same inputs through the encoding and through the untouched code"""
    env = dict(m)
    # generic point: fill unconstrained variables with non-trivial values
    rng = np.random.default_rng(12345 + res['validated'])
    base = [a for a in E.atoms if a.kind == 'base' and a.name not in env and not a.name.startswith('slack')]
    if not E.explorer.pc:
        for a in base:
            lo = -1.0 if a.lo is None else float(a.lo)
            hi = 1.0 if a.hi is None else float(a.hi)
            env[a.name] = float(lo + (hi-lo)*rng.random()) if a.sort == 'R' else int(rng.integers(int(lo), int(hi)+1))
    st, fails, out = concrete_run(h, cfg, env, real)
    res['validated'] += 1
    if st == 'assume':
        return
    if st == 'fail':
        # the solver proved the assertion for this point: encoding and code differ
        res['mismatch'].append(f'{fails[:2]} at {str(jsonable(env))[:400]}')
        res['violations'].append(dict(label='found while validating the encoding', env=jsonable(env),
            failures=[list(map(str, f)) for f in fails[:5]]))
        return
    cache = {}
    if any(a.name.startswith('slack') for a in E.atoms):
        return
    try:
        if not all(bool(core.evaluate(p, env, cache)) for p in pc):
            # an uninterpreted function (cos, exp...) took an impossible value
            return
    except (ZeroDivisionError, OverflowError, ValueError):
        return
    for (l1, s, tol), (l2, v, _) in zip(c.out, out):
        if isinstance(s, (bool, SymBool)):
            continue
        sv = []
        for x in nps.sarray(s).flat_elems():
            try:
                sv.append(complex(core.evaluate(x, env, cache)))
            except (ZeroDivisionError, OverflowError, ValueError):
                sv.append(complex(np.nan))
        v = np.asarray(v)
        if v.dtype.kind not in 'biufc' and v.dtype.kind != 'O':
            continue
        v = v.astype(complex).ravel()
        if len(sv) != v.size:
            res['mismatch'].append(f'{l1}: shape')
            continue
        sv = np.array(sv)
        with np.errstate(all='ignore'):
            bad = np.abs(sv - v) > 1e-6*(1e-300 + np.max(np.abs(v)) if v.size else 1) + 1e-9*np.abs(v) + float(tol)
            bad &= ~(np.isnan(sv) | np.isnan(v))
        if np.any(bad):
            i = int(np.argwhere(bad)[0][0])
            res['mismatch'].append(f'{l1}[{i}]: encoding {sv[i]} real {v[i]}')

def _worker(args):
    i, prop, hi, cfg = args
    h = REG[prop][hi]
    try:
        return i, run_task(h, cfg)
    except BaseException as e:
        return i, dict(name=h['name'], cfg={k: repr(v) for k, v in cfg.items()}, paths=0, checks=0, terms=0,
            reach=0, validated=0, violations=[], functions=[], mismatch=[], wall=0,
            stats={}, inconclusive=['crash ' + ''.join(traceback.format_exception(e))[-1500:]])

# ------------------------------------------------------------------ main
def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])

def is_known(prop, hname, cfg, v):
    for k in known_findings():
        if k['property'] != prop or k['harness'] != hname:
            continue
        if any(repr(cfg.get(n)) != val and str(cfg.get(n)) != str(val) for n, val in k.get('config', {}).items()):
            continue
        if all(k['match'] in (f[0] + ' ' + f[1]) for f in v['failures'][:1]):
            return k
    return None

def main(prop, tier, only=None, jobs=None):
    t0 = time.time()
    if prop not in REG:
        print(f'no harness for {prop}')
        return 2
    real, sym = load.load()
    tasks = []
    for hi, h in enumerate(REG[prop]):
        if only and only not in h['name']:
            continue
        for cfg in h['configs'] + (h['thorough'] if tier == 'thorough' else []):
            tasks.append((len(tasks), prop, hi, cfg))
    jobs = jobs or int(os.environ.get('SYMX_JOBS', '8'))
    results = [None]*len(tasks)
    # longest first is unknown: keep order, one task at a time per worker
    hit = None
    limit = float(os.environ.get('SYMX_LIMIT', '840' if tier == 'quick' else '7200'))
    if jobs == 1 or len(tasks) == 1:
        for t in tasks:
            results[t[0]] = _worker(t)[1]
            if results[t[0]]['violations'] and os.environ.get('SYMX_FIRST'):
                break
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=20) as pool:
            it = pool.imap_unordered(_worker, tasks, chunksize=1)
            n = 0
            while n < len(tasks):
                left = limit - (time.time() - t0)
                if hit is not None:
                    # a violation is confirmed: wait only a little for the others
                    left = min(left, 30 - (time.time() - hit))
                try:
                    i, r = it.next(timeout=max(left, 1))
                except mp.TimeoutError:
                    break
                results[i] = r
                n += 1
                if hit is None and any(not is_known(prop, REG[prop][tasks[i][2]]['name'], tasks[i][3], v) for v in r['violations']):
                    hit = time.time()
            pool.terminate()
    rc = 0
    nviol = 0
    inconc = []
    known = []
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    funcs = set()
    tot = dict(paths=0, checks=0, terms=0, reach=0, validated=0)
    st = {}
    per = []
    for t, r in zip(tasks, results):
        h = REG[prop][t[2]]
        if r is None:
            inconc.append(f'{h["name"]} {t[3]}: no result within ' + (f'{limit}s' if hit is None else '30s after a violation'))
            continue
        funcs.update(r['functions'])
        for k in tot:
            tot[k] += r[k]
        for k, v in r.get('stats', {}).items():
            st[k] = round(st.get(k, 0) + v, 3)
        fresh = []
        for v in r['violations']:
            kf = is_known(prop, h['name'], t[3], v)
            if kf:
                known.append(kf)
                msg = f"KNOWN-FINDING: property={prop} {kf['what']}"
                print(msg)
                continue
            fresh.append(v)
        for v in fresh:
            nviol += 1
            if nviol > 8:
                continue
            path = os.path.join(VERIF, 'evidence', 'replays', f'{prop}-{nviol}.json')
            json.dump(dict(property=prop, harness=h['name'], config=t[0], cfg=r['cfg'], tier=tier,
                env=v['env'], failures=v['failures'], label=v['label']), open(path, 'w'), indent=1)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'   {h["name"]} {r["cfg"]}: {v["label"]}')
            for f in v['failures'][:2]:
                print(f'   {f[0]}: {f[1]}'[:400])
        if not r['violations']:
            for x in r['inconclusive']:
                inconc.append(f'{h["name"]} {r["cfg"]}: {x}')
            for x in r['mismatch']:
                inconc.append(f'{h["name"]} {r["cfg"]}: encoding differs from code: {x}')
        per.append(dict(harness=r['name'], config=r['cfg'], paths=r['paths'], checks=r['checks'],
            compared_terms=r['terms'], reachable_ends=r['reach'], replayed_against_code=r['validated'],
            queries=r.get('stats', {}).get('queries', 0), solver_s=r.get('stats', {}).get('solver_s', 0), wall_s=r['wall']))
        if os.environ.get('SYMX_VERBOSE') and (r['wall'] > float(os.environ['SYMX_VERBOSE']) or r.get('tb')):
            print(f"  {r['wall']:7.2f}s paths={r['paths']:4d} checks={r['checks']:4d} q={r.get('stats',{}).get('queries',0):5d} "
                f"solver={r.get('stats',{}).get('solver_s',0):6.2f}s val={r['validated']:3d} {r['name']} {r['cfg']}")
            for x in r.get('tb', []):
                print(x)
    decided = sum(1 for r in results if r is not None and not r['inconclusive'] and not r['mismatch'])
    if nviol:
        rc = 1
    elif decided == 0:
        # nothing was decided: no answer
        rc = 2
    wall = round(time.time() - t0, 2)
    meta = DOC.get(prop, {})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
        coverage=dict(
            explanation='Symbolic execution of the real functions from /repo (imported with numpy replaced '
                'by a symbolic array module); every assertion is the negation handed to z3 under the path '
                'condition; unsat on every feasible path of every configuration below means it holds for '
                'all values within the stated bounds.',
            functions_encoded=sorted(funcs),
            bounds=meta.get('bounds', ''),
            configurations=len(tasks), paths=tot['paths'], assertions=tot['checks'], compared_terms=tot['terms'],
            reachability_twins_sat=tot['reach'], paths_replayed_on_untouched_code=tot['validated'],
            queries=st.get('queries', 0), unsat=st.get('unsat', 0), sat=st.get('sat', 0), unknown=st.get('unknown', 0),
            decided_by_normalisation=st.get('normalised', 0), path_feasibility_queries=st.get('feas', 0), forks=st.get('forks', 0), solver_s=st.get('solver_s', 0),
            inconclusive=inconc[:20], known_findings=len(known), harnesses=per),
        wall_s=wall, violations=nviol,
        assumptions=['numpy/Python floating-point arithmetic is modelled by exact arithmetic on the symbolic inputs '
            'with double-precision coefficients; agreement is asserted up to the stated tolerance'] + meta.get('assumptions', []))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1)
    print(f'{prop} {tier}: {len(tasks)} configurations, {tot["paths"]} paths, {tot["checks"]} assertions, '
        f'{st.get("queries",0)} queries ({st.get("solver_s",0):.1f}s solver), {nviol} violations, '
        f'{len(inconc)} inconclusive, {wall}s')
    for x in list(dict.fromkeys(x[:400] for x in inconc))[:8]:
        print('INCONCLUSIVE', x)
    return rc

DOC = {}
def doc(prop, bounds, assumptions=()):
    DOC[prop] = dict(bounds=bounds, assumptions=list(assumptions))

def replay(path):
    d = json.load(open(path))
    real, sym = load.load()
    for h in REG[d['property']]:
        if h['name'] != d['harness']:
            continue
        for cfg in h['configs'] + h['thorough']:
            if {k: repr(v) for k, v in cfg.items()} == d['cfg']:
                st, fails, _ = concrete_run(h, cfg, unjson(d['env']), real)
                print(st)
                for f in fails:
                    print('  ', *f)
                return 1 if st == 'fail' else 0
    print('configuration not found')
    return 2
