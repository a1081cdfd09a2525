"""Run one verification task: explore, extract counterexamples, replay."""
import sys, os, json, time, random, traceback, subprocess, threading, select
from fractions import Fraction
import z3
from . import core
from .core import *
from .harness import SymH


def mval(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_fp_value(v):
        if v.isNaN() or v.isInf():
            return None
        r = z3.simplify(z3.fpToReal(v))
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    return None


def poly_eval(p, val):
    """Substitute known variables (id -> Fraction); returns poly in the rest."""
    r = {}
    for m, c in p.items():
        rest = []
        x = Fraction(c)
        for v, e in m:
            if v in val:
                x *= val[v] ** e
            else:
                rest.append((v, e))
        if x:
            k = tuple(rest)
            r[k] = r.get(k, 0) + x
    return {k: v for k, v in r.items() if v != 0}


def nice(c, s, level, rng):
    """Prefer small dyadic inputs."""
    for v in c.vars:
        if v.role in ('aux', 'atom', 'uninit', 'fp'):
            continue
        if v.sort == 'i':
            if level == 0:
                s.add(v.z <= 5, v.z >= -5)
            elif level == 1:
                s.add(v.z <= 12, v.z >= -12)
            elif level == 2:
                s.add(v.z <= 1000, v.z >= -1000)
        else:
            if level == 0:
                k = z3.Int('k!' + v.name)
                s.add(v.z * 16 == z3.ToReal(k), k <= 128, k >= -128)
            elif level == 1:
                s.add(v.z <= 50, v.z >= -50)


BIG = (1, Fraction(1, 100), Fraction(1, 10 ** 4), Fraction(1, 10 ** 6))


def generic(c, s, rng):
    """Give the data arbitrary values as far as the path and the failure allow."""
    def fix(vs, depth):
        if not vs:
            return
        s.push()
        for v in vs:
            x = Fraction(rng.randrange(-47, 48) or 5, 16)
            s.add(v.z == z3.RealVal(str(abs(x) if v.pos else x)))
        if s.check() == z3.sat:
            return
        s.pop()
        if len(vs) > 1 and depth:
            h = len(vs) // 2
            fix(vs[:h], depth - 1)
            fix(vs[h:], depth - 1)
    s.set('timeout', 2000)
    fix([v for v in c.vars if v.sort == 'r' and v.role in ('elem', 'atom')], 4)
    fix([v for v in c.vars if v.sort == 'r' and v.role == 'input'], 3)
    return s.check()


def find_record(c, fail, rng, tries=4, levels=(0, 1, 2, 3), anyhow=False):
    """A concrete assignment of the inputs that follows this path and violates
    the obligation `fail` (None: just follows the path)."""
    for level in levels:
        s = z3.Solver()
        s.set('timeout', 60000 if any(v.role == 'fp' for v in c.vars) else 4000)
        s.set('random_seed', rng.randrange(1000))
        for z in c.pc:
            s.add(z)
        if fail is not None and fail['kind'] == 'bool':
            s.add(z3.Not(fail['z']))
        nice(c, s, level, rng)
        p = fail['poly'] if fail is not None and fail['kind'] == 'eq' else None
        r = None
        if p is not None and len(p) <= 60 and level >= 1:
            # prefer a difference that is visible in floating point
            for th in BIG + (None,):
                s.push()
                s.add(c.rel(p, 'ne') if th is None else z3.Or(c.rel(p_add(p, {(): th}, -1), 'ge'), c.rel(p_add(p, {(): th}), 'le')))
                r = s.check()
                if r == z3.sat:
                    break
                s.pop()
                if r == z3.unknown:
                    break
            if r != z3.sat:
                r = None
        if r is None:
            r = s.check()
        if r != z3.sat:
            continue
        if anyhow and generic(c, s, rng) != z3.sat:
            continue
        for attempt in range(tries):
            m = s.model()
            val = {}
            for v in c.vars:
                if v.role in ('atom', 'uninit', 'elem'):
                    continue
                x = mval(m, v.z)
                if x is not None:
                    val[v.id] = x
            # element variables appearing in the path condition keep the model
            pinned = set()
            for d in m.decls():
                pinned.add(d.name())
            free = [v for v in c.vars if v.role in ('atom', 'uninit', 'elem')]
            for v in free:
                if v.name in pinned and v.role != 'uninit':
                    x = mval(m, v.z)
                    if x is not None:
                        val[v.id] = x
            if p is not None:
                try:
                    q = poly_eval(p, val)
                except ZeroDivisionError:
                    q = {}
                if not q:
                    # vanishes at this point: perturb by re-solving with another seed / blocking
                    blk = [v.z != m.eval(v.z, model_completion=True) for v in c.vars if v.role == 'input' and v.sort == 'r' and m.eval(v.z) is not None]
                    if not blk:
                        break
                    s.add(z3.Or(*[b for b in blk]) if attempt == 0 else z3.And(*rng.sample(blk, max(1, len(blk) // 2))))
                    if s.check() != z3.sat:
                        break
                    continue
                s2 = z3.Solver()
                s2.set('timeout', 4000)
                for v in free:
                    if v.id not in val:
                        s2.add(v.z <= 40, v.z >= -40)
                for th in BIG + (None,):
                    s2.push()
                    s2.add(c.rel(q, 'ne') if th is None else z3.Or(c.rel(p_add(q, {(): th}, -1), 'ge'), c.rel(p_add(q, {(): th}), 'le')))
                    r2 = s2.check()
                    if r2 == z3.sat:
                        break
                    s2.pop()
                if r2 != z3.sat:
                    if () in q and len(q) == 1:
                        pass
                    else:
                        break
                else:
                    m2 = s2.model()
                    named = {d.name() for d in m2.decls()}
                    for v in free:
                        if v.id not in val and v.name in named:
                            val[v.id] = mval(m2, v.z)
            return make_record(c, val, rng)
    return None


def make_record(c, val, rng):
    values, atoms = {}, {}
    uses_uninit = False
    for v in c.vars:
        if v.role in ('input', 'fp'):
            if v.id in val:
                values[v.name] = str(val[v.id])
        elif v.role == 'elem':
            if v.id in val:
                values[v.name] = str(val[v.id])
        elif v.role == 'atom' and v.id in val:
            arr, idx = v.info
            ii = []
            for i in idx:
                q = poly_eval(i.n, val)
                if not q:
                    ii.append(0)
                elif list(q) == [()]:
                    ii.append(int(q[()]))
                else:
                    ii = None
                    break
            if ii is not None:
                atoms.setdefault(arr, {})[','.join(map(str, ii))] = str(val[v.id])
    return dict(values=values, atoms=atoms, choices=dict(c.choices))


# ------------------------------------------------------------- real workers
class RealWorker:
    """A process running harnesses against the real compiled code."""

    def __init__(self, env):
        self.env = env
        self.p = None

    def start(self):
        self.p = subprocess.Popen([sys.executable, '-m', 'sx.replay', '--serve'], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, text=True)

    def run(self, rec, timeout=400):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(rec) + '\n')
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.stop()
                return dict(status='timeout')
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        if not line:
            rc = self.p.wait()
            self.p = None
            return dict(status='crash', detail='process ended with code %s' % rc)
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None


def real_env(tmp):
    e = dict(os.environ)
    e.update(NUMBA_BOUNDSCHECK='1', NUMBA_OPT='0', MALLOC_PERTURB_='191', NUMBA_CACHE_DIR=tmp, PYTHONDONTWRITEBYTECODE='1', NUMBA_NUM_THREADS='1',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore')
    return e


def run_task(prop, task, seed, tmp, worker=None):
    """task: dict(name, fn (module-level name), params, budget, witness)"""
    from . import shim
    import importlib
    mod = importlib.import_module('props.' + prop)
    fn = getattr(mod, task['fn'])
    params = task.get('params', {})
    t0 = time.time()
    res = dict(name=task['name'], obligations=0, failures=[], inconclusive=[], violations=[], witnesses=0, witness_ok=0, known=[])
    rng = random.Random('%s|%s|%s' % (seed, prop, task['name']))
    cands, wit, conc = [], [], []
    try:
        L = shim.loader()
        for m in getattr(mod, 'PRELOAD', []):
            L.load(m)
    except Exception as e:
        L = None
        res['inconclusive'].append('package does not load symbolically: %s: %s' % (type(e).__name__, str(e)[:200]))
        cands.append((dict(values={}, atoms={}, choices={}), 'package import', None))
    ex = core.Explorer(timeout_ms=task.get('timeout_ms', 5000), budget_s=task.get('budget', 100), max_paths=task.get('max_paths', 30000), havoc=task.get('havoc', False))
    nwit = task.get('witness', 1)
    seen_labels = {}
    incon = {}
    npaths = [0]
    havoc = task.get('havoc', False)
    last = [None]

    def on_path(c, exc):
        npaths[0] += 1
        if c.unknown:
            incon['solver could not decide feasibility'] = incon.get('solver could not decide feasibility', 0) + 1
        if isinstance(exc, core.Unsupported):
            k = 'not encodable: %s' % exc
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exception(exc)
            incon[k] = incon.get(k, 0) + 1
            # the path condition so far still gives inputs worth running for real
            if len(conc) < 6:
                conc.append(c)
            return
        if exc is not None:
            tb = traceback.extract_tb(exc.__traceback__)
            where = ''
            for f in tb:
                if 'interpolation' in f.filename or f.filename == '<string>':
                    where = '%s:%s' % (os.path.basename(f.filename), f.lineno)
            lab = 'raises %s: %s' % (type(exc).__name__, str(exc)[:120])
            c.failures.append(dict(label=lab, kind='exc'))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exception(exc)
        if c.failures:
            f = c.failures[0]
            n = seen_labels.get(f['label'], 0)
            seen_labels[f['label']] = n + 1
            if n < 2 and len(cands) < 12:
                # the path must really be possible
                try:
                    rec = find_record(c, f, rng)
                except (ZeroDivisionError, z3.Z3Exception) as e:
                    rec = None
                if rec is None and havoc:
                    rec = dict(values={}, atoms={}, choices=dict(c.choices))
                if rec is None and os.environ.get('DBGFAIL'):
                    print('DBGFAIL', c.choices, core.ctx_str(f['poly']) if f.get('poly') else f.get('z'), [str(z) for z in c.pc], flush=True)
                if rec is None:
                    k = 'no concrete model found for: ' + f['label'][:150]
                    incon[k] = incon.get(k, 0) + 1
                else:
                    cands.append((rec, f['label'], (c, f)))
            return
        # reservoir sampling of witness paths
        if nwit and exc is None:
            if len(wit) < nwit:
                wit.append((c, None))
            else:
                j = rng.randrange(npaths[0])
                if j < nwit:
                    wit[j] = (c, None)

    mon = FnMonitor(L.root if L else '/repo')
    if L is not None:
        with mon:
            def body(c):
                L.reset()
                return fn(SymH(c, L), **params)
            complete = ex.paths(body, on_path)
        if ex.stats.get('budget'):
            incon['budget exhausted after %d paths' % npaths[0]] = 1
    st = ex.stats
    res['stats'] = {k: (round(v, 4) if isinstance(v, float) else v) for k, v in st.items()}
    res['obligations'] = st.get('obligations', 0)
    res['functions'] = sorted(mon.names)
    own = worker is None
    base = dict(prop=prop, task=task['name'], fn=task['fn'], params=params, havoc=havoc, bounds_note=task.get('note'))
    # replay counterexamples
    wit += [(c, None) for c in conc]
    if cands or wit:
        w = worker or RealWorker(real_env(tmp))
        try:
            reproduced = retried = 0
            for rec, label, src in cands:
                rec = dict(base, **rec)
                rec['label'] = label
                r = w.run(rec)
                rec['result'] = r
                if r['status'] not in ('fail', 'crash') and src is not None and retried < 4:
                    # the values may hide the difference: the same failure with
                    # arbitrary data, in the same and in a new process
                    retried += 1
                    for fresh in (False, True):
                        try:
                            core.set_ctx(src[0])
                            alt = find_record(*src, rng, anyhow=True)
                        except (ZeroDivisionError, z3.Z3Exception):
                            alt = None
                        if alt is None:
                            alt = rec
                        alt = dict(base, **alt)
                        alt['label'] = label
                        if fresh:
                            w.stop()
                        q = w.run(alt)
                        if q['status'] in ('fail', 'crash'):
                            rec, r = alt, q
                            rec['result'] = r
                            break
                if r['status'] in ('fail', 'crash'):
                    res['violations'].append(rec)
                    reproduced += 1
                    if reproduced >= 2:
                        break
                else:
                    k = 'counterexample did not reproduce (%s): %s' % (r['status'], label[:150])
                    incon[k] = incon.get(k, 0) + 1
            if not res['violations']:
                for c, _ in wit:
                    core.set_ctx(c)
                    try:
                        rec = find_record(c, None, rng, levels=(0, 1, 2))
                    except (ZeroDivisionError, z3.Z3Exception):
                        rec = None
                    if rec is None:
                        continue
                    rec = dict(base, **rec)
                    rec['label'] = 'witness of an explored path'
                    res['witnesses'] += 1
                    r = w.run(rec)
                    rec['result'] = r
                    if r['status'] == 'ok':
                        res['witness_ok'] += 1
                        res['sample'] = dict(values=dict(list(rec['values'].items())[:24]), choices=rec['choices'])
                    elif r['status'] in ('fail', 'crash'):
                        res['violations'].append(rec)
                        break
                    else:
                        incon['witness: ' + str(r.get('detail', r['status']))[:150]] = 1
        finally:
            if own:
                w.stop()
    res['inconclusive'] += ['%s (x%d)' % (k, v) for k, v in incon.items()]
    if not res['obligations'] and not res['violations']:
        res['inconclusive'].append('no obligation reached')
    res['wall'] = round(time.time() - t0, 2)
    return res


class FnMonitor:
    """Names of the package's functions executed symbolically."""
    TOOL = 4

    def __init__(self, root):
        self.root = os.path.join(root, 'interpolation')
        self.names = set()
        self.last = None

    def cb(self, code, off):
        f = code.co_filename
        if f.startswith(self.root) and '/tempita/' not in f:
            self.names.add('%s:%s' % (f[len(self.root) + 1:], code.co_qualname))
        elif f == '<string>':
            self.names.add('<generated>:%s' % code.co_qualname)
        return sys.monitoring.DISABLE

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'sx')
        except ValueError:
            m.free_tool_id(self.TOOL)
            m.use_tool_id(self.TOOL, 'sx')
        m.register_callback(self.TOOL, m.events.PY_START, self.cb)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)
