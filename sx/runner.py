"""Check driver:  python -m sx.runner C01 [quick|thorough] [--task NAME]"""
import random, os, sys, json, time, shutil, tempfile, hashlib, traceback, signal, warnings
warnings.simplefilter('ignore')
import multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

_W = None


def _init(tmp):
    global _W
    import warnings
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(5000)
    from sx.task import RealWorker, real_env
    _W = RealWorker(real_env(tmp))


def _go(a):
    prop, task, seed, tmp = a
    from sx.task import run_task
    try:
        return run_task(prop, task, seed, tmp, _W)
    except BaseException as e:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        return dict(name=task['name'], obligations=0, failures=[], violations=[], witnesses=0, witness_ok=0, stats={}, functions=[],
                    inconclusive=['engine error: %s: %s' % (type(e).__name__, str(e)[:200])], wall=0)


def load_known():
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                out.append(json.loads(line[7:]))
    return out


def is_known(known, prop, v):
    return next((k for k in known if k['property'] == prop and k['task'] == v['task'] and k['match'] in v['result'].get('detail', '')), None)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--task' in sys.argv:
        only = sys.argv[sys.argv.index('--task') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['VERIF_SEED'] = str(seed)
    t0 = time.time()
    import importlib
    mod = importlib.import_module('props.' + prop)
    tasks = mod.tasks(tier)
    if only:
        tasks = [t for t in tasks if only in t['name']]
    tasks = list({t['name']: t for t in tasks}.values())
    # long tasks first, with short ones in between (code that makes the long
    # ones slow is then still looked at)
    tasks.sort(key=lambda t: -t.get('cost', 1))
    cut = len(tasks) // 4
    short = random.Random(seed).sample(tasks[len(tasks) - cut:], cut)
    rest = tasks[:len(tasks) - cut]
    tasks = []
    for i, t in enumerate(rest):
        tasks.append(t)
        if i % 2 and short:
            tasks.append(short.pop())
    tasks += short
    tmp = tempfile.mkdtemp(prefix='sx_%s_' % prop)
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    wall_limit = 780 if tier == 'quick' else 6 * 3600
    results = []
    try:
        # fork workers with the package already loaded
        try:
            from sx import shim
            L = shim.loader()
            for m in getattr(mod, 'PRELOAD', []):
                L.load(m)
        except Exception:
            pass
        with mp.get_context('fork').Pool(min(nproc, max(1, len(tasks))), initializer=_init, initargs=(tmp,), maxtasksperchild=None) as pool:
            it = pool.imap_unordered(_go, [(prop, t, seed, tmp) for t in tasks], chunksize=1)
            left = {t['name'] for t in tasks}
            known = load_known()
            nbad = 0
            while left:
                try:
                    r = it.next(timeout=max(1, wall_limit - (time.time() - t0)))
                except mp.TimeoutError:
                    break
                except StopIteration:
                    break
                results.append(r)
                left.discard(r['name'])
                nbad += bool(r['violations']) and not is_known(known, prop, r['violations'][0])
                if nbad >= 4 and tier == 'quick':
                    break
                if os.environ.get('VERIF_VERBOSE'):
                    print('  %-50s %6.1fs paths=%s obl=%s wit=%s/%s %s %s' % (r['name'], r['wall'], r['stats'].get('paths'), r['obligations'], r['witness_ok'], r['witnesses'],
                          'VIOL ' + r['violations'][0]['result'].get('detail', '')[:300] if r['violations'] else '', r['inconclusive'] or ''), flush=True)
            for n in left:
                results.append(dict(name=n, obligations=0, violations=[], witnesses=0, witness_ok=0, stats={}, functions=[],
                                    inconclusive=['not run: violations already found' if nbad >= 4 else 'wall-clock limit'], wall=0))
            pool.terminate()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    finish(prop, tier, seed, mod, tasks, results, t0)


def finish(prop, tier, seed, mod, tasks, results, t0):
    results.sort(key=lambda r: r['name'])
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    known = [k for k in load_known() if k['property'] == prop]
    viol, knownhit = [], []
    for r in results:
        for v in r['violations']:
            k = is_known(known, prop, v)
            if k is not None:
                knownhit.append(k)
            else:
                viol.append(v)
    rdir = os.path.join(HERE, 'replays')
    paths = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for v in viol[:5]:
            h = hashlib.md5(json.dumps([v.get('task'), v.get('values'), v.get('choices')], sort_keys=True).encode()).hexdigest()[:8]
            p = os.path.join(rdir, '%s_%s.json' % (prop, h))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
            paths.append((p, v))
    decided = [r for r in results if r['obligations'] and not r['inconclusive']]
    incon = [dict(task=r['name'], why=r['inconclusive']) for r in results if r['inconclusive']]
    fns = sorted({f for r in results for f in r['functions']})
    samples = []
    step = max(1, len(results) // 12)
    for r in results[::step][:12]:
        samples.append(dict(task=r['name'], paths=r['stats'].get('paths', 0), obligations=r['obligations'], queries=r['stats'].get('queries', 0),
                            witness='%d/%d' % (r['witness_ok'], r['witnesses']), witness_inputs=r.get('sample')))
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=int(tot.get('paths', 0)), transitions=int(tot.get('decisions', 0)),
            traces_validated_against_impl=int(sum(r['witness_ok'] for r in results)),
            samples=samples,
            tasks=len(tasks), tasks_decided=len(decided), tasks_inconclusive=len(incon), inconclusive=incon,
            obligations=int(tot.get('obligations', 0)), obligations_closed_by_normal_form=int(tot.get('obligations_normal_form', 0)),
            queries=int(tot.get('queries', 0)), unsat=int(tot.get('unsat', 0)), sat=int(tot.get('sat', 0)), unknown=int(tot.get('unknown', 0)),
            solver_s=round(tot.get('solver_s', 0.0), 2),
            functions_encoded=fns, bounds=getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {}).get('quick', '')),
            outside=getattr(mod, 'OUTSIDE', ''),
        ),
        wall_s=round(time.time() - t0, 2),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + [
            'floating-point arithmetic is treated as exact real arithmetic, except where arbitrary doubles are explored (memory safety)',
            'float literals stand for the simple rational they round from (1.0/6.0 is one sixth)',
            'numba compiles the Python source faithfully; spot-checked by running witnesses of explored paths on the compiled code',
        ],
        violations=len(viol),
    )
    if paths:
        ev['coverage']['violations_found'] = [dict(task=v['task'], label=v['label'], detail=v['result'].get('detail', ''), replay=p) for p, v in paths]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d tasks, %d decided, %d inconclusive; %d paths, %d obligations, %d queries, solver %.1fs, %d witnesses run on compiled code; %.1fs' % (
        prop, tier, len(tasks), len(decided), len(incon), tot.get('paths', 0), tot.get('obligations', 0), tot.get('queries', 0), tot.get('solver_s', 0), sum(r['witness_ok'] for r in results), time.time() - t0))
    for i in incon[:20]:
        print('  inconclusive: %s: %s' % (i['task'], '; '.join(i['why'])[:300]))
    for k in {json.dumps(k, sort_keys=True) for k in knownhit}:
        k = json.loads(k)
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        for p, v in paths:
            print('  %s: %s -> %s' % (v['task'], v['label'], v['result'].get('detail', '')[:400]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        sys.exit(1)
    if not decided:
        print('no task could be decided')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
