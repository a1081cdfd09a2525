"""Run a recorded input against the real, compiled code.

  python -m sx.replay FILE.json     replay one record (exit 1 if it violates)
  python -m sx.replay --serve       records on stdin, results on stdout
"""
import os, sys, json, itertools, warnings, traceback, io
if __name__ == '__main__':
    if 'NUMBA_BOUNDSCHECK' not in os.environ:
        import tempfile
        os.environ.update(NUMBA_BOUNDSCHECK='1', PYTHONDONTWRITEBYTECODE='1')
        os.environ.setdefault('NUMBA_CACHE_DIR', tempfile.mkdtemp(prefix='sxreplay'))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != HERE]
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')


def special_sets():
    from sx.harness import SPECIALS
    for s in SPECIALS:
        yield [s]
    for i in range(8):
        yield ['#%d' % i]
    for i in range(4):
        yield ['#4', '#%d' % i]
        yield ['#4', '#4', '#%d' % i]
        yield ['#4', '#4', '#4', '#%d' % i]
    yield [0.5, float('nan')]
    yield [float('nan'), 0.5]
    yield [0.5, float('inf')]
    yield [0.5, 0.5, float('nan')]
    yield [0.5, 1e300]
    yield [0.5, -1e300]
    yield [0.5, 0.5, 1e300, 0.5]
    yield [0.5, 0.5, 0.5, float('nan')]


def run(rec):
    import importlib
    import numpy as np
    from sx.harness import RealH, Failed
    mod = importlib.import_module('props.' + rec['prop'])
    fn = getattr(mod, rec['fn'])
    sets = [None]
    if rec.get('havoc'):
        sets = [rec['special']] if rec.get('special') else list(special_sets())
    last = None
    for sp in sets:
        r = dict(rec)
        r['special'] = sp
        H = RealH(r)
        try:
            np.seterr(all='ignore')
            fn(H, **rec.get('params', {}))
        except Failed as e:
            last = dict(status='skip', detail=str(e))
            continue
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            return dict(status='fail', detail='%s: %s' % (type(e).__name__, str(e)[:600]), inputs=jsonable(H.inputs), special=sp)
        if H.fails:
            return dict(status='fail', detail='; '.join(H.fails[:3])[:800], inputs=jsonable(H.inputs), special=sp)
        last = dict(status='ok', eqs=H.eqs)
    return last


def jsonable(d):
    out = {}
    for k, v in d.items():
        try:
            json.dumps(v)
            out[k] = v
        except TypeError:
            out[k] = repr(v)
    return out


def main():
    if sys.argv[1:] == ['--serve']:
        out = os.fdopen(os.dup(1), 'w')
        os.dup2(2, 1)
        for line in sys.stdin:
            try:
                r = run(json.loads(line))
            except BaseException as e:
                r = dict(status='error', detail='%s: %s' % (type(e).__name__, str(e)[:300]))
            out.write(json.dumps(r) + '\n')
            out.flush()
        return
    rec = json.load(open(sys.argv[1]))
    r = run(rec)
    print(json.dumps(r, indent=1))
    sys.exit(1 if r['status'] == 'fail' else 0)


if __name__ == '__main__':
    main()
