"""Writes MANIFEST.json from the property modules."""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    try:
        m = importlib.import_module('props.' + i)
    except ModuleNotFoundError:
        na.append(dict(property=i, reason='no check'))
        continue
    note = 'Bounded: %s. Outside: %s.' % (m.BOUNDS['quick'], m.OUTSIDE)
    asm = getattr(m, 'ASSUMPTIONS', [])
    note += ' Assumes ' + '; '.join(list(asm) + ['real arithmetic for floating point' if i != 'C07' else 'nothing about values: every double is explored', 'numba compiles the Python source faithfully (spot-checked by running witnesses on the compiled code)']) + '.'
    checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python -m sx.runner %s quick' % i, thorough_cmd='/opt/venv/bin/python -m sx.runner %s thorough' % i,
                       technique='symbolic execution of the package source (and of the code it generates) with z3 deciding every branch and assertion; counterexamples replayed on the compiled code',
                       level='model_checking', level_note=note))
man = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numba, scipy' && ls /opt/veriftools/pyvenv/lib/python3.12/site-packages/z3 > /dev/null",
           checks=checks, not_applicable=na,
           notes='No hooks: the checks read the source of /repo and need no instrumentation. Known and fixed findings: known-findings.txt.')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
