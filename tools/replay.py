#!/usr/bin/env python3
"""replay.py REPLAY.json: run the failing trial of a replay file again, on the unmodified code of /repo.

Exit 1 when it fails again (the contract obligation, inputs and traceback are
printed), 0 when it passes.  For a replay file that names undischarged
obligations only, they are printed."""
import base64, importlib, json, os, pickle, random, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYVT = '/opt/veriftools/pyvenv/bin/python'
if 'PYDED_REPLAY' not in os.environ:
    e = dict(os.environ, PYTHONPATH=H + ':/opt/venv/lib/python3.12/site-packages', PYDED_REPLAY='1', TZ='UTC',
             PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8')
    py = PYVT if os.path.exists(PYVT) else 'python3-vt'
    os.execvpe(py, [py, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], e)

r = json.load(open(sys.argv[1]))
if 'trial' not in r:
    for o in r['obligations']:
        print('%s [%s] %s' % (o['name'], o['status'], o['detail'][:1000]))
    sys.exit(1)
from pyded import api, searcher, transform
transform.install_plain()
importlib.import_module('contracts.' + r['property'].lower())
api.Trial.findings = api.findings(r['property'])
kind, name = r['trial'].split(' ', 1)
once = False
if kind == 'contract':
    fn = [c.fn for c in api.CONTRACTS[r['property']] if c.name == name][0]
else:
    s = [c for c in api.SEARCHES[r['property']] if c.name == name][0]
    fn, once = s.fn, s.once
i, model = r['index'], None
if r.get('model'):
    model = pickle.loads(base64.b64decode(r['model']))
    seed = '%s:m:%d' % (r['trial'], i)
elif once:
    seed = '%d:%s' % (r['seed'], r['trial'])
else:
    seed = '%d:%s:%d' % (r['seed'], r['trial'], i)
h = api.Odd.world = api.Trial(random.Random(seed), model)
h.i = i
h.thorough = r['tier'] == 'thorough'
f = searcher.run_one(fn, h, transform.PKG_ROOT, 60.0, api)
if f is None or f == 'discard' or 'harness_error' in f:
    print('passes: %s' % (f,))
    sys.stdout.flush()
    os._exit(0)
print(f['tb'])
print('inputs: %s' % searcher.show(h.inputs))
print('FAILS: %s -- %s' % (f['obligation'], f['info'][:1000]))
sys.stdout.flush()
os._exit(1)
