"""CPython cross-check of the instrumentation: run the repository's own test
suite on the instrumented modules (concrete values).  Any test of the baseline
that fails here but passes natively shows an unsound rewriting."""
import sys, os
sys.path.insert(0, '/verif')
from pyded import transform, core
core.Engine()
if '--active' in sys.argv:
    sys.argv.remove('--active')
    e = core.E
    e.start_path([])
    e.active = True
    e.work = []
transform.install()
from pyded import ops
ops.install_lib_models()
from twisted.trial import unittest, runner, reporter
os.environ['TZ'] = 'UTC'
loader = runner.TestLoader()
import tempfile
d = tempfile.mkdtemp()
os.chdir(d)
suite = loader.loadByNames(['epsilon'], True)
r = runner.TrialRunner(reporter.TreeReporter if '-v' in sys.argv else reporter.MinimalReporter, workingDirectory=d + '/_trial')
res = r.run(suite)
print('tests', res.testsRun, 'failures', len(res.failures), 'errors', len(res.errors))
for t, f in res.failures + res.errors:
    print('FAIL', t.id() if hasattr(t, 'id') else t, f.getErrorMessage()[:200] if hasattr(f, 'getErrorMessage') else str(f)[:200])
import shutil
os.chdir('/')
shutil.rmtree(d)
