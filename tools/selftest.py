"""Run the repository's own test suite on the instrumented modules (validates the translation)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(9000)
from symx import models, instrument as I, runner
models.install({'jadn': '/repo/distribution/src'})
for m in runner.list_modules():
    try:
        I.load(m)
    except Exception as e:
        print('cannot load', m, repr(e))
# the tests write files under a scratch directory: let the real open through
from symx import rt
import builtins
rt.HANDLERS.pop(builtins.open, None)
import pytest, shutil, tempfile
with tempfile.TemporaryDirectory() as d:
    shutil.copytree('/repo/distribution/tests', d + '/tests')
    os.chdir(d)
    sys.exit(pytest.main(['-q', '-x' if '-x' in sys.argv else '-q', '-p', 'no:cacheprovider', '--tb=short', 'tests']))
