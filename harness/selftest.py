"""Setup: see that what the checks need is there.  Builds nothing that stays;
every check builds the C extensions from /repo's working tree itself."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402

for tool in (build.PY, 'gcc', 'valgrind'):
    if shutil.which(tool) is None:
        raise SystemExit('missing: ' + tool)
subprocess.run([build.PY, '-c', 'import zope.interface, zope.proxy'],
               check=True, env=build.clean_env())
scratch = tempfile.mkdtemp(prefix='verif-setup-')
try:
    print(sorted(build.build(scratch, 'plain')))
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print('ok')
