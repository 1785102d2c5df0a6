"""Build the C extensions of /repo's working tree in a scratch folder.

Nothing is written to /repo.  The scratch folder belongs to the caller.
"""
import glob
import os
import shutil
import subprocess
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'

FLAVOURS = {
    # -O1: quick to compile, and refcount behaviour is that of any other build
    'plain': ('-O1 -g0', ''),
    'debug': ('-O1 -g -fno-omit-frame-pointer -fno-inline', ''),
    'asan': ('-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined '
             '-fno-sanitize-recover=undefined',
             '-fsanitize=address,undefined'),
}


class BuildError(Exception):
    pass


def clean_env(**extra):
    env = {
        'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'HOME': os.environ.get('HOME', '/root'),
        'LC_ALL': 'C.UTF-8',
        'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': '0',
        'PYTHONNOUSERSITE': '1',
        'ZOPE_INTERFACE_STRICT_IRO': '1',
        'PURE_PYTHON': '0',
    }
    env.update(extra)
    return env


def build(scratch, flavour='plain'):
    """Return {module name: path of its .so}."""
    cflags, ldflags = FLAVOURS[flavour]
    lib = os.path.join(scratch, 'lib-' + flavour)
    tmp = os.path.join(scratch, 'tmp-' + flavour)
    # Work on a copy of the sources, so that no build tool can leave anything
    # behind in /repo.
    src = os.path.join(scratch, 'src-' + flavour)
    os.makedirs(src)
    for name in ('setup.py', 'setup.cfg', 'pyproject.toml', 'MANIFEST.in',
                 'README.rst', 'CHANGES.rst'):
        path = os.path.join(REPO, name)
        if os.path.exists(path):
            shutil.copy(path, src)
    for name in ('include', 'src'):
        path = os.path.join(REPO, name)
        if os.path.isdir(path):
            shutil.copytree(
                path, os.path.join(src, name), symlinks=True,
                ignore=shutil.ignore_patterns(
                    '*.so', '*.pyc', '__pycache__', 'tests', '*.o'))
    env = clean_env(CFLAGS=cflags)
    if ldflags:
        env['LDFLAGS'] = ldflags
    r = subprocess.run(
        [PY, 'setup.py', '-q', 'build_ext', '--force',
         '--build-lib', lib, '--build-temp', tmp],
        cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        text=True, timeout=600)
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    result = {}
    for path in glob.glob(os.path.join(lib, 'zope', 'security', '*.so')):
        name = os.path.basename(path).split('.')[0]
        result['zope.security.' + name] = path
    shutil.rmtree(src)
    shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode or len(result) < 2:
        raise BuildError('building the C extensions failed (%s, %s)\n%s'
                         % (r.returncode, suffix, r.stdout[-3000:]))
    return result
