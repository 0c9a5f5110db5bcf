'''Locate (and when needed build) the s3ql tree under test and make it importable.

The checks never rely on the editable install: they put the tree's ``src`` directory first on
sys.path.  The compiled extensions inside /repo/src are used only when they were built from the
sources that are there now (the build's stamp says so); otherwise the tree's ``src`` is copied to a
scratch directory outside /repo, built there, and removed when the check ends.
'''

import atexit
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('DST_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'
EXT = ('.pyx', '.pxd', '.pxi', '.cpp', '.c', '.h', '.hpp', '.so')


def reexec():
    '''Run under the repository's interpreter with hash randomisation off.'''
    want = os.environ.get('DST_HASHSEED', '0')
    if (
        os.path.realpath(sys.executable) != os.path.realpath(VENV_PY)
        or os.environ.get('PYTHONHASHSEED') != want
        or sys.prefix != '/opt/venv'
    ):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = want
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env.pop('PYTHONPATH', None)
        os.execve(VENV_PY, [VENV_PY, '-X', 'frozen_modules=off', *sys.argv], env)


def _tree_state(repo):
    out = []
    files = []
    for base, _dirs, names in os.walk(os.path.join(repo, 'src')):
        for n in names:
            if n.endswith(EXT) or n == '_linked_dict.py':
                files.append(os.path.relpath(os.path.join(base, n), repo))
    for f in sorted(files, key=os.fsencode):
        out.append((hashlib.sha256(open(os.path.join(repo, f), 'rb').read()).hexdigest(), f))
    f = 'pyproject.toml'
    out.append((hashlib.sha256(open(os.path.join(repo, f), 'rb').read()).hexdigest(), f))
    return out


def _stamp_ok(repo):
    try:
        lines = open(os.path.join(repo, 'build', '.vp-stamp')).read().splitlines()
    except OSError:
        return False
    have = sorted('%s  %s' % x for x in _tree_state(repo))
    want = sorted(l for l in lines if '  ' in l)
    return have == want


def src_dir(repo=None):
    '''Return a directory to put on sys.path that holds the current s3ql with fresh extensions'''
    repo = repo or REPO
    if os.environ.get('DST_SRC'):
        return os.environ['DST_SRC']
    if _stamp_ok(repo):
        return os.path.join(repo, 'src')
    scratch = tempfile.mkdtemp(prefix='dst-src-', dir=os.environ.get('TMPDIR', '/tmp'))
    owner = os.getpid()

    def _clean():
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)

    atexit.register(_clean)
    shutil.copytree(
        os.path.join(repo, 'src'),
        os.path.join(scratch, 'src'),
        ignore=shutil.ignore_patterns('__pycache__', '*.egg-info', '*.so', '_linked_dict.c',
                                      'sqlite3ext.cpp'),
    )
    # _sqlite3ext.cpp is a source, sqlite3ext.cpp is generated
    shutil.copy(os.path.join(repo, 'pyproject.toml'), scratch)
    for f in ('README.rst', 'LICENSE'):
        if os.path.exists(os.path.join(repo, f)):
            shutil.copy(os.path.join(repo, f), scratch)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    proc = subprocess.run(
        [VENV_PY, '-c', 'import setuptools; setuptools.setup()', 'build_ext', '--inplace', '-j4'],
        cwd=scratch,
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
    )
    if proc.returncode != 0:
        sys.stderr.write(proc.stdout.decode(errors='replace')[-4000:])
        raise SystemExit('dst: building the extensions failed')
    shutil.rmtree(os.path.join(scratch, 'build'), ignore_errors=True)
    os.environ['DST_SRC'] = os.path.join(scratch, 'src')
    return os.path.join(scratch, 'src')


def setup():
    sys.dont_write_bytecode = True
    src = src_dir()
    sys.path[:] = [p for p in sys.path if not p.startswith(REPO)]
    sys.path.insert(0, src)
    # the editable install registers a meta path finder; ours must win
    sys.meta_path[:] = [
        f for f in sys.meta_path if 'editable' not in getattr(f, '__name__', type(f).__name__).lower()
    ]
    import s3ql

    assert os.path.dirname(os.path.dirname(s3ql.__file__)) == src, s3ql.__file__
    return src
