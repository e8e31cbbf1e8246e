"""Builds the core module of the tree in the current directory in a scratch directory and imports it.

load() returns the core extension; load_package() returns the package pyinterp (with stand-ins for xarray and dask).
"""
import atexit
import glob
import importlib
import os
import subprocess
import sys
import tempfile
import types

sys.dont_write_bytecode = True
REPO = os.getcwd()
CORE = os.path.join(REPO, 'src/pyinterp/core')
BUILD = os.path.join(REPO, '_build/src/pyinterp/core')
_TMP = tempfile.TemporaryDirectory(prefix='core_demo_')
atexit.register(_TMP.cleanup)


def _build():
    pkg = os.path.join(_TMP.name, 'pyinterp')
    ext = os.path.join(_TMP.name, 'ext')
    os.makedirs(pkg)
    os.makedirs(ext)
    src = os.path.join(_TMP.name, 'main.cpp')
    with open(os.path.join(CORE, 'module/main.cpp')) as f, open(src, 'w') as g:
        g.write(f.read().replace(', py::mod_gil_not_used()', ''))
    objs = [o for o in glob.glob(os.path.join(BUILD, 'CMakeFiles/core.dir/module/**/*.o'), recursive=True)
            if not o.endswith('main.cpp.o')]
    subprocess.run(['g++', '-std=c++17', '-O0', '-fPIC', '-shared', '-I/usr/include/python3.12', '-o',
                    os.path.join(ext, 'core.so'), src] + objs + [os.path.join(BUILD, 'libpyinterp.a'), '-lblas', '-lpthread'],
                   check=True)
    os.symlink(os.path.join(ext, 'core.so'), os.path.join(pkg, 'core.so'))
    for n in os.listdir(os.path.join(REPO, 'src/pyinterp')):
        if n not in ('core', 'tests', '__pycache__'):
            os.symlink(os.path.join(REPO, 'src/pyinterp', n), os.path.join(pkg, n))
    if not os.path.exists(os.path.join(pkg, 'version.py')):
        with open(os.path.join(pkg, 'version.py'), 'w') as f:
            f.write("def release(full=False):\n    return '0'\n\n\ndef date():\n    return ''\n")
    return pkg


def load():
    _build()
    sys.path.insert(0, os.path.join(_TMP.name, 'ext'))
    return importlib.import_module('core')


class _Stub(types.ModuleType):

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        c = type(name, (), {})
        setattr(self, name, c)
        return c


def load_package():
    pkg = _build()
    for n in ('xarray', 'dask', 'dask.array', 'dask.array.core', 'dask.base', 'dask.delayed', 'pandas'):
        try:
            importlib.import_module(n)
        except ImportError:
            sys.modules[n] = _Stub(n)
    sys.path.insert(0, os.path.dirname(pkg))
    return importlib.import_module('pyinterp')


def child(code, timeout=120):
    """Runs code in another process of the same interpreter with the built core on its path; (status, output)."""
    env = dict(os.environ, PYTHONPATH=os.path.join(_TMP.name, 'ext'), PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr
