"""
Scratch copy of the code under test, and execution of it inside simulated processes.
"""

import atexit
import compileall
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

from . import core

REPO = os.environ.get('CRYSIM_REPO', '/repo') + '/crysgsu'        # (another tree: development only)
SCRATCH = None
_codes = {}


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def setup(need_swim=False):
    """Copy the repository's sources to scratch (never run them in place), build what they need."""
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='crysim.', dir=scratch_base())
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            os.chdir('/')
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(clean)
    code = os.path.join(SCRATCH, 'code')
    shutil.copytree(REPO, code, ignore=shutil.ignore_patterns('__pycache__', '*.pyc', '_swim.so', 'swim.py'))
    core.REPO_ROOT = code
    if need_swim:
        build_swim(code)
    import warnings
    warnings.simplefilter('ignore')
    compileall.compile_dir(code, quiet=2, workers=1)
    preload()
    return SCRATCH


def preload():
    """Heavy third-party imports are shared by all simulated processes."""
    import json, argparse, pathlib, math, re, multiprocessing, functools, itertools, struct, array  # noqa
    import statistics, copy, time, string                                                            # noqa
    import numpy, scipy.spatial, scipy.linalg                                                        # noqa
    core._base_path = [p for p in sys.path if not p.startswith(REPO) and '/verif' not in p]
    core._base_path.append(os.path.join(core.REPO_ROOT, 'convert'))


def build_swim(code):
    import numpy
    cpp = os.path.join(code, 'cpp')
    src = os.path.join(cpp, 'src')
    inc = sysconfig.get_paths()['include']
    run = dict(cwd=cpp, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        subprocess.run(['swig', '-python', '-o', 'src/swim_wrap.cpp', 'src/swim.i'], **run)
        subprocess.run(['g++', '-O0', '-w', '-std=c++11', '-fPIC', '-shared', '-Isrc', '-I' + inc,
                        '-I' + numpy.get_include(), 'src/swim.cpp', 'src/swim_wrap.cpp',
                        '-o', os.path.join(code, '_swim.so')], **run)
    except subprocess.CalledProcessError as e:
        raise core.HarnessError('swim does not build: %s' % e.stdout.decode(errors='replace')[-2000:])
    shutil.copy(os.path.join(src, 'swim.py'), os.path.join(code, 'swim.py'))


def script_code(rel):
    if rel not in _codes:
        path = os.path.join(core.REPO_ROOT, rel)
        with open(path, 'rb') as f:
            _codes[rel] = compile(f.read(), path, 'exec')
    return _codes[rel]


def run_script(rel, args):
    """Execute a script of the repository as __main__ inside the current simulated process.

    :return: exit status (0 - success)
    """
    import types
    path = os.path.join(core.REPO_ROOT, rel)
    sys.argv = [path] + [str(a) for a in args]
    sys.path[0:1] = [os.path.dirname(path)] if os.path.dirname(path) != core.REPO_ROOT else [core.REPO_ROOT]
    main = types.ModuleType('__main__')
    main.__file__ = path
    old = sys.modules.get('__main__')
    try:
        exec(script_code(rel), main.__dict__)
        return 0
    except SystemExit as e:
        if e.code is None or e.code == 0:
            return 0
        return e.code if isinstance(e.code, int) else 1
    finally:
        sys.modules['__main__'] = old
        main.__dict__.clear()
