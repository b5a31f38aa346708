"""Scratch installations of the package under test."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

REPO = '/repo'
PYTHON = '/opt/venv/bin/python'


def is_generated(name):
    return name.startswith('_mypy_') or name == '__pycache__'


def copy_package(target):
    """Copies the package sources of /repo's working tree, without generated files."""
    shutil.copytree(os.path.join(REPO, 'paradigm'),
                    os.path.join(target, 'paradigm'),
                    ignore=lambda d, names: [n for n in names
                                             if is_generated(n)])


def scratch(prefix):
    path = tempfile.mkdtemp(prefix='pdsim-' + prefix + '-', dir='/tmp')
    return path


def remove(path):
    assert path.startswith('/tmp/pdsim-'), path
    shutil.rmtree(path, ignore_errors=True)


def environment(site, hash_seed=0, **extra):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith('PYTHON')}
    here = os.path.dirname(os.path.abspath(__file__))
    env.update(PYTHONHASHSEED=str(hash_seed), PYTHONPATH=f'{site}:{here}',
               LC_ALL='C.UTF-8', PYTHONWARNINGS='ignore')
    env.update({k: str(v) for k, v in extra.items()})
    return env


def build_database(site, timeout=240):
    """First import: builds the stub database of the installation."""
    return subprocess.run(
            [PYTHON, '-c', 'import paradigm.base as b, paradigm;'
                           'print(paradigm.__file__)'],
            env=environment(site), cwd=site, capture_output=True, text=True,
            timeout=timeout)
