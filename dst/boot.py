"""one environment for everything: the interpreter pynare is installed for, one thread per
process in the numerical libraries, nothing written outside a scratch directory"""
import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIXED = {
    'PYTHONDONTWRITEBYTECODE': '1',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'NUMEXPR_NUM_THREADS': '1', 'VECLIB_MAXIMUM_THREADS': '1',
    'MPLBACKEND': 'Agg', 'PYTHONFAULTHANDLER': '', 'LC_ALL': 'C.UTF-8',
    'PYTHONWARNINGS': '', 'PYTHONNOUSERSITE': '1',
}


def environment(hash_seed='0', scratch=None):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith('PYTHON') or k in FIXED}
    env.update(FIXED)
    env.pop('PYTHONFAULTHANDLER'); env.pop('PYTHONWARNINGS')
    env['PYTHONHASHSEED'] = str(hash_seed)
    env['PYTHONPATH'] = f"{VERIF}:{REPO}"
    env['DST_BOOTED'] = '1'
    if scratch:
        env['MPLCONFIGDIR'] = scratch
        env['DST_SCRATCH'] = scratch
    return env


def reexec():
    """run again under the right interpreter and environment"""
    if os.environ.get('DST_BOOTED') == '1':
        return
    import tempfile
    scratch = tempfile.mkdtemp(prefix='dst-')
    env = environment(scratch=scratch)
    py = PYTHON if os.path.exists(PYTHON) else sys.executable
    import subprocess
    try:
        rc = subprocess.call([py, *sys.argv], env=env)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc if rc >= 0 else 2)
