"""Access to the z3 bindings and accounting of every solver call."""
import importlib.util
import os
import sys
import time

_Z3_DIRS = [os.environ.get('VF_Z3_DIR', ''),
            '/opt/veriftools/pyvenv/lib/python3.12/site-packages']


def _load_z3():
    try:
        import z3
        return z3
    except ImportError:
        pass
    for d in _Z3_DIRS:
        init = os.path.join(d, 'z3', '__init__.py')
        if d and os.path.exists(init):
            spec = importlib.util.spec_from_file_location(
                'z3', init, submodule_search_locations=[os.path.join(d, 'z3')])
            mod = importlib.util.module_from_spec(spec)
            sys.modules['z3'] = mod
            spec.loader.exec_module(mod)
            return mod
    raise ImportError('no z3 bindings found')


z3 = _load_z3()

# every solver call made in this process is counted here
STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0}


def reset_stats():
    for k in STATS:
        STATS[k] = 0.0 if k == 'time' else 0


def check(solver, *assumptions):
    t = time.time()
    r = solver.check(*assumptions)
    STATS['time'] += time.time() - t
    STATS['queries'] += 1
    STATS[str(r)] += 1
    return r


def version():
    return z3.get_version_string()
