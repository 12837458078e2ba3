"""Run once before the checks: the tools are there and answer."""
import sys


def main():
    import numpy
    from .solver import z3
    x, y = z3.Reals('x y')
    s = z3.Solver()
    s.add(x*x + y*y < 0)
    assert s.check() == z3.unsat
    s = z3.Solver()
    s.add(x*x == 2, x > 0)
    assert s.check() == z3.sat
    sys.stdout.write('python %s, numpy %s, z3 %s\n' % (
        sys.version.split()[0], numpy.__version__, z3.get_version_string()))
    return 0
