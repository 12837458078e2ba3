"""CCSD amplitude equations against projections of e^-T H e^T."""
from ..runner import Case
from .. import ccsys

FUNCTIONS = ['cc_equations.ccsd_simple', 'cc_equations.ccsd_stanton']
BOUNDS = {'quick': 'occupied x virtual spin orbitals up to 4x3, 3x4, 5x2, '
          '2x5, 8x1, 1x8, all entries of F, I, T1, T2 symbolic reals; 2x2 symbolic '
          'complex (amplitudes and integrals, or integrals only)',
          'thorough': 'additionally 4x4, 6x2, 2x6, 5x3, 3x5',
          'outside': 'larger orbital spaces; floating-point rounding'}
ASSUMPTIONS = [
    'exact real/complex arithmetic (rounding is outside the claim)',
    'pyscf.lib.einsum computes the Einstein summation of its arguments',
    'I is antisymmetric under exchange of its first and of its last two '
    'indices, T2 likewise; F is an arbitrary matrix',
]


def harness(ctx, fn, no, nv, kind='f'):
    s = ccsys.GSys(ctx, no, nv, kind)
    f = getattr(ctx.mod('cc_equations'), fn)
    R1, R2 = f(s.F, s.I, s.T1, s.T2)
    o = s.cc(ctx)
    ctx.require('singles residual', R1, ccsys.fill1(o.single, nv, no))
    ctx.require('doubles residual', R2, ccsys.fill4anti(o.double, nv, no))


def cases(tier):
    out = []
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4),
             (4, 2), (1, 8), (8, 1), (2, 5), (5, 2),
             (3, 4), (4, 3)]
    if tier == 'thorough':
        sizes += [(4, 4), (2, 6), (6, 2), (3, 5), (5, 3)]
    for fn in ('ccsd_simple', 'ccsd_stanton'):
        for no, nv in sizes:
            out.append(Case('%s-%d-%d' % (fn, no, nv), harness,
                            dict(fn=fn, no=no, nv=nv)))
        out.append(Case('%s-2-2-complex' % fn, harness,
                        dict(fn=fn, no=2, nv=2, kind='c')))
        out.append(Case('%s-2-2-complex-integrals' % fn, harness,
                        dict(fn=fn, no=2, nv=2, kind='cff')))
    return out
