"""Restricted Lambda equations."""
from ..runner import Case
from .. import ccsys
from ..ccsys import fill1, fill4

FUNCTIONS = ['cc_equations.rccsd_lambda_opt']
BOUNDS = {'quick': 'spatial occupied x virtual up to 3x2, 2x3, 1x3, 3x1; all '
          'entries symbolic reals, one case symbolic complex',
          'thorough': 'additionally 3x3, 1x6, 6x1',
          'outside': 'larger orbital spaces; floating-point rounding'}
ASSUMPTIONS = [
    'exact real/complex arithmetic (rounding is outside the claim)',
    'pyscf.lib.einsum computes the Einstein summation of its arguments',
    'integrals and doubles amplitudes symmetric under exchange of both '
    'electrons; F an arbitrary matrix',
]


def harness(ctx, no, nv, kind='f'):
    s = ccsys.RSys(ctx, no, nv, kind, L=True)
    R1, R2 = ctx.mod('cc_equations').rccsd_lambda_opt(
        s.F_b, s.I_b, s.L1, s.L2, s.T1, s.T2)
    o = s.cc(ctx).bra(s.L1so, s.L2so)
    ctx.require('derivative with respect to T1', R1, fill1(
        lambda i, a: o.lam1(s.o('a', i), s.v('a', a)), no, nv))
    ctx.require('derivative with respect to T2', R2, fill4(
        lambda i, j, a, b: o.lam2(s.o('a', i), s.o('b', j), s.v('a', a),
                                  s.v('b', b)), no, no, nv, nv))


def cases(tier):
    ds = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]
    if tier == 'thorough':
        ds += [(3, 3), (1, 6), (6, 1)]
    out = [Case('%d-%d' % d, harness, dict(no=d[0], nv=d[1])) for d in ds]
    out.append(Case('2-1-complex', harness, dict(no=2, nv=1, kind='c')))
    return out
