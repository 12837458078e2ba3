"""Unrestricted CCSD amplitude equations."""
from ..runner import Case
from .. import ccsys
from ..ccsys import fill1, fill4, fill4anti

FUNCTIONS = ['cc_equations.uccsd_stanton']
BOUNDS = {'quick': '(occ a, vir a, occ b, vir b) up to (2,2,2,2), (3,2,1,2), '
          '(5,1,2,1), (1,2,1,5) and the like, including empty spaces and '
          'unequal alpha/beta sizes; all entries symbolic reals, one case '
          'symbolic complex',
          'thorough': 'additionally up to (3,3,3,3)',
          'outside': 'larger orbital spaces; floating-point rounding'}
ASSUMPTIONS = [
    'exact real/complex arithmetic (rounding is outside the claim)',
    'pyscf.lib.einsum computes the Einstein summation of its arguments',
    'same-spin integrals and amplitudes antisymmetric in their index pairs; '
    'F and the mixed-spin integrals/amplitudes arbitrary',
]


def residuals(ctx, s, R1, R2, o):
    noa, nva, nob, nvb = s.d
    for k, (sp, no, nv) in enumerate((('a', noa, nva), ('b', nob, nvb))):
        ctx.require('singles residual (%s)' % sp, R1[k], fill1(
            lambda a, i: o.single(s.v(sp, a), s.o(sp, i)), nv, no))
    for k, sp, no, nv in ((0, 'a', noa, nva), (2, 'b', nob, nvb)):
        ctx.require('doubles residual (%s%s)' % (sp, sp), R2[k], fill4anti(
            lambda a, b, i, j: o.double(s.v(sp, a), s.v(sp, b), s.o(sp, i),
                                        s.o(sp, j)), nv, no))
    ctx.require('doubles residual (ab)', R2[1], fill4(
        lambda a, b, i, j: o.double(s.v('a', a), s.v('b', b), s.o('a', i),
                                    s.o('b', j)), nva, nvb, noa, nob))


def harness(ctx, noa, nva, nob, nvb, kind='f'):
    s = ccsys.USys(ctx, noa, nva, nob, nvb, kind)
    R1, R2 = ctx.mod('cc_equations').uccsd_stanton(
        s.Fab, s.Fbb, s.Iaa_b, s.Ibb_b, s.Iab_b, s.t1, s.t2)
    residuals(ctx, s, R1, R2, s.cc(ctx))


def cases(tier):
    ds = [(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 1), (1, 1, 2, 1),
          (1, 1, 1, 2), (2, 2, 1, 1), (1, 1, 2, 2), (2, 1, 1, 2),
          (2, 2, 1, 2), (1, 2, 2, 2), (2, 2, 2, 2), (1, 1, 0, 1),
          (2, 2, 0, 1), (0, 1, 1, 2), (2, 1, 1, 0), (1, 0, 1, 2),
          (3, 2, 1, 2), (2, 3, 2, 1), (1, 5, 1, 2), (5, 1, 2, 1),
          (1, 2, 1, 5), (2, 1, 5, 1)]
    if tier == 'thorough':
        ds += [(2, 3, 2, 2), (3, 2, 2, 2), (3, 3, 1, 1), (1, 1, 3, 3),
               (3, 3, 2, 2), (3, 3, 3, 3)]
    out = [Case('-'.join(map(str, d)), harness,
                dict(zip(('noa', 'nva', 'nob', 'nvb'), d))) for d in ds]
    out.append(Case('1-2-2-1-complex', harness,
                    dict(noa=1, nva=2, nob=2, nvb=1, kind='c')))
    return out
