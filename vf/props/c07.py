"""Unrestricted Lambda equations."""
from ..runner import Case
from .. import ccsys
from ..ccsys import fill1, fill4, fill4anti, raw

FUNCTIONS = ['cc_equations.uccsd_lambda_opt']
BOUNDS = {'quick': '(occ a, vir a, occ b, vir b) up to (2,2,2,2), (3,2,1,2), '
          '(5,1,2,1), (1,2,1,5) and the like, including empty spaces and '
          'unequal alpha/beta sizes; all entries symbolic reals, one case '
          'symbolic complex',
          'thorough': 'additionally up to (3,3,3,3)',
          'outside': 'larger orbital spaces; floating-point rounding'}
ASSUMPTIONS = [
    'exact real/complex arithmetic (rounding is outside the claim)',
    'pyscf.lib.einsum computes the Einstein summation of its arguments',
    'same-spin integrals and amplitudes antisymmetric in their index pairs; '
    'F and the mixed-spin integrals/amplitudes arbitrary',
]


def harness(ctx, noa, nva, nob, nvb, kind='f'):
    s = ccsys.USys(ctx, noa, nva, nob, nvb, kind, L=True)
    R1, R2 = ctx.mod('cc_equations').uccsd_lambda_opt(
        s.Fab, s.Fbb, s.Iaa_b, s.Ibb_b, s.Iab_b, s.l1, s.l2, s.t1, s.t2)
    o = s.cc(ctx).bra(s.L1so, s.L2so)
    for k, (sp, no, nv) in enumerate((('a', noa, nva), ('b', nob, nvb))):
        ctx.require('derivative with respect to T1 (%s)' % sp, R1[k], fill1(
            lambda i, a: o.lam1(s.o(sp, i), s.v(sp, a)), no, nv))
    for k, sp, no, nv in ((0, 'a', noa, nva), (2, 'b', nob, nvb)):
        ctx.require('derivative with respect to T2 (%s%s)' % (sp, sp), R2[k],
                    fill4anti(lambda i, j, a, b: o.lam2(
                        s.o(sp, i), s.o(sp, j), s.v(sp, a), s.v(sp, b)),
                        no, nv))
    ctx.require('derivative with respect to T2 (ab)', R2[1], fill4(
        lambda i, j, a, b: o.lam2(s.o('a', i), s.o('b', j), s.v('a', a),
                                  s.v('b', b)), noa, nob, nva, nvb))


def cases(tier):
    ds = [(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 1), (1, 1, 2, 1),
          (1, 1, 1, 2), (2, 2, 1, 1), (1, 1, 2, 2), (2, 1, 1, 2),
          (2, 2, 1, 2), (1, 2, 2, 2), (2, 2, 2, 2), (1, 1, 0, 1),
          (2, 2, 0, 1), (0, 1, 1, 2), (2, 1, 1, 0), (1, 0, 1, 2),
          (3, 2, 1, 2), (2, 3, 2, 1), (1, 5, 1, 2), (5, 1, 2, 1),
          (1, 2, 1, 5), (2, 1, 5, 1)]
    if tier == 'thorough':
        ds += [(2, 3, 2, 2), (3, 2, 2, 2), (3, 3, 1, 1), (1, 1, 3, 3),
               (3, 3, 2, 2), (3, 3, 3, 3)]
    out = [Case('-'.join(map(str, d)), harness,
                dict(zip(('noa', 'nva', 'nob', 'nvb'), d))) for d in ds]
    out.append(Case('1-2-2-1-complex', harness,
                    dict(noa=1, nva=2, nob=2, nvb=1, kind='c')))
    return out
