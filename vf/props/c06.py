"""Lambda equations: stationarity of the coupled-cluster Lagrangian."""
from ..runner import Case
from .. import ccsys
from ..ccsys import fill1, fill4anti

FUNCTIONS = ['cc_equations.' + f for f in (
    'ccsd_lambda_simple', 'ccsd_lambda_opt', 'ccsd_lambda_stanton',
    'ccsd_lambda_opt_int', 'lambda_int', 'ccd_lambda_simple')]
BOUNDS = {'quick': 'occupied x virtual spin orbitals up to 3x3, 5x2, 8x1 and '
          'transposed; all '
          'entries of F, I, L1, L2, T1, T2 symbolic reals; 2x2 symbolic '
          'complex',
          'thorough': 'additionally 4x4, 6x2, 2x6, 3x4, 4x3',
          'outside': 'larger orbital spaces; floating-point rounding'}
ASSUMPTIONS = [
    'exact real/complex arithmetic (rounding is outside the claim)',
    'pyscf.lib.einsum computes the Einstein summation of its arguments',
    'I, T2, L2 antisymmetric in their index pairs; F is an arbitrary matrix',
]


def harness(ctx, fn, no, nv, kind='f'):
    s = ccsys.GSys(ctx, no, nv, kind, L=True)
    m = ctx.mod('cc_equations')
    a = (s.F, s.I, s.L1, s.L2, s.T1, s.T2)
    if fn == 'ccsd_lambda_opt_int':
        a += (m.lambda_int(s.F, s.I, s.T1, s.T2),)
    R1, R2 = getattr(m, fn)(*a)
    o = s.cc(ctx).bra(ccsys.raw(s.L1), ccsys.raw(s.L2))
    ctx.require('derivative with respect to T1', R1, fill1(o.lam1, no, nv))
    ctx.require('derivative with respect to T2', R2,
                fill4anti(o.lam2, no, nv))
    if fn == 'ccsd_lambda_opt_int':
        # the intermediates serve every iteration
        R1, R2 = getattr(m, fn)(*a)
        ctx.require('derivative with respect to T1, second iteration', R1,
                    fill1(o.lam1, no, nv))
        ctx.require('derivative with respect to T2, second iteration', R2,
                    fill4anti(o.lam2, no, nv))


def ccd(ctx, fn, no, nv, kind='f'):
    s = ccsys.GSys(ctx, no, nv, kind, L=True, t1=False)
    R2 = getattr(ctx.mod('cc_equations'), fn)(s.F, s.I, s.L2, s.T2)
    o = s.cc(ctx, t1=False).bra(None, ccsys.raw(s.L2))
    ctx.require('derivative with respect to T2', R2,
                fill4anti(o.lam2, no, nv))


def cases(tier):
    out = []
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4),
             (4, 2), (1, 8), (8, 1), (2, 5), (5, 2)]
    if tier == 'thorough':
        sizes += [(3, 4), (4, 3), (4, 4), (2, 6), (6, 2)]
    for fn, h in (('ccsd_lambda_simple', harness),
                  ('ccsd_lambda_opt', harness),
                  ('ccsd_lambda_stanton', harness),
                  ('ccsd_lambda_opt_int', harness),
                  ('ccd_lambda_simple', ccd)):
        for no, nv in sizes:
            out.append(Case('%s-%d-%d' % (fn, no, nv), h,
                            dict(fn=fn, no=no, nv=nv)))
        out.append(Case('%s-2-2-complex' % fn, h,
                        dict(fn=fn, no=2, nv=2, kind='c')))
        out.append(Case('%s-2-2-complex-integrals' % fn, h,
                        dict(fn=fn, no=2, nv=2, kind='cff')))
    return out
