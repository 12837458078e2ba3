"""CCD, linearised CC and the ladder / ring variants."""
from ..runner import Case
from .. import ccsys

FUNCTIONS = ['cc_equations.' + f for f in (
    'ccd_simple', 'ccd_stanton', 'lccd_simple', 'lccsd_simple',
    'ccd_ladder_simple', 'ccd_ring_simple')]
BOUNDS = {'quick': 'occupied x virtual spin orbitals 1x1 .. 4x4, 8x1, 6x2, 5x3 and '
          'transposed, all '
          'entries symbolic reals; 2x2 symbolic complex',
          'thorough': 'additionally 4x5 and 5x4',
          'outside': 'larger orbital spaces; floating-point rounding'}
ASSUMPTIONS = [
    'exact real/complex arithmetic (rounding is outside the claim)',
    'pyscf.lib.einsum computes the Einstein summation of its arguments',
    'I and T2 antisymmetric in their index pairs; F is an arbitrary matrix',
]


def ccd(ctx, fn, no, nv, kind='f'):
    s = ccsys.GSys(ctx, no, nv, kind, t1=False)
    f = getattr(ctx.mod('cc_equations'), fn)
    R2 = f(s.F, s.I, s.T2)
    o = s.cc(ctx, t1=False)
    if fn.startswith('l'):
        o.linear()
    ctx.require('doubles residual', R2, ccsys.fill4anti(o.double, nv, no))


def lccsd(ctx, fn, no, nv, kind='f'):
    s = ccsys.GSys(ctx, no, nv, kind)
    f = getattr(ctx.mod('cc_equations'), fn)
    R1, R2 = f(s.F, s.I, s.T1, s.T2)
    o = s.cc(ctx).linear()
    ctx.require('singles residual', R1, ccsys.fill1(o.single, nv, no))
    ctx.require('doubles residual', R2, ccsys.fill4anti(o.double, nv, no))


def ladder(ctx, fn, no, nv, kind='f'):
    """particle-particle and hole-hole ladders:
    R = <ab||ij> + 1/2 <ab||cd> t^cd_ij + 1/2 <kl||ij> t^ab_kl
        + 1/4 <kl||cd> t^cd_ij t^ab_kl"""
    s = ccsys.GSys(ctx, no, nv, kind, t1=False, F=False)
    R2 = getattr(ctx.mod('cc_equations'), fn)(s.I, s.T2)
    I, T = ccsys.raw(s.If), ccsys.raw(s.T2)
    O, V = range(no), range(nv)
    pv = [(c, d) for c in V for d in V if c < d]
    po = [(k, l) for k in O for l in O if k < l]

    def el(a, b, i, j):
        x = I[no+a, no+b, i, j]
        for c, d in pv:
            x = x + I[no+a, no+b, no+c, no+d]*T[c, d, i, j]
        for k, l in po:
            x = x + I[k, l, i, j]*T[a, b, k, l]
            for c, d in pv:
                x = x + I[k, l, no+c, no+d]*T[c, d, i, j]*T[a, b, k, l]
        return x
    ctx.require('ladder residual', R2, ccsys.fill4anti(el, nv, no))


def ring(ctx, fn, no, nv, kind='f'):
    """direct-ring equation, written with pair indices (ai), (bj) as the
    Riccati equation  R = B + A t + t A' + t B' t."""
    s = ccsys.GSys(ctx, no, nv, kind, t1=False, F=False)
    R2 = getattr(ctx.mod('cc_equations'), fn)(s.I, s.T2)
    I, T = ccsys.raw(s.If), ccsys.raw(s.T2)
    P = [(c, k) for c in range(nv) for k in range(no)]

    def t(x, y):
        return T[x[0], y[0], x[1], y[1]]

    def A(x, y):
        """<a k || i c> of pairs (a,i), (c,k)"""
        return I[no+x[0], y[1], x[1], no+y[0]]

    def B(x, y):
        return I[x[1], y[1], no+x[0], no+y[0]]

    def el(a, b, i, j):
        x, y = (a, i), (b, j)
        r = I[no+a, no+b, i, j]
        for p in P:
            r = r + A(x, p)*t(p, y) + t(x, p)*A(y, p)
            for q in P:
                r = r + t(x, p)*B(p, q)*t(q, y)
        return r
    ctx.require('ring residual', R2, ccsys.fill4(el, nv, nv, no, no))


def cases(tier):
    out = []
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4),
             (4, 2), (4, 4), (1, 8), (8, 1), (2, 6), (6, 2), (3, 5), (5, 3)]
    if tier == 'thorough':
        sizes += [(4, 5), (5, 4)]
    for fn, h in (('ccd_simple', ccd), ('ccd_stanton', ccd),
                  ('lccd_simple', ccd), ('lccsd_simple', lccsd),
                  ('ccd_ladder_simple', ladder), ('ccd_ring_simple', ring)):
        for no, nv in sizes:
            out.append(Case('%s-%d-%d' % (fn, no, nv), h,
                            dict(fn=fn, no=no, nv=nv)))
        out.append(Case('%s-2-2-complex' % fn, h,
                        dict(fn=fn, no=2, nv=2, kind='c')))
        out.append(Case('%s-2-2-complex-integrals' % fn, h,
                        dict(fn=fn, no=2, nv=2, kind='cff')))
    return out
