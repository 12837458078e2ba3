"""Random tensors: promised symmetries for every draw."""
import itertools

import numpy as np

from ..runner import Case
from ..ccsys import raw

FUNCTIONS = ['test_utils.make_random_' + f for f in (
    'F', 'I', 'I_anti', 'Itot', 'Ifull', 'Ifull_gen', 'integrals', 'T',
    'T1_spatial', 'T2_spatial', 'L', 'ft_integrals', 'ft_T',
    'ft_T1_spatial', 'ft_T2_spatial', 'ft_D', 'ft_D1', 'ft_D2')]
BOUNDS = {'quick': 'up to 3 orbitals per index range, 2 grid points, unequal '
          'sizes; every draw symbolic', 'thorough': 'up to 4',
          'outside': 'larger sizes'}
ASSUMPTIONS = ['every call of the random generator returns an arbitrary real '
               'number, independent of the others', 'exact arithmetic']

ANTI = [((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1), ((1, 0, 3, 2), 1)]
EXCH = [((1, 0, 3, 2), 1)]
EIGHT = [((1, 0, 3, 2), 1), ((2, 3, 0, 1), 1), ((3, 2, 1, 0), 1)]


def sym(ctx, label, A, rules, shape, lead=0):
    ctx.require_true('shape of ' + label, A.shape == tuple(shape))
    for perm, s in rules:
        p = tuple(range(lead)) + tuple(lead + x for x in perm)
        ctx.require('symmetry of ' + label, A, s*A.transpose(p))


def fock(ctx, F, no, nv):
    ctx.require('symmetric F', F.oo, F.oo.transpose(1, 0))
    ctx.require('symmetric F', F.vv, F.vv.transpose(1, 0))
    ctx.require('symmetric F', F.ov, F.vo.transpose(1, 0))
    ctx.require_true('shape of F', F.oo.shape == (no, no)
                     and F.ov.shape == (no, nv) and F.vo.shape == (nv, no)
                     and F.vv.shape == (nv, nv))


NINE = ('vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'oovv', 'vooo', 'ooov',
        'oooo')


def nine(ctx, I, no, nv, anti):
    """entries the nine blocks share through the symmetry must agree"""
    d = {'o': no, 'v': nv}
    for b in NINE:
        A = getattr(I, b)
        ctx.require_true('shape of integrals',
                         A.shape == tuple(d[c] for c in b))
        rules = []
        if anti and b[0] == b[1]:
            rules.append(((1, 0, 2, 3), -1))
        if anti and b[2] == b[3]:
            rules.append(((0, 1, 3, 2), -1))
        if b[0] == b[1] and b[2] == b[3]:
            rules.append(((1, 0, 3, 2), 1))
        for p, s in rules:
            ctx.require('symmetry of integral blocks', A, s*A.transpose(p))


def spinless(ctx, no, nv):
    m = ctx.mod('test_utils')
    ctx.begin_random()
    fock(ctx, m.make_random_F(no, nv), no, nv)
    nine(ctx, m.make_random_I(no, nv), no, nv, False)
    nine(ctx, m.make_random_I_anti(no, nv), no, nv, True)
    F, I = m.make_random_integrals(no, nv)
    fock(ctx, F, no, nv)
    nine(ctx, I, no, nv, True)
    T1, T2 = m.make_random_T(no, nv)
    ctx.require_true('shape of singles', T1.shape == (nv, no))
    sym(ctx, 'doubles', T2, ANTI, (nv, nv, no, no))
    L1, L2 = m.make_random_L(no, nv)
    ctx.require_true('shape of multiplier singles', L1.shape == (no, nv))
    sym(ctx, 'multipliers', L2, ANTI, (no, no, nv, nv))


def assemble(ctx, I, nos, nvs):
    ns = [a + b for a, b in zip(nos, nvs)]
    A = np.empty(ns, dtype=object)
    for ix in np.ndindex(*ns):
        nm = ''.join('o' if i < o else 'v' for i, o in zip(ix, nos))
        jx = tuple(i if i < o else i - o for i, o in zip(ix, nos))
        A[ix] = raw(getattr(I, nm))[jx]
    return ctx.array(A)


def full(ctx, no, nv):
    m = ctx.mod('test_utils')
    ctx.begin_random()
    I = m.make_random_Ifull(no, nv)
    d = {'o': no, 'v': nv}
    for b in itertools.product('ov', repeat=4):
        ctx.require_true('shape of all blocks', getattr(
            I, ''.join(b)).shape == tuple(d[c] for c in b))
    n = no + nv
    sym(ctx, 'all blocks together', assemble(ctx, I, (no,)*4, (nv,)*4), ANTI,
        (n,)*4)
    sym(ctx, 'unblocked integrals', m.make_random_Itot(n), EIGHT, (n,)*4)
    F, J = m.make_random_ft_integrals(n)
    ctx.require('symmetric finite-temperature F', F, F.transpose(1, 0))
    ctx.require_true('shape of finite-temperature F', F.shape == (n, n))
    sym(ctx, 'finite-temperature integrals', J, ANTI, (n,)*4)


def general(ctx, nos, nvs):
    """sixteen blocks of the requested sizes"""
    m = ctx.mod('test_utils')
    ctx.begin_random()
    I = m.make_random_Ifull_gen(*[x for p in zip(nos, nvs) for x in p])
    for b in itertools.product('ov', repeat=4):
        A = getattr(I, ''.join(b))
        ctx.require_true('shape of general blocks', A.shape == tuple(
            nos[k] if c == 'o' else nvs[k] for k, c in enumerate(b)))
    A = raw(assemble(ctx, I, nos, nvs)).reshape(-1)
    ctx.require('first entry is used', ctx.array([A[0]]),
                ctx.array([raw(I.oooo)[0, 0, 0, 0]]))


def spatial(ctx, noa, nva, nob, nvb):
    m = ctx.mod('test_utils')
    ctx.begin_random()
    Ta, Tb = m.make_random_T1_spatial(noa, nva, nob, nvb)
    ctx.require_true('shape of spatial singles', Ta.shape == (nva, noa)
                     and Tb.shape == (nvb, nob))
    Taa, Tab, Tbb = m.make_random_T2_spatial(noa, nva, nob, nvb)
    sym(ctx, 'alpha doubles', Taa, ANTI, (nva, nva, noa, noa))
    sym(ctx, 'beta doubles', Tbb, ANTI, (nvb, nvb, nob, nob))
    ctx.require_true('shape of mixed doubles',
                     Tab.shape == (nva, nvb, noa, nob))


def grid(ctx, ng, na, nb):
    m = ctx.mod('test_utils')
    ctx.begin_random()
    T1, T2 = m.make_random_ft_T(ng, na)
    ctx.require_true('shape of grid singles', T1.shape == (ng, na, na))
    sym(ctx, 'grid doubles', T2, ANTI, (ng,) + (na,)*4, 1)
    Ta, Tb = m.make_random_ft_T1_spatial(ng, na, nb)
    ctx.require_true('shape of spatial grid singles', Ta.shape == (ng, na, na)
                     and Tb.shape == (ng, nb, nb))
    Taa, Tab, Tbb = m.make_random_ft_T2_spatial(ng, na, nb)
    sym(ctx, 'alpha grid doubles', Taa, ANTI, (ng,) + (na,)*4, 1)
    sym(ctx, 'beta grid doubles', Tbb, ANTI, (ng,) + (nb,)*4, 1)
    ctx.require_true('shape of mixed grid doubles',
                     Tab.shape == (ng, na, nb, na, nb))


def denominators(ctx, n1, n2):
    """differences of one set of energies: antisymmetric, additive"""
    m = ctx.mod('test_utils')
    ctx.begin_random()
    D1, D2 = m.make_random_ft_D(n1)
    for lab, D in (('paired', D1), ('single', m.make_random_ft_D1(n1))):
        ctx.require_true('shape of denominators', D.shape == (n1, n1))
        ctx.require(lab + ' differences are antisymmetric', D,
                    -D.transpose(1, 0))
        R = raw(D)
        for a, b, c in itertools.product(range(n1), repeat=3):
            ctx.require(lab + ' differences are additive',
                        R[a, b] + R[b, c], R[a, c])
    ctx.require_true('shape of denominators', D2.shape == (n1,)*4)
    r = np.empty((n1,)*4, dtype=object)
    R = raw(D1)
    for a, b, i, j in np.ndindex(*r.shape):
        r[a, b, i, j] = R[a, i] + R[b, j]
    ctx.require('double differences are sums of single ones', D2,
                ctx.array(r))
    D = m.make_random_ft_D2(n1, n2)
    ctx.require_true('shape of mixed denominators', D.shape == (n1, n2)*2)
    R = raw(D)
    for a, b, i, j in np.ndindex(*R.shape):
        ctx.require('mixed differences are antisymmetric', R[a, b, i, j],
                    -R[i, j, a, b])
        ctx.require('mixed differences are sums', R[a, b, i, j],
                    R[a, j, i, j] + R[i, b, i, j])
        ctx.require('mixed differences do not mix', R[a, b, i, b],
                    R[a, j, i, j])


def cases(tier):
    th = tier == 'thorough'
    out = []
    ov = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3),
          (1, 4), (4, 1)]
    if th:
        ov += [(3, 3), (4, 2), (2, 4), (4, 4)]
    for o, v in ov:
        out.append(Case('spinless-%d-%d' % (o, v), spinless,
                        dict(no=o, nv=v)))
        if o + v <= (6 if th else 5):
            out.append(Case('full-%d-%d' % (o, v), full, dict(no=o, nv=v)))
    for nos, nvs in (((1, 1, 1, 1), (1, 1, 1, 1)),
                     ((1, 2, 1, 2), (2, 1, 1, 1)),
                     ((2, 1, 1, 1), (1, 1, 2, 2))):
        out.append(Case('general-%s-%s' % (''.join(map(str, nos)),
                                           ''.join(map(str, nvs))), general,
                        dict(nos=nos, nvs=nvs)))
    for s in ((1, 2, 2, 1), (2, 2, 1, 2), (2, 1, 2, 2), (2, 2, 2, 2)) + (
            ((3, 2, 2, 3),) if th else ()):
        out.append(Case('spatial-%d%d%d%d' % s, spatial, dict(zip(
            ('noa', 'nva', 'nob', 'nvb'), s))))
    for g, a, b in ((1, 1, 1), (2, 2, 2), (1, 2, 3), (2, 3, 2)):
        out.append(Case('grid-%d-%d-%d' % (g, a, b), grid,
                        dict(ng=g, na=a, nb=b)))
    for a, b in ((1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
        out.append(Case('energies-%d-%d' % (a, b), denominators,
                        dict(n1=a, n2=b)))
    return out
