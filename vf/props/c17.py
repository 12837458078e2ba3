"""Hamiltonian matrix elements between determinants."""
import numpy as np

from ..runner import Case
from .. import ci
from ..ccsys import raw

FUNCTIONS = ['ci_utils.ci_matrixel', 'ci_utils.gci_matrixel',
             'ci_utils.diff', 'ci_utils.level']
BOUNDS = {'quick': 'spin-orbital form: up to 6 orbitals; alpha/beta form: '
          '3+3, 5+1, 1+5, 4+2, 2+4 orbitals; occupations of both '
          'determinants, '
          'one- and two-electron integrals and the constant are symbolic',
          'thorough': 'spin-orbital form up to 7 orbitals; alpha/beta form '
          'also 4+4, 6+1, 1+6',
          'outside': 'more orbitals; determinants with different particle '
          'numbers'}
ASSUMPTIONS = ['exact real arithmetic',
               'two-electron integrals of identical particles satisfy '
               '<pq|rs> = <qp|sr>',
               'bra and ket contain the same number of particles of each '
               'kind']


def string(ctx, name, n):
    x = ctx.tensor(name, (n,), 'b')
    return x, [x[k] for k in range(n)]


def same_number(ctx, x, y):
    d = ctx.zero
    for a, b in zip(x, y):
        d = d + a - b
    ctx.assume(d == 0)


def general(ctx, n, kind='f'):
    m = ctx.mod('ci_utils')
    bo, b = string(ctx, 'bra', n)
    ko, k = string(ctx, 'ket', n)
    same_number(ctx, b, k)
    h = ctx.tensor('h', (n, n), kind)
    I = ctx.pairsym('I', n, kind)
    c = ctx.real('const')
    got = m.gci_matrixel(m.Dstring(n, bo), m.Dstring(n, ko), h, I, c)
    b2, k2 = ci.settle(ctx, b, k)
    hr, Ir = raw(h), raw(I)
    ref = ci.hamiltonian(b2, k2, lambda p, q: hr[p, q],
                         lambda p, q, r, s: Ir[p, q, r, s], ctx)
    if all(x is y for x, y in zip(b2, k2)):
        ref = ref + c
    ctx.require('matrix element', got, ref)
    ctx.require('bra unchanged', bo, ctx.array(b, 'i'))
    ctx.require('ket unchanged', ko, ctx.array(k, 'i'))


def spin_blocks(h, I, n):
    """entries of the spin-orbital Hamiltonian from alpha/beta integrals"""
    ha, hb = [raw(x) for x in h]
    Ia, Ib, Iab = [raw(x) for x in I]

    def one(p, q):
        if (p < n) != (q < n):
            return None
        return ha[p, q] if p < n else hb[p - n, q - n]

    def two(p, q, r, s):
        if (p < n) != (r < n) or (q < n) != (s < n):
            return None
        if p < n and q < n:
            return Ia[p, q, r, s]
        if p >= n and q >= n:
            return Ib[p - n, q - n, r - n, s - n]
        if p < n:
            return Iab[p, q - n, r, s - n]
        return Iab[q, p - n, s, r - n]
    return one, two


def spin(ctx, na, nb):
    m = ctx.mod('ci_utils')
    ao, a = string(ctx, 'braa', na)
    bo, b = string(ctx, 'brab', nb)
    ko, k = string(ctx, 'keta', na)
    lo, l = string(ctx, 'ketb', nb)
    same_number(ctx, a, k)
    same_number(ctx, b, l)
    ha = ctx.tensor('ha', (na, na))
    hb = ctx.tensor('hb', (nb, nb))
    Ia, Ib = ctx.pairsym('Ia', na), ctx.pairsym('Ib', nb)
    Iab = ctx.tensor('Iab', (na, nb, na, nb))
    c = ctx.real('const')
    got = m.ci_matrixel(m.Dstring(na, ao), m.Dstring(nb, bo),
                        m.Dstring(na, ko), m.Dstring(nb, lo),
                        ha, hb, Ia, Ib, Iab, c)
    x, y = ci.settle(ctx, a + b, k + l)
    one, two = spin_blocks((ha, hb), (Ia, Ib, Iab), na)
    ref = ci.hamiltonian(x, y, one, two, ctx)
    if all(u is v for u, v in zip(x, y)):
        ref = ref + c
    ctx.require('matrix element', got, ref)


def cases(tier):
    out = []
    gs = [1, 2, 3, 4, 5, 6] + ([7] if tier == 'thorough' else [])
    for n in gs:
        out.append(Case('spin-orbital-%d' % n, general, dict(n=n),
                        validate=3))
    us = [(1, 1), (2, 2), (3, 3), (5, 1), (1, 5), (4, 2), (2, 4)]
    if tier == 'thorough':
        us += [(4, 4), (6, 1), (1, 6)]
    for na, nb in us:
        out.append(Case('alpha-beta-%d-%d' % (na, nb), spin,
                        dict(na=na, nb=nb), validate=3))
    return out
