"""Operators acting on CI vectors in a determinant basis."""
import numpy as np

from ..runner import Case
from .. import ci
from ..ccsys import raw
from .c17 import spin_blocks

FUNCTIONS = ['ci_utils.' + f for f in (
    'H_on_vec', 'gH_on_vec', 's_on_vec', 'sa_on_vec', 'sb_on_vec',
    'd_on_vec', 'da_on_vec', 'db_on_vec', 'sasb_on_vec', 'ci_matrixel',
    'gci_matrixel', 'Dstring.excite', 'ucis_basis', 'ucisd_basis',
    'gcis_basis', 'gcisd_basis')]
BOUNDS = {'quick': 'spin-orbital bases with 4 and 6 spin orbitals, '
          'alpha/beta bases with 2 and 3 orbitals per spin; vector, '
          'integrals symbolic; all orbital pairs / quadruples of the '
          'excitation operators',
          'thorough': 'also 4 orbitals per spin and bases through triple '
          'excitations',
          'outside': 'larger bases; complex CI vectors'}
ASSUMPTIONS = ['exact real arithmetic; real CI vectors and integrals',
               '<pq|rs> = <qp|sr> for identical particles']


def gbasis(m, kind, nmo, n):
    if kind == 'shuffled':
        b = m.gcisd_basis(nmo, n)
        return b[1::2] + b[0::2]
    return getattr(m, kind)(nmo, n)


def ubasis(m, kind, n, na, nb):
    if kind == 'shuffled':
        b = m.ucisd_basis(n, na, nb)
        return b[1::2] + b[0::2]
    return getattr(m, kind)(n, na, nb)


def occ_g(d):
    return [int(x) for x in d.occ]


def occ_u(d):
    return occ_g(d[0]) + occ_g(d[1])


def project(ctx, occs, v, ops):
    """components of ops|v> on the basis"""
    pos = {tuple(o): k for k, o in enumerate(occs)}
    out = [ctx.zero]*len(occs)
    for k, o in enumerate(occs):
        r = ci.apply(ops, o, ctx.one)
        if r is None:
            continue
        amp, new = r
        j = pos.get(tuple(new))
        if j is not None:
            out[j] = out[j] + amp*v[k]
    return ctx.array(out)


def hmat(ctx, occs, v, one, two):
    out = []
    for b in occs:
        t = ctx.zero
        for k, o in enumerate(occs):
            nd = sum(x != y for x, y in zip(b, o))
            if nd <= 4:
                t = t + ci.hamiltonian(b, o, one, two, ctx)*v[k]
        out.append(t)
    return ctx.array(out)


def gH(ctx, kind, nmo, n):
    m = ctx.mod('ci_utils')
    bas = gbasis(m, kind, nmo, n)
    occs = [occ_g(d) for d in bas]
    v = ctx.tensor('v', (len(bas),))
    h, I = ctx.tensor('h', (nmo, nmo)), ctx.pairsym('I', nmo)
    hr, Ir = raw(h), raw(I)
    snap = ctx.snapshot(v)
    got = m.gH_on_vec(bas, v, h, I)
    ctx.require('H|v> in the basis', got,
                hmat(ctx, occs, snap, lambda p, q: hr[p, q],
                     lambda p, q, r, s: Ir[p, q, r, s]))
    ctx.require('vector unchanged', v, snap)


def uH(ctx, kind, n, na, nb):
    m = ctx.mod('ci_utils')
    bas = ubasis(m, kind, n, na, nb)
    occs = [occ_u(d) for d in bas]
    v = ctx.tensor('v', (len(bas),))
    ha, hb = ctx.tensor('ha', (n, n)), ctx.tensor('hb', (n, n))
    Ia, Ib = ctx.pairsym('Ia', n), ctx.pairsym('Ib', n)
    Iab = ctx.tensor('Iab', (n,)*4)
    snap = ctx.snapshot(v)
    got = m.H_on_vec(bas, v, ha, hb, Ia, Ib, Iab)
    one, two = spin_blocks((ha, hb), (Ia, Ib, Iab), n)
    ctx.require('H|v> in the basis', got, hmat(ctx, occs, snap, one, two))
    ctx.require('vector unchanged', v, snap)


def gops(ctx, kind, nmo, n, doubles):
    m = ctx.mod('ci_utils')
    bas = gbasis(m, kind, nmo, n)
    occs = [occ_g(d) for d in bas]
    v = ctx.tensor('v', (len(bas),))
    snap = ctx.snapshot(v)
    for i in range(nmo):
        for a in range(nmo):
            if not doubles:
                ctx.require('one excitation', m.s_on_vec(bas, v, i, a),
                            project(ctx, occs, snap, [('+', a), ('-', i)]))
                continue
            for j in range(nmo):
                for b in range(nmo):
                    ctx.require('two excitations',
                                m.d_on_vec(bas, v, i, j, a, b),
                                project(ctx, occs, snap, [
                                    ('+', b), ('-', j),
                                    ('+', a), ('-', i)]))
    ctx.require('vector unchanged', v, snap)


def uops(ctx, kind, n, na, nb, which):
    m = ctx.mod('ci_utils')
    bas = ubasis(m, kind, n, na, nb)
    occs = [occ_u(d) for d in bas]
    v = ctx.tensor('v', (len(bas),))
    snap = ctx.snapshot(v)
    off1 = n if which in ('sb_on_vec', 'db_on_vec') else 0
    off2 = n if which in ('db_on_vec', 'sasb_on_vec') else 0
    f = getattr(m, which)
    for i in range(n):
        for a in range(n):
            e1 = [('+', a + off1), ('-', i + off1)]
            if which in ('sa_on_vec', 'sb_on_vec'):
                ctx.require('one excitation', f(bas, v, i, a),
                            project(ctx, occs, snap, e1))
                continue
            for j in range(n):
                for b in range(n):
                    e2 = [('+', b + off2), ('-', j + off2)]
                    ctx.require('two excitations', f(bas, v, i, j, a, b),
                                project(ctx, occs, snap, e2 + e1))
    ctx.require('vector unchanged', v, snap)


def cases(tier):
    th = tier == 'thorough'
    out = []
    gk = ['gcis_basis', 'gcisd_basis', 'shuffled'] + \
        (['gcisdt_basis'] if th else [])
    for nmo, n in [(4, 2), (4, 3), (6, 3)] + ([(6, 2), (6, 4)] if th else []):
        for k in gk:
            out.append(Case('H-%s-%d-%d' % (k, nmo, n), gH,
                            dict(kind=k, nmo=nmo, n=n)))
            out.append(Case('single-%s-%d-%d' % (k, nmo, n), gops,
                            dict(kind=k, nmo=nmo, n=n, doubles=False)))
            if nmo == 4 or th:
                out.append(Case('double-%s-%d-%d' % (k, nmo, n), gops,
                                dict(kind=k, nmo=nmo, n=n, doubles=True)))
    uk = ['ucis_basis', 'ucisd_basis', 'shuffled'] + \
        (['ucisdt_basis'] if th else [])
    us = [(2, 1, 1), (3, 1, 2), (3, 2, 1)] + \
        ([(4, 2, 2), (4, 1, 3)] if th else [])
    for n, na, nb in us:
        for k in uk:
            nm = '%s-%d-%d-%d' % (k, n, na, nb)
            out.append(Case('H-' + nm, uH, dict(kind=k, n=n, na=na, nb=nb)))
            for w in ('sa_on_vec', 'sb_on_vec', 'da_on_vec', 'db_on_vec',
                      'sasb_on_vec'):
                if n == 4 and w[0] == 'd' and k != 'ucisd_basis':
                    continue
                out.append(Case('%s-%s' % (w, nm), uops,
                                dict(kind=k, n=n, na=na, nb=nb, which=w)))
    return out
