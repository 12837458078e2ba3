"""Periodic two-electron integrals."""
import itertools

import numpy as np

from ..ctx import given
from ..runner import Case
from .. import eri
from ..ccsys import raw
from .c24 import call as call_

FUNCTIONS = ['integrals.' + f for f in (
    'get_chem_sol', 'get_phys_sol', 'get_chem_solk', 'get_phys_solk',
    'get_solk_integrals', 'get_chemu_sol', 'get_chem_antiu_sol',
    'get_phys_antiu_sol', 'get_chemu_all_sol', 'get_physu_all_sol',
    'get_physu_all_gen', 'get_phys_antiu_all_gen', 'get_phys_gen')]
BOUNDS = {'quick': '2 atomic orbitals, 1..3 orbitals per slot, real and '
          'complex; momentum grids of 1, 2, 3 and 2x2 points, every '
          'quadruple of momenta; coefficients and integrals symbolic',
          'thorough': 'also larger slots, grids of 4 points',
          'outside': 'more orbitals or momenta'}
ASSUMPTIONS = [
    'density-fitting object stands for conj(C) C conj(C) C contractions of '
    'integrals at the momenta it is given, with (pq|rs) = (rs|pq) at '
    'exchanged momenta',
    'momentum conservation tables of cubic grids, k1 - k2 + k3 - k4 = 0; '
    'replays use the tables of the real library',
    'exact arithmetic']


def call(ctx, label, f, args, ref, watch):
    call_(ctx, label, f, args, ref, watch, 'c')


def sol_mf(ctx, nao, kind):
    E = ctx.pairex('E', nao, kind)
    mf = eri.MF()
    mf.kpt = [0.1, 0.2, 0.3]
    mf.with_df = eri.DF(ctx, {(0,)*4: E}, [mf.kpt])
    return mf, E


def kcoeffs(ctx, name, nao, ns, kind):
    return [ctx.tensor('%s%d' % (name, k), (nao, n), kind)
            for k, n in enumerate(ns)]


def slots(ctx, nao, ns, kind, share=None):
    m = ctx.mod('integrals')
    mf, E = sol_mf(ctx, nao, kind)
    o = kcoeffs(ctx, 'o', nao, ns, kind)
    if share:
        o = [o[k] for k in share]
    for anti in (False, True):
        t = ' antisymmetrized' if anti else ''
        for phys in (False, True):
            nm = 'get_phys_sol' if phys else 'get_chem_sol'
            r = eri.plain(ctx, E, o, anti, phys, True)
            call(ctx, nm + t,
                 lambda *a: given(getattr(m, nm), *a, anti=anti),
                 [mf] + o, r, o)
            if not anti:
                call(ctx, nm, getattr(m, nm), [mf] + o, r, o)
        call(ctx, 'from a mean field' + t,
             lambda *a: given(m.get_phys_gen, mf, *a, anti=anti), o,
             eri.plain(ctx, E, o, anti, True, True), o)


def spin_slots(ctx, nao, na, nb, kind):
    m = ctx.mod('integrals')
    mf, E = sol_mf(ctx, nao, kind)
    o, p = kcoeffs(ctx, 'o', nao, na, kind), kcoeffs(ctx, 'p', nao, nb, kind)
    R = lambda anti, phys: eri.spinorb(ctx, E, o, p, anti, phys, True)
    w = o + p
    call(ctx, 'chemists', m.get_chemu_sol, [mf] + w, R(False, False), w)
    call(ctx, 'chemists antisymmetrized', m.get_chem_antiu_sol, [mf] + w,
         R(True, False), w)
    call(ctx, 'chemists antisymmetrized',
         lambda *a: given(m.get_chemu_sol, *a, anti=True), [mf] + w,
         R(True, False), w)
    call(ctx, 'physicists antisymmetrized', m.get_phys_antiu_sol, [mf] + w,
         R(True, True), w)


def everything(ctx, nao, na, nb, kind):
    m = ctx.mod('integrals')
    mf, E = sol_mf(ctx, nao, kind)
    oa = ctx.tensor('oa', (nao, na), kind)
    ob = ctx.tensor('ob', (nao, nb), kind)
    w = [oa, ob]
    for anti in (False, True):
        t = ' antisymmetrized' if anti else ''
        for phys in (False, True):
            nm = 'get_physu_all_sol' if phys else 'get_chemu_all_sol'
            r = eri.spinorb(ctx, E, [oa]*4, [ob]*4, anti, phys, True)
            call(ctx, nm + t,
                 lambda *a: given(getattr(m, nm), *a, anti=anti),
                 [mf, oa, ob], r, w)
            if not anti:
                call(ctx, nm, getattr(m, nm), [mf, oa, ob], r, w)


def general(ctx, nao, nmo, unrestricted, kind):
    m = ctx.mod('integrals')
    mf, E = sol_mf(ctx, nao, kind)
    if unrestricted:
        mf.mo_coeff = ctx.tensor('C', (2, nao, nmo), kind)
        mf.mo_occ = ctx.array([[0]*nmo]*2)
        oa, ob = mf.mo_coeff[0], mf.mo_coeff[1]
    else:
        mf.mo_coeff = ctx.tensor('C', (nao, nmo), kind)
        mf.mo_occ = ctx.array([0]*nmo)
        oa = ob = mf.mo_coeff
    R = lambda anti: eri.spinorb(ctx, E, [oa]*4, [ob]*4, anti, True, True)
    w = [mf.mo_coeff]
    call(ctx, 'mean field', lambda: m.get_physu_all_gen(mf), [], R(False), w)
    call(ctx, 'mean field antisymmetrized',
         lambda: given(m.get_physu_all_gen, mf, anti=True), [], R(True), w)
    call(ctx, 'mean field antisymmetrized',
         lambda: m.get_phys_antiu_all_gen(mf), [], R(True), w)


def crystal(ctx, grid, nao, cls=None):
    """mean field on a momentum grid; (object, integrals by momenta,
    conservation)"""
    pts = list(itertools.product(*[range(g) for g in grid]))
    idx = {p: k for k, p in enumerate(pts)}
    n = len(pts)
    cons = {}
    for a, b, c in itertools.product(range(n), repeat=3):
        cons[a, b, c] = idx[tuple((x - y + z) % g for x, y, z, g in zip(
            pts[a], pts[b], pts[c], grid))]
    if cls is None:
        mf = eri.MF()
    else:
        mf = cls.__new__(cls)
    if ctx.mode == 'real':
        from pyscf.pbc import gto
        cell = gto.Cell()
        cell.a = np.eye(3)*4.0
        cell.atom = 'He 0 0 0'
        cell.basis = 'sto-3g'
        cell.verbose = 0
        cell.build()
        mf.cell = cell
        mf.kpts = cell.make_kpts(list(grid))
    else:
        class Cell(object):
            pass
        mf.cell = Cell()
        t = np.zeros((n, n, n), dtype=int)
        for k, v in cons.items():
            t[k] = v
        mf.cell.vf_kconserv = t
        mf.kpts = np.array([[2*np.pi*x/g/4.0 for x, g in zip(p, grid)]
                            for p in pts])
    table = {}
    for a, b, c in itertools.product(range(n), repeat=3):
        d = cons[a, b, c]
        nm = 'E%d%d%d' % (a, b, c)
        if (c, d, a) < (a, b, c):
            T = table[c, d, a, b]
            table[a, b, c, d] = T.transpose(2, 3, 0, 1)
        elif (c, d, a) == (a, b, c):
            table[a, b, c, d] = ctx.pairex(nm, nao, 'c')
        else:
            table[a, b, c, d] = ctx.tensor(nm, (nao,)*4, 'c')
    mf.with_df = eri.DF(ctx, table, mf.kpts)
    return mf, table, cons, n


def momenta(ctx, grid, nao, ns, anti):
    m = ctx.mod('integrals')
    mf, table, cons, n = crystal(ctx, grid, nao)
    o = kcoeffs(ctx, 'o', nao, ns, 'c')
    a = ' antisymmetrized' if anti else ''
    for ks in itertools.product(range(n), repeat=4):
        k1, k2, k3, k4 = ks
        for phys in (False, True):
            f = m.get_phys_solk if phys else m.get_chem_solk
            got = given(f, mf, ks, *o, anti=anti) if anti else f(mf, ks, *o)
            # chemists' order of momenta and orbitals
            q = (k1, k3, k2, k4) if phys else ks
            C = (o[0], o[2], o[1], o[3]) if phys else o
            if cons[q[:3]] == q[3]:
                r = eri.chem(ctx, table[q], C, True)
                if anti:
                    x = eri.chem(ctx, table[q[0], q[3], q[2], q[1]],
                                 (C[0], C[3], C[2], C[1]), True)
                    r = r - x.transpose(0, 3, 2, 1)
                lab = 'conserved momenta' + a
            else:
                r = np.empty([x.shape[1] for x in C], dtype=object)
                r[...] = ctx.zero
                lab = 'momentum not conserved gives zero'
            if phys:
                r = r.transpose(0, 2, 1, 3)
            ctx.require(('physicists, ' if phys else 'chemists, ') + lab,
                        got, ctx.array(r, 'c'), zero_ok=True)


def table(ctx, grid, nao, nmo, order):
    m = ctx.mod('integrals')
    import importlib
    hf = importlib.import_module('pyscf.scf.hf')
    mf, tab, cons, n = crystal(ctx, grid, nao, hf.RHF)
    h = [ctx.tensor('h%d' % k, (nao, nao), 'c') for k in range(n)]
    mf.get_hcore = lambda *a, **k: h
    mf.mo_coeff = [ctx.tensor('C%d' % k, (nao, nmo), 'c') for k in range(n)]
    mf.mo_occ = [ctx.array([0]*nmo) for k in range(n)]
    h1, h2 = given(m.get_solk_integrals, mf,
                   **({'eriorder': order} if order else {}))
    phys = order is not None and order[0].lower() == 'p'
    C = mf.mo_coeff
    ctx.require_true('one entry per momentum', h1.shape[0] == n)
    for k in range(n):
        ck, cc, hk = raw(C[k]), raw(ctx.conj(C[k])), raw(h[k])
        r = np.empty((nmo, nmo), dtype=object)
        for p, q in np.ndindex(nmo, nmo):
            t = ctx.zero
            for x, y in np.ndindex(nao, nao):
                t = t + cc[x, p]*hk[x, y]*ck[y, q]
            r[p, q] = t
        ctx.require('one-electron part', h1[k], ctx.array(r, 'c'))
    for k in itertools.product(range(n), repeat=3):
        # (pq|rs) at kp, kq, kr; physicists' <pq|rs> = (pr|qs)
        q = (k[0], k[2], k[1]) if phys else k
        s = cons[q]
        r = eri.chem(ctx, tab[q + (s,)], (C[q[0]], C[q[1]], C[q[2]], C[s]),
                     True)
        if phys:
            r = r.transpose(0, 2, 1, 3)
        ctx.require('two-electron part', h2[k], ctx.array(r, 'c'))


def refused(ctx):
    """only closed-shell mean fields are supported"""
    m = ctx.mod('integrals')
    mf, tab, cons, n = crystal(ctx, (1, 1, 1), 1)
    mf.get_hcore = lambda: [ctx.tensor('h', (1, 1))]
    mf.mo_coeff = [ctx.tensor('C', (1, 1))]
    mf.mo_occ = [ctx.array([0])]
    ctx.expect_raises('other mean fields are refused',
                      lambda: m.get_solk_integrals(mf))


def cases(tier):
    th = tier == 'thorough'
    out = []
    ss = [(1, 1, 1, 1), (1, 2, 3, 1), (2, 1, 1, 3), (3, 1, 2, 1),
          (1, 3, 1, 2)]
    for k in 'fc':
        for ns in ss:
            out.append(Case('slots-%d%d%d%d-%s' % (ns + (k,)), slots,
                            dict(nao=2, ns=ns, kind=k)))
        for sh in ((0, 0, 2, 3), (0, 1, 0, 1), (0, 1, 1, 0), (0, 0, 0, 0)):
            out.append(Case('shared-%d%d%d%d-%s' % (sh + (k,)), slots, dict(
                nao=2, ns=(2, 2, 2, 2), kind=k, share=sh)))
        sp = [((1, 1, 1, 1), (1, 1, 1, 1)), ((2, 1, 1, 2), (1, 2, 2, 1)),
              ((1, 2, 1, 1), (2, 1, 1, 2)), ((1, 1, 2, 1), (1, 1, 1, 2))]
        if th:
            sp += [((2, 2, 1, 1), (1, 1, 2, 2)),
                   ((2, 2, 2, 2), (2, 2, 2, 2))]
        for a, b in sp:
            out.append(Case('spin-%s-%s-%s' % (
                ''.join(map(str, a)), ''.join(map(str, b)), k), spin_slots,
                dict(nao=2, na=a, nb=b, kind=k)))
        for a, b in [(1, 1), (1, 2), (2, 1)] + ([(2, 2)] if th else []):
            out.append(Case('all-%d-%d-%s' % (a, b, k), everything,
                            dict(nao=2, na=a, nb=b, kind=k)))
        for u in (False, True):
            out.append(Case('mf-%s-%s' % ('u' if u else 'r', k), general,
                            dict(nao=2, nmo=2, unrestricted=u, kind=k)))
    gr = [((1, 1, 1), 2, (1, 2, 1, 2)), ((2, 1, 1), 1, (1, 2, 1, 2)),
          ((2, 1, 1), 2, (1, 1, 1, 1)), ((1, 3, 1), 1, (2, 1, 1, 2)),
          ((2, 1, 2), 1, (1, 1, 1, 2))]
    if th:
        gr += [((4, 1, 1), 1, (1, 2, 1, 1)), ((1, 3, 1), 2, (1, 1, 2, 1))]
    for g, nao, ns in gr:
        for anti in (False, True):
            out.append(Case('momenta-%s-%d-%s%s' % (
                ''.join(map(str, g)), nao, ''.join(map(str, ns)),
                '-anti' if anti else ''), momenta,
                dict(grid=g, nao=nao, ns=ns, anti=anti)))
    for g in [(1, 1, 1), (2, 1, 1), (1, 1, 3)] + ([(2, 2, 1)] if th else []):
        for o in (None, 'chem', 'phys', 'Phys', 'p', 'C'):
            out.append(Case('table-%s-%s' % (''.join(map(str, g)), o), table,
                            dict(grid=g, nao=1 if max(g) > 1 else 2, nmo=1
                                 if max(g) > 2 else 2, order=o)))
    out.append(Case('refused', refused, {}))
    return out
