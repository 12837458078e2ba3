"""CI coefficients of a coupled-cluster wavefunction."""
from fractions import Fraction

from ..ctx import given
from ..runner import Case
from ..ccsys import raw
from ..fock import exp_apply, t_ops
from .c13 import lab, one, two

FUNCTIONS = ['ci_utils.makeCfromT', 'ci_utils.gmakeCfromT'] + \
    ['ci_utils.' + k + b + '_basis' for k in 'ug'
     for b in ('cis', 'cisd', 'cisdt', 'cisdtq')]
BOUNDS = {'quick': 'alpha/beta spaces (1,2,2,1), (2,2,2,2), (3,1,1,3), '
          '(2,2,1,3), (1,3,2,2), (3,3,1,5), (1,5,3,3), (4,4,0,8), (0,8,4,4) '
          'and spin-orbital spaces of 4, 6 and 8 spin orbitals, expansion '
          'orders 1..4; all amplitudes symbolic',
          'thorough': 'also (3,3,2,4), (2,4,3,3), (3,3,3,3), (4,4,1,7) and '
          'spin-orbital spaces with uneven filling',
          'outside': 'larger spaces; orders above 4 (refused by the code)'}
ASSUMPTIONS = ['exact real arithmetic; real amplitudes',
               'same-spin doubles amplitudes are antisymmetric',
               'alpha and beta have the same number of orbitals']


def mask(occ):
    return sum(1 << k for k, x in enumerate(occ) if int(x) == 1)


def coefficients(ctx, basis, T1, T2, occ, vir):
    ref = sum(1 << p for p in occ)
    psi = exp_apply(t_ops(T1, T2, occ, vir), {ref: Fraction(1)})
    return [psi.get(m, ctx.zero) for m in basis]


def unrestricted(ctx, dims, order):
    m = ctx.mod('ci_utils')
    noa, nva, nob, nvb = dims
    n = noa + nva
    t1a, t1b = ctx.tensor('t1a', (nva, noa)), ctx.tensor('t1b', (nvb, nob))
    t2aa = ctx.antisym('t2aa', nva, noa)
    t2bb = ctx.antisym('t2bb', nvb, nob)
    t2ab = ctx.tensor('t2ab', (nva, nvb, noa, nob))
    args = [t1a, t1b, t2aa, t2ab, t2bb]
    snap = [ctx.snapshot(x) for x in args]
    C = given(m.makeCfromT, noa, nva, nob, nvb, *args, order=order)
    basis = getattr(m, ('ucis_basis', 'ucisd_basis', 'ucisdt_basis',
                        'ucisdtq_basis')[order - 1])(n, noa, nob)
    ms = [mask(list(a.occ) + list(b.occ)) for a, b in basis]
    oc, vi = lab(*dims)
    occ = [i + (n if s == 'b' else 0) for s, i in oc]
    vir = [i + (n + nob if s == 'b' else noa) for s, i in vi]
    T1 = one(t1a, t1b, vi, oc, ctx.zero)
    T2 = two(t2aa, t2ab, t2bb, vi, oc, ctx.zero, -1)
    ctx.require('coefficients', C,
                ctx.array(coefficients(ctx, ms, T1, T2, occ, vir)))
    for x, s in zip(args, snap):
        ctx.require('amplitudes unchanged', x, s, zero_ok=True)


def spinorb(ctx, no, nv, order, explicit):
    m = ctx.mod('ci_utils')
    T1 = ctx.tensor('t1', (nv, no))
    T2 = ctx.antisym('t2', nv, no)
    s1, s2 = ctx.snapshot(T1), ctx.snapshot(T2)
    basis = getattr(m, ('gcis_basis', 'gcisd_basis', 'gcisdt_basis',
                        'gcisdtq_basis')[order - 1])(no + nv, no)
    ref = [int(x) for x in basis[0].occ]
    kw = dict(occ=list(ref)) if explicit else {}
    C = given(m.gmakeCfromT, no, nv, T1, T2, order=order, **kw)
    occ = [p for p, x in enumerate(ref) if x]
    vir = [p for p, x in enumerate(ref) if not x]
    ms = [mask(b.occ) for b in basis]
    ctx.require('coefficients', C, ctx.array(
        coefficients(ctx, ms, raw(T1), raw(T2), occ, vir)))
    ctx.require('amplitudes unchanged', T1, s1)
    ctx.require('amplitudes unchanged', T2, s2, zero_ok=True)


def refused(ctx, dims, lo, hi):
    """ranks outside one to four; unequal numbers of orbitals"""
    m = ctx.mod('ci_utils')
    noa, nva, nob, nvb = dims
    order = ctx.integer('order', lo, hi)
    if noa + nva == nob + nvb:
        T = [ctx.tensor('t1', (nva, noa)), ctx.antisym('t2', nva, noa)]
        ctx.expect_raises('unknown rank is refused, spin orbitals',
                          lambda: given(m.gmakeCfromT, noa, nva, *T,
                                        order=order))
    T = [ctx.tensor('t1a', (nva, noa)), ctx.tensor('t1b', (nvb, nob)),
         ctx.antisym('t2aa', nva, noa),
         ctx.tensor('t2ab', (nva, nvb, noa, nob)),
         ctx.antisym('t2bb', nvb, nob)]
    ctx.expect_raises('refused',
                      lambda: given(m.makeCfromT, noa, nva, nob, nvb, *T,
                                    order=order))


def cases(tier):
    th = tier == 'thorough'
    us = [(1, 2, 2, 1), (2, 2, 2, 2), (3, 1, 1, 3), (2, 2, 1, 3),
          (1, 3, 2, 2), (3, 3, 1, 5), (1, 5, 3, 3), (4, 4, 0, 8),
          (0, 8, 4, 4)]
    if th:
        us += [(3, 3, 2, 4), (2, 4, 3, 3), (3, 3, 3, 3), (4, 4, 1, 7)]
    gs = [(2, 2), (3, 1), (3, 3), (2, 4), (4, 4)]
    if th:
        gs += [(5, 3), (3, 5), (4, 6), (6, 4)]
    out = [Case('refused-%s-%d' % (''.join(map(str, d)), lo), refused,
                dict(dims=d, lo=lo, hi=hi)) for d, lo, hi in (
                    ((2, 2, 2, 2), -99, 0), ((2, 2, 2, 2), 5, 99),
                    ((2, 2, 1, 3), -99, 0), ((2, 2, 1, 3), 5, 99),
                    ((2, 2, 2, 1), 1, 4), ((1, 2, 2, 2), 1, 4))]
    for d in us:
        for o in (1, 2, 3, 4):
            out.append(Case('ab-%d-%d-%d-%d-order%d' % (d + (o,)),
                            unrestricted, dict(dims=d, order=o)))
    for no, nv in gs:
        for o in (1, 2, 3, 4):
            for e in (False, True):
                out.append(Case('so-%d-%d-order%d%s' % (
                    no, nv, o, '-occ' if e else ''), spinorb,
                    dict(no=no, nv=nv, order=o, explicit=e)))
    return out
