"""Correlation energies against <0|e^-T H e^T|0>."""
from ..runner import Case
from .. import ccsys

FUNCTIONS = ['cc_energy.' + f for f in (
    'cc_energy', 'cc_energy_d', 'cc_energy_s1', 'cc_energy_s2',
    'cc_energy_s2_a', 'mp2_energy', 'ucc_energy', 'ump2_energy',
    'rcc_energy')]
BOUNDS = {'quick': 'spin orbitals up to 4x4, 8x1, 6x2 and transposed; unrestricted '
          'with unequal alpha/beta sizes up to 2x3/2x2; restricted up to '
          '3x3; all entries symbolic reals, 2x2 symbolic complex',
          'thorough': 'additionally 5x5 and larger unrestricted sizes',
          'outside': 'larger orbital spaces; floating-point rounding'}
ASSUMPTIONS = [
    'exact real/complex arithmetic (rounding is outside the claim)',
    'pyscf.lib.einsum computes the Einstein summation of its arguments',
    'same-spin integrals and amplitudes antisymmetric; restricted integrals '
    'and amplitudes symmetric under exchange of both electrons',
]


def general(ctx, no, nv, kind='f'):
    s = ccsys.GSys(ctx, no, nv, kind)
    m = ctx.mod('cc_energy')
    o = s.cc(ctx)
    E = m.cc_energy(s.T1, s.T2, s.F.ov, s.I.oovv)
    ctx.require('coupled-cluster energy', E, o.energy())
    o2 = s.cc(ctx).linear()
    ctx.require('second-order energy', m.mp2_energy(s.T1, s.T2, s.F.ov,
                                                    s.I.oovv), o2.energy())
    o3 = s.cc(ctx, t1=False).linear()
    ctx.require('doubles part', m.cc_energy_d(s.T2, s.I.oovv), o3.energy(),
                zero_ok=min(no, nv) < 2)
    ctx.require('singles part', m.cc_energy_s1(s.T1, s.F.ov),
                o2.energy() - o3.energy())
    ctx.require('squared singles part', m.cc_energy_s2(s.T1, s.I.oovv)*0.5,
                o.energy() - o2.energy(), zero_ok=min(no, nv) < 2)


def bilinear(ctx, noa, nva, nob, nvb, kind='f'):
    ta = ctx.tensor('ta', (nva, noa), kind)
    tb = ctx.tensor('tb', (nvb, nob), kind)
    I = ctx.tensor('I', (noa, nob, nva, nvb), kind)
    E = ctx.mod('cc_energy').cc_energy_s2_a(ta, tb, I)
    x = ctx.zero
    A, B, J = ccsys.raw(ta), ccsys.raw(tb), ccsys.raw(I)
    for a in range(nva):
        for i in range(noa):
            for b in range(nvb):
                for j in range(nob):
                    x = x + A[a, i]*B[b, j]*J[i, j, a, b]
    ctx.require('product of two singles', E, x)


def unrestricted(ctx, noa, nva, nob, nvb, kind='f'):
    s = ccsys.USys(ctx, noa, nva, nob, nvb, kind)
    m = ctx.mod('cc_energy')
    args = (s.t1, s.t2, s.Fab.ov, s.Fbb.ov, s.Iaa_b.oovv, s.Ibb_b.oovv,
            s.Iab_b.oovv)
    ctx.require('unrestricted energy', m.ucc_energy(*args),
                s.cc(ctx).energy())
    ctx.require('unrestricted second-order energy', m.ump2_energy(*args),
                s.cc(ctx).linear().energy())


def restricted(ctx, no, nv, kind='f'):
    s = ccsys.RSys(ctx, no, nv, kind)
    m = ctx.mod('cc_energy')
    ctx.require('restricted energy',
                m.rcc_energy(s.T1, s.T2, s.F_b.ov, s.I_b.oovv),
                s.cc(ctx).energy())


def cases(tier):
    out = []
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4),
             (4, 2), (4, 4), (1, 8), (8, 1), (2, 6), (6, 2)]
    us = [(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 2), (2, 2, 1, 1),
          (1, 1, 2, 2), (2, 2, 2, 2), (1, 3, 2, 2)]
    rs = [(1, 1), (1, 2), (2, 1), (2, 2)]
    if tier == 'thorough':
        sizes += [(5, 5)]
        us += [(2, 3, 2, 2), (2, 2, 3, 1), (2, 3, 1, 2)]
        rs += [(1, 3), (3, 1), (2, 3)]
    for no, nv in sizes:
        out.append(Case('spin-orbital-%d-%d' % (no, nv), general,
                        dict(no=no, nv=nv)))
    out.append(Case('spin-orbital-2-2-complex', general,
                    dict(no=2, nv=2, kind='c')))
    for d in us:
        k = dict(zip(('noa', 'nva', 'nob', 'nvb'), d))
        nm = '-'.join(map(str, d))
        out.append(Case('unrestricted-' + nm, unrestricted, k))
        out.append(Case('product-' + nm, bilinear, k))
    k = dict(noa=1, nva=2, nob=2, nvb=1, kind='c')
    out.append(Case('unrestricted-complex', unrestricted, k))
    out.append(Case('product-complex', bilinear, k))
    for no, nv in rs:
        out.append(Case('restricted-%d-%d' % (no, nv), restricted,
                        dict(no=no, nv=nv)))
    out.append(Case('restricted-complex', restricted,
                    dict(no=2, nv=1, kind='c')))
    return out
