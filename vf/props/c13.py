"""Conversions between alpha/beta blocks and spin-orbital arrays."""
import numpy as np

from ..runner import Case
from .. import ccsys
from ..ccsys import raw, fill1, fill4

FUNCTIONS = ['spin_utils.' + f for f in (
    'F_to_spin', 'F_to_spatial', 'T1_to_spin', 'T1_to_spatial',
    'T2_to_spin', 'T2_to_spatial', 'D2_to_spin')]
BOUNDS = {'quick': 'alpha/beta occupied and virtual counts 0..3 in 12 '
          'combinations (unequal and empty spaces included), all entries '
          'symbolic real or complex, three combinations also with '
          'integer entries and with different types in the aa, ab and bb '
          'parts',
          'thorough': 'all 81 combinations of counts 0..2 plus larger ones',
          'outside': 'larger spaces'}
ASSUMPTIONS = ['exact arithmetic (these functions only move and negate '
               'entries)',
               'mixed-spin blocks of the spin-orbital doubles handed to the '
               'inverse conversion are antisymmetric']


def lab(noa, nva, nob, nvb):
    """(spin, index) labels of the occupied / virtual spin orbitals"""
    oc = [('a', i) for i in range(noa)] + [('b', i) for i in range(nob)]
    vi = [('a', i) for i in range(nva)] + [('b', i) for i in range(nvb)]
    return oc, vi


def one(a, b, L, R, z):
    d = {'a': raw(a), 'b': raw(b)}

    def el(i, j):
        (s, p), (t, q) = L[i], R[j]
        return d[s][p, q] if s == t else z
    return fill1(el, len(L), len(R))


def two(aa, ab, bb, L, R, z, sign):
    """sign=-1: antisymmetric amplitudes; +1: symmetric (denominators)"""
    d = {'a': raw(aa), 'b': raw(bb)}
    m = raw(ab)

    def el(i, j, k, l):
        (s1, p), (s2, q), (s3, r), (s4, t) = L[i], L[j], R[k], R[l]
        if s1 == s2 == s3 == s4:
            return d[s1][p, q, r, t]
        if s1 == s2 or s3 == s4:
            return z
        sg = 1
        if s1 == 'b':
            p, q, sg = q, p, sg*sign
        if s3 == 'b':
            r, t, sg = t, r, sg*sign
        x = m[p, q, r, t]
        return x if sg > 0 else -x
    return fill4(el, len(L), len(L), len(R), len(R))


def fock_blocks(ctx, noa, nva, nob, nvb, kind):
    m = ctx.mod('spin_utils')
    na, nb = noa + nva, nob + nvb
    Fa = ctx.tensor('Fa', (na, na), kind[0])
    Fb = ctx.tensor('Fb', (nb, nb), kind[-1])
    A, B = ccsys.one_blocks(ctx, Fa, noa), ccsys.one_blocks(ctx, Fb, nob)
    S = m.F_to_spin(A, B, noa, nva, nob, nvb)
    oc, vi = lab(noa, nva, nob, nvb)
    sp = {'o': oc, 'v': vi}
    for b in ('oo', 'ov', 'vo', 'vv'):
        ctx.require('spin-orbital Fock block ' + b, getattr(S, b),
                    one(getattr(A, b), getattr(B, b), sp[b[0]], sp[b[1]],
                        ctx.zero))
    A2, B2 = m.F_to_spatial(S, noa, nva, nob, nvb)
    for b in ('oo', 'ov', 'vo', 'vv'):
        ctx.require('Fock round trip ' + b, getattr(A2, b), getattr(A, b))
        ctx.require('Fock round trip ' + b, getattr(B2, b), getattr(B, b))


def amplitudes(ctx, noa, nva, nob, nvb, kind):
    m = ctx.mod('spin_utils')
    d = (noa, nva, nob, nvb)
    oc, vi = lab(*d)
    T1a = ctx.tensor('T1a', (nva, noa), kind[0])
    T1b = ctx.tensor('T1b', (nvb, nob), kind[2])
    T2aa = ctx.antisym('T2aa', nva, noa, kind[0])
    T2bb = ctx.antisym('T2bb', nvb, nob, kind[2])
    T2ab = ctx.tensor('T2ab', (nva, nvb, noa, nob), kind[1])
    T1 = m.T1_to_spin(T1a, T1b, *d)
    ctx.require('spin-orbital singles', T1, one(T1a, T1b, vi, oc, ctx.zero))
    T2 = m.T2_to_spin(T2aa, T2ab, T2bb, *d)
    ctx.require('spin-orbital doubles', T2,
                two(T2aa, T2ab, T2bb, vi, oc, ctx.zero, -1))
    ctx.require('antisymmetry', T2, -T2.transpose((1, 0, 2, 3)))
    ctx.require('antisymmetry', T2, -T2.transpose((0, 1, 3, 2)))
    for label, x, ys in (('singles', m.T1_to_spatial(T1, *d), (T1a, T1b)),
                         ('doubles', m.T2_to_spatial(T2, *d),
                          (T2aa, T2ab, T2bb))):
        ctx.require_true(label + ': number of blocks', len(x) == len(ys))
        for u, v in zip(x, ys):
            ctx.require('round trip of ' + label, u, v)


def denominators(ctx, noa, nva, nob, nvb, kind):
    m = ctx.mod('spin_utils')
    d = (noa, nva, nob, nvb)
    oc, vi = lab(*d)
    Daa = ctx.tensor('Daa', (nva, nva, noa, noa), kind[0])
    Dbb = ctx.tensor('Dbb', (nvb, nvb, nob, nob), kind[2])
    Dab = ctx.tensor('Dab', (nva, nvb, noa, nob), kind[1])
    D = m.D2_to_spin(Daa, Dab, Dbb, *d)
    ctx.require('spin-orbital denominators', D,
                two(Daa, Dab, Dbb, vi, oc, ctx.zero, 1))


DIMS = [(1, 1, 1, 1), (2, 2, 2, 2), (1, 2, 2, 1), (2, 1, 1, 2),
        (3, 1, 1, 2), (1, 3, 2, 1), (1, 2, 0, 2), (0, 2, 1, 2),
        (2, 0, 1, 1), (2, 1, 1, 0), (2, 3, 1, 2), (1, 2, 2, 3)]

MIXED = [(1, 1, 1, 1), (1, 2, 2, 1), (2, 1, 1, 2)]


def cases(tier):
    dims = DIMS + [(3, 3, 2, 2), (2, 3, 4, 2), (4, 2, 2, 4), (1, 6, 3, 1),
                   (6, 1, 1, 3)]
    if tier == 'thorough':
        import itertools
        for d in itertools.product(range(3), repeat=4):
            if d not in dims and (d[0] + d[2]) and (d[1] + d[3]):
                dims.append(d)
        dims += [(2, 2, 3, 3), (3, 2, 2, 3), (5, 3, 4, 4)]
    out = []
    for d in dims:
        k = dict(zip(('noa', 'nva', 'nob', 'nvb'), d))
        nm = '-'.join(map(str, d))
        # types of the aa, ab and bb parts
        kinds = ['fff', 'ccc']
        if d in MIXED:
            kinds += ['cff', 'ffc', 'fcf', 'iii', 'icf', 'fci']
        for kind in kinds:
            nk = nm + '-' + (kind[0] if len(set(kind)) == 1 else kind)
            for what, f in (('fock', fock_blocks), ('amplitudes', amplitudes),
                            ('denominators', denominators)):
                out.append(Case(what + '-' + nk, f, dict(k, kind=kind)))
    return out
