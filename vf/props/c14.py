"""Two-electron integrals: spin blocks <-> antisymmetrised spin orbitals."""
import numpy as np

from ..runner import Case
from .. import ccsys
from ..ccsys import raw, fill4, NINE, ALL16
from .c13 import lab

FUNCTIONS = ['spin_utils.int_to_spin', 'spin_utils.int_to_spin2',
             'spin_utils.int_to_spin_block', 'spin_utils.int_to_spatial']
BOUNDS = {'quick': 'alpha/beta occupied and virtual counts up to 2 (unequal '
          'and empty spaces included), all entries symbolic real or complex, two combinations '
          'also integer and with different types in the aa, ab and bb parts',
          'thorough': 'additionally (3,2,2,1), (1,2,3,2) and all '
          'combinations of counts 0..2',
          'outside': 'larger spaces'}
ASSUMPTIONS = ['exact arithmetic',
               'plain integrals symmetric under exchange of both electrons '
               'where antisymmetry of the first index pair is claimed']


def full(ctx, kind, d, anti):
    noa, nva, nob, nvb = d
    na, nb = noa + nva, nob + nvb
    if anti:
        Ia = ctx.antisym('Ia', na, na, kind[0])
        Ib = ctx.antisym('Ib', nb, nb, kind[2])
    else:
        Ia = ctx.pairsym('Ia', na, kind[0])
        Ib = ctx.pairsym('Ib', nb, kind[2])
    Iab = ctx.tensor('Iab', (na, nb, na, nb), kind[1])
    return Ia, Ib, Iab


def harness(ctx, noa, nva, nob, nvb, kind, anti):
    m = ctx.mod('spin_utils')
    d = (noa, nva, nob, nvb)
    Ia, Ib, Iab = full(ctx, kind, d, anti)
    A = ccsys.two_blocks(ctx, Ia, noa, full=True)
    B = ccsys.two_blocks(ctx, Ib, nob, full=True)
    AB = ccsys.two_blocks(ctx, Iab, (noa, nob, noa, nob), full=True)
    S = (m.int_to_spin2 if anti else m.int_to_spin)(A, B, AB, *d)
    oc, vi = lab(*d)
    sp = {'o': oc, 'v': vi}
    off = {('a', 'o'): 0, ('a', 'v'): noa, ('b', 'o'): 0, ('b', 'v'): nob}
    same = {'a': raw(Ia), 'b': raw(Ib)}
    ab = raw(Iab)

    def phys(l):
        """plain <pq|rs> of spin orbitals"""
        (s1, p), (s2, q), (s3, r), (s4, t) = l
        if s1 != s3 or s2 != s4:
            return None
        if s1 == s2:
            return same[s1][p, q, r, t]
        return ab[p, q, r, t] if s1 == 'a' else ab[q, p, t, r]

    def el(ls):
        if anti and len({s for s, _ in ls}) == 1:
            return same[ls[0][0]][tuple(p for _, p in ls)]
        x = phys(ls)
        y = phys([ls[0], ls[1], ls[3], ls[2]])
        r = ctx.zero
        if x is not None:
            r = r + x
        if y is not None:
            r = r - y
        return r
    for b in NINE:
        sets = [sp[c] for c in b]

        def one(i, j, k, l):
            ls = []
            for c, st, ix in zip(b, sets, (i, j, k, l)):
                s, p = st[ix]
                ls.append((s, p + off[s, c]))
            return el(ls)
        ctx.require('spin-orbital block ' + b, getattr(S, b),
                    fill4(one, *[len(x) for x in sets]))
        x = getattr(S, b)
        if b[0] == b[1]:
            ctx.require('antisymmetry of ' + b, x,
                        -x.transpose((1, 0, 2, 3)), zero_ok=True)
        if b[2] == b[3]:
            ctx.require('antisymmetry of ' + b, x,
                        -x.transpose((0, 1, 3, 2)), zero_ok=True)
    # back to alpha/beta blocks (argument order: occ a, occ b, vir a, vir b)
    A2, B2, AB2 = m.int_to_spatial(S, noa, nob, nva, nvb)
    for b in NINE:
        for X2, X, sw in ((A2, A, 'aa'), (B2, B, 'bb')):
            ref = getattr(X, b)
            if not anti:
                y = getattr(X, b[:2] + b[3] + b[2])
                ref = ref - y.transpose((0, 1, 3, 2))
            ctx.require('round trip %s block %s' % (sw, b), getattr(X2, b),
                        ref)
    for b in ALL16:
        ctx.require('round trip ab block ' + b, getattr(AB2, b),
                    getattr(AB, b))


def cases(tier):
    dims = [(1, 1, 1, 1), (2, 2, 2, 2), (1, 2, 2, 1), (2, 1, 1, 2),
            (2, 2, 1, 1), (1, 2, 0, 1), (0, 1, 1, 2), (2, 1, 1, 0),
            (1, 0, 2, 1), (3, 2, 2, 1), (1, 2, 3, 2), (4, 1, 1, 3),
            (1, 4, 3, 1)]
    if tier == 'thorough':
        import itertools
        for d in itertools.product(range(3), repeat=4):
            if d not in dims and (d[0] + d[2]) and (d[1] + d[3]):
                dims.append(d)
        dims += [(3, 3, 2, 3), (2, 3, 4, 3)]
    out = []
    for d in dims:
        k = dict(zip(('noa', 'nva', 'nob', 'nvb'), d))
        nm = '-'.join(map(str, d))
        for anti in (False, True):
            # types of the aa, ab and bb integrals
            kinds = ['fff']
            if d in dims[:4]:
                kinds += ['ccc']
            if d in (dims[0], dims[2]):
                kinds += ['cff', 'fcf', 'ffc', 'iii', 'icf']
            for kind in kinds:
                out.append(Case('%s-%s-%s' % (
                    'antisymmetric' if anti else 'plain', nm,
                    kind[0] if len(set(kind)) == 1 else kind),
                    harness, dict(k, kind=kind, anti=anti)))
    return out
