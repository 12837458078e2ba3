"""Unrestricted reduced density matrices."""
from ..ctx import given
from ..runner import Case
from .. import ccsys, fock
from ..ccsys import fill1, fill4, raw

# returned blocks in order; lower case = alpha, upper case = beta
ONE = {'ba': ('ba', 'BA'), 'ji': ('ji', 'JI'), 'ai': ('ai', 'AI')}
TWO = {
    'ciab': ('ciab', 'CIAB', 'cIaB', 'CiAb'),
    'jkai': ('jkai', 'JKAI', 'jKaI', 'JkAi'),
    'cdab': ('cdab', 'CDAB', 'cDaB'),
    'bjai': ('bjai', 'BJAI', 'bJaI', 'bJAi', 'BjaI', 'BjAi'),
    'klij': ('klij', 'KLIJ', 'kLiJ'),
    'bcai': ('bcai', 'BCAI', 'bCaI', 'BcAi'),
    'kaij': ('kaij', 'KAIJ', 'kAiJ', 'KaIj'),
    'abij': ('abij', 'ABIJ', 'aBiJ'),
}
FUNCTIONS = ['cc_equations.uccsd_1rdm_' + b for b in ONE] + \
            ['cc_equations.uccsd_2rdm_' + b for b in TWO]
BOUNDS = {'quick': '(occ a, vir a, occ b, vir b) up to (2,2,2,2), (3,2,1,2), '
          '(5,1,2,1), (1,2,1,5) and the like, including empty spaces and '
          'unequal alpha/beta sizes; all entries of T, L and the factor '
          'tfac symbolic reals, one case symbolic complex',
          'thorough': 'additionally up to (3,3,3,3)',
          'outside': 'larger orbital spaces; floating-point rounding'}
ASSUMPTIONS = [
    'exact real/complex arithmetic (rounding is outside the claim)',
    'pyscf.lib.einsum computes the Einstein summation of its arguments',
    'same-spin amplitudes antisymmetric in their index pairs; mixed-spin '
    'amplitudes arbitrary',
]


class Amps(ccsys.USys):
    def __init__(self, ctx, noa, nva, nob, nvb, kind):
        ccsys.USys.__init__(self, ctx, noa, nva, nob, nvb, kind, L=True)


def spin(c):
    return 'a' if c.islower() else 'b'


def space(c):
    return 'o' if c.lower() in 'ijkl' else 'v'


def harness(ctx, noa, nva, nob, nvb, kind='f', tfac=False):
    s = Amps(ctx, noa, nva, nob, nvb, kind)
    m = ctx.mod('cc_equations')
    kw = {'tfac': ctx.real('tfac')} if tfac else {}
    o = fock.CC(None, None, s.T1so, s.T2so, s.no, s.n, ctx.zero)
    o.bra(s.L1so, s.L2so, kw.get('tfac', 1))
    args = s.t1 + s.t2 + s.l1 + s.l2

    def g(c, i):
        return s.g(spin(c), space(c), i)

    def dims(b):
        return [s.dim(spin(c), space(c)) for c in b]
    for name, blocks in ONE.items():
        if tfac and name != 'ai':
            continue
        P = given(getattr(m, 'uccsd_1rdm_' + name), *args, **kw)
        ctx.require_true('1-RDM %s: number of blocks' % name,
                         len(P) == len(blocks))
        for x, b in zip(P, blocks):
            ctx.require('1-RDM %s' % b, x, fill1(
                lambda p, q: o.dF(g(b[1], q), g(b[0], p)), *dims(b)))
    for name, blocks in TWO.items():
        if tfac and name != 'abij':
            continue
        P = given(getattr(m, 'uccsd_2rdm_' + name), *args, **kw)
        ctx.require_true('2-RDM %s: number of blocks' % name,
                         len(P) == len(blocks))
        for x, b in zip(P, blocks):
            ctx.require('2-RDM %s' % b, x, fill4(
                lambda p, q, r, t: o.dI(g(b[2], r), g(b[3], t), g(b[0], p),
                                        g(b[1], q)), *dims(b)))


def cases(tier):
    ds = [(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 1), (1, 1, 2, 1),
          (1, 1, 1, 2), (2, 2, 1, 1), (1, 1, 2, 2), (2, 1, 1, 2),
          (2, 2, 1, 2), (1, 2, 2, 2), (2, 2, 2, 2), (1, 1, 0, 1),
          (2, 2, 0, 1), (0, 1, 1, 2), (2, 1, 1, 0), (1, 0, 1, 2),
          (3, 2, 1, 2), (2, 3, 2, 1), (1, 5, 1, 2), (5, 1, 2, 1),
          (1, 2, 1, 5), (2, 1, 5, 1)]
    if tier == 'thorough':
        ds += [(2, 3, 2, 2), (3, 2, 2, 2), (3, 3, 1, 1), (1, 1, 3, 3),
               (3, 3, 2, 2), (3, 3, 3, 3)]
    names = ('noa', 'nva', 'nob', 'nvb')
    out = [Case('-'.join(map(str, d)), harness, dict(zip(names, d)))
           for d in ds]
    for d in ((2, 2, 2, 2), (2, 1, 1, 2)):
        out.append(Case('-'.join(map(str, d)) + '-tfac', harness,
                        dict(zip(names, d), tfac=True)))
    out.append(Case('1-2-2-1-complex', harness,
                    dict(noa=1, nva=2, nob=2, nvb=1, kind='c')))
    return out
