"""Restricted reduced density matrices."""
from ..ctx import given
from ..runner import Case
from .. import ccsys, fock
from ..ccsys import fill1, fill4, raw

ONE = ('ba', 'ji', 'ai')
# block returned: lower case = alpha, upper case = beta
TWO = {'ciab': 'cIaB', 'jkai': 'jKaI', 'cdab': 'cDaB', 'bjai': 'bJaI',
       'bjia': 'bJiA', 'klij': 'kLiJ', 'bcai': 'bCaI', 'kaij': 'kAiJ',
       'abij': 'aBiJ'}
FUNCTIONS = ['cc_equations.rccsd_1rdm_' + b for b in ONE] + \
            ['cc_equations.rccsd_2rdm_' + b for b in TWO]
BOUNDS = {'quick': 'spatial occupied x virtual up to 3x2, 2x3, 1x3, 3x1; all '
          'entries of T, L and the factor tfac symbolic reals, one case '
          'symbolic complex',
          'thorough': 'additionally 3x3, 1x6, 6x1',
          'outside': 'larger orbital spaces; floating-point rounding'}
ASSUMPTIONS = [
    'exact real/complex arithmetic (rounding is outside the claim)',
    'pyscf.lib.einsum computes the Einstein summation of its arguments',
    'doubles amplitudes symmetric under exchange of both electrons',
]


def spin(c):
    return 'a' if c.islower() else 'b'


def space(c):
    return 'o' if c.lower() in 'ijkl' else 'v'


def harness(ctx, no, nv, kind='f', tfac=False):
    s = ccsys.RSys(ctx, no, nv, kind, L=True)
    m = ctx.mod('cc_equations')
    kw = {'tfac': ctx.real('tfac')} if tfac else {}
    o = fock.CC(None, None, s.T1so, s.T2so, s.no, s.n, ctx.zero)
    o.bra(s.L1so, s.L2so, kw.get('tfac', 1))
    args = (s.T1, s.T2, s.L1, s.L2)

    def g(c, i):
        return s.g(spin(c), space(c), i)

    def dims(b):
        return [s.dim(spin(c), space(c)) for c in b]
    for b in ONE:
        P = given(getattr(m, 'rccsd_1rdm_' + b), *args, **kw)
        ctx.require('1-RDM %s' % b, P, fill1(
            lambda p, q: o.dF(g(b[1], q), g(b[0], p)), *dims(b)))
    if tfac:
        return
    for name, b in TWO.items():
        P = getattr(m, 'rccsd_2rdm_' + name)(*args)
        ctx.require('2-RDM %s' % b, P, fill4(
            lambda p, q, r, t: o.dI(g(b[2], r), g(b[3], t), g(b[0], p),
                                    g(b[1], q)), *dims(b)))


def cases(tier):
    ds = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]
    if tier == 'thorough':
        ds += [(3, 3), (1, 6), (6, 1)]
    out = [Case('%d-%d' % d, harness, dict(no=d[0], nv=d[1])) for d in ds]
    out.append(Case('2-2-tfac', harness, dict(no=2, nv=2, tfac=True)))
    out.append(Case('2-1-complex', harness, dict(no=2, nv=1, kind='c')))
    return out
