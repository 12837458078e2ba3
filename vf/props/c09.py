"""Reduced density matrices as derivatives of the Lagrangian."""
from ..ctx import given
from ..runner import Case
from .. import ccsys
from ..ccsys import fill1, fill4, raw

ONE = ('ba', 'ji', 'ai')
TWO = ('cdab', 'ciab', 'bcai', 'bjai', 'abij', 'jkai', 'kaij', 'klij')
FUNCTIONS = ['cc_equations.ccsd_1rdm_%s%s' % (b, o) for b in ONE
             for o in ('', '_opt')] + \
            ['cc_equations.ccsd_2rdm_%s%s' % (b, o) for b in TWO
             for o in ('', '_opt')]
BOUNDS = {'quick': 'occupied x virtual spin orbitals up to 4x3, 5x2, 8x1 and '
          'transposed; all '
          'entries of T1, T2, L1, L2 and the factor tfac symbolic reals; '
          '2x2 symbolic complex',
          'thorough': 'additionally 4x4, 6x2, 2x6',
          'outside': 'larger orbital spaces; floating-point rounding'}
ASSUMPTIONS = [
    'exact real/complex arithmetic (rounding is outside the claim)',
    'pyscf.lib.einsum computes the Einstein summation of its arguments',
    'T2, L2 antisymmetric in their index pairs',
]
WITH_TFAC = ('ai', 'abij')


def space(c):
    return 'o' if c in 'ijkl' else 'v'


def harness(ctx, no, nv, opt, tfac=False, kind='f'):
    s = _amps(ctx, no, nv, kind)
    m = ctx.mod('cc_equations')
    kw = {'tfac': ctx.real('tfac')} if tfac else {}
    from .. import fock
    T1, T2, L1, L2 = s
    o = fock.CC(None, None, raw(T1), raw(T2), no, no + nv, ctx.zero)
    o.bra(raw(L1), raw(L2), kw.get('tfac', 1))
    n = {'o': no, 'v': nv}

    def g(c, i):
        return i if space(c) == 'o' else no + i
    for b in ONE:
        if tfac and b not in WITH_TFAC:
            continue
        P = given(getattr(m, 'ccsd_1rdm_' + b + opt), T1, T2, L1, L2, **kw)
        ctx.require('1-RDM %s' % b, P, fill1(
            lambda p, q: o.dF(g(b[1], q), g(b[0], p)),
            n[space(b[0])], n[space(b[1])]))
    for b in TWO:
        if tfac and b not in WITH_TFAC:
            continue
        P = given(getattr(m, 'ccsd_2rdm_' + b + opt), T1, T2, L1, L2, **kw)
        ctx.require('2-RDM %s' % b, P, fill4(
            lambda p, q, r, t: o.dI(g(b[2], r), g(b[3], t), g(b[0], p),
                                    g(b[1], q)),
            *[n[space(c)] for c in b]), zero_ok=min(no, nv) < 2)


def _amps(ctx, no, nv, kind):
    return (ctx.tensor('T1', (nv, no), kind),
            ctx.antisym('T2', nv, no, kind),
            ctx.tensor('L1', (no, nv), kind),
            ctx.antisym('L2', no, nv, kind))


def cases(tier):
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4),
             (4, 2), (1, 8), (8, 1), (2, 5), (5, 2),
             (3, 4), (4, 3)]
    if tier == 'thorough':
        sizes += [(4, 4), (2, 6), (6, 2)]
    out = []
    for opt in ('', '_opt'):
        nm = 'opt' if opt else 'simple'
        for no, nv in sizes:
            out.append(Case('%s-%d-%d' % (nm, no, nv), harness,
                            dict(no=no, nv=nv, opt=opt)))
        for no, nv in ((2, 2), (2, 3), (3, 2)):
            out.append(Case('%s-%d-%d-tfac' % (nm, no, nv), harness,
                            dict(no=no, nv=nv, opt=opt, tfac=True)))
        out.append(Case('%s-2-2-complex' % nm, harness,
                        dict(no=2, nv=2, opt=opt, kind='c')))
    return out
