"""Integral block objects built from a mean field."""
from ..ctx import given
from ..runner import Case
from .. import eri

FUNCTIONS = ['integrals.eri_blocks', 'integrals.get_phys_antiu',
             'integrals.get_phys_antiu_sol']
BOUNDS = {'quick': '2 atomic orbitals, 2 and 3 molecular orbitals, every '
          'occupation pattern (symbolic), codes 0..9, restricted / '
          'unrestricted, molecular / periodic; coefficients and integrals '
          'symbolic', 'thorough': 'also every code with 3 orbitals',
          'outside': 'more orbitals'}
ASSUMPTIONS = [
    'integral-transformation library behaves as documented',
    'exact arithmetic; real molecular orbitals for molecules',
    'alpha and beta have the same number of orbitals, at least one occupied '
    'and one empty orbital of each spin']
CODES = ('vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'oovv', 'vooo', 'ooov',
         'oooo')


def pattern(ctx, name, n, top):
    """symbolic occupations; returns them and the concrete pattern"""
    occ = ctx.tensor(name, (n,), 'i', lo=0, hi=top)
    sel = [bool(occ[k] > 0) for k in range(n)]
    ctx.assume(any(sel))
    ctx.assume(not all(sel))
    return occ, sel


def columns(ctx, C, sel, want):
    ix = [k for k, s in enumerate(sel) if s == want]
    return C[:, ix]


def stack(ctx, x, y):
    if ctx.mode == 'real':
        return ctx.np.array([x, y])
    return ctx.array([list(x), list(y)], 'i')


def build(ctx, nao, n, unrestricted, pbc, codes, kind='f'):
    m = ctx.mod('integrals')
    if pbc:
        E = ctx.pairex('E', nao, kind)
        mf = eri.MF()
        mf.kpt = [0.1, 0.2, 0.3]
        mf.with_df = eri.DF(ctx, {(0,)*4: E}, [mf.kpt])
    else:
        E = ctx.real8('E', nao)
        mf = eri.MF(eri.molecule(ctx, E))
    if unrestricted:
        C = ctx.tensor('C', (2, nao, n), kind)
        oa, sa = pattern(ctx, 'occa', n, 1)
        ob, sb = pattern(ctx, 'occb', n, 1)
        mf.mo_coeff, mf.mo_occ = C, stack(ctx, oa, ob)
        A, B = C[0], C[1]
    else:
        C = ctx.tensor('C', (nao, n), kind)
        oa, sa = pattern(ctx, 'occ', n, 2)
        sb = sa
        mf.mo_coeff, mf.mo_occ = C, oa
        A = B = C
    snap = ctx.snapshot(C)
    sp = {('o', 'a'): columns(ctx, A, sa, True),
          ('v', 'a'): columns(ctx, A, sa, False),
          ('o', 'b'): columns(ctx, B, sb, True),
          ('v', 'b'): columns(ctx, B, sb, False)}
    ref = {}
    for code in codes:
        b = given(m.eri_blocks, mf, code=code) if code else m.eri_blocks(mf)
        for k, s in enumerate(CODES):
            want = code in (0, k + 1)
            ctx.require_true('presence of block ' + s,
                             bool(getattr(b, 'has_' + s)) == want)
            if not want:
                ctx.require_true('block %s not stored' % s,
                                 getattr(b, s, None) is None)
                continue
            if s not in ref:
                ref[s] = ctx.array(eri.spinorb(
                    ctx, E, [sp[c, 'a'] for c in s],
                    [sp[c, 'b'] for c in s], True, True, pbc), kind)
            ctx.require('block ' + s, getattr(b, s), ref[s])
    ctx.require('coefficients unchanged', mf.mo_coeff, snap)


def cases(tier):
    out = []
    for u in (False, True):
        for pbc in (False, True):
            nm = ('u' if u else 'r') + ('-pbc' if pbc else '-mol')
            out.append(Case('codes-' + nm, build, dict(
                nao=2, n=2, unrestricted=u, pbc=pbc, codes=range(10))))
            if pbc:
                out.append(Case('codes-complex-' + nm, build, dict(
                    nao=2, n=2, unrestricted=u, pbc=pbc, codes=range(10),
                    kind='c')))
            if u and tier == 'quick':
                cc = [0]
            else:
                cc = range(10)
            for c in cc:
                out.append(Case('code%d-3-%s' % (c, nm), build, dict(
                    nao=1, n=3, unrestricted=u, pbc=pbc, codes=[c])))
    return out
