"""Molecular two-electron integral transformations."""
from ..ctx import given
from ..runner import Case
from .. import eri

FUNCTIONS = ['integrals.' + f for f in (
    'get_chem', 'get_chem_anti', 'get_phys', 'get_phys_anti', 'get_chemu',
    'get_chem_antiu', 'get_chemu_all', 'get_chem_antiu_all',
    'get_physu_all', 'get_phys_antiu_all', 'get_phys_antiu',
    'get_physu_all_gen', 'get_phys_antiu_all_gen', 'get_phys_gen')]
BOUNDS = {'quick': '2 atomic orbitals, 1..3 molecular orbitals per slot '
          '(different in every slot, alpha and beta different); '
          'coefficients and atomic-orbital integrals symbolic',
          'thorough': 'also 3 atomic orbitals',
          'outside': 'more orbitals; complex molecular orbitals'}
ASSUMPTIONS = [
    'pyscf.ao2mo.general transforms integrals with the documented index '
    'order; stated symmetry of real atomic-orbital integrals',
    'exact real arithmetic']


def coeffs(ctx, name, nao, ns):
    return [ctx.tensor('%s%d' % (name, k), (nao, n))
            for k, n in enumerate(ns)]


def call(ctx, label, f, args, ref, watch, kind='f'):
    snap = [ctx.snapshot(x) for x in watch]
    ctx.require(label, f(*args), ctx.array(ref, kind))
    for x, s in zip(watch, snap):
        ctx.require('coefficients unchanged', x, s)


def slots(ctx, nao, ns, share=None):
    m = ctx.mod('integrals')
    E = ctx.real8('E', nao)
    mol = eri.molecule(ctx, E)
    o = coeffs(ctx, 'o', nao, ns)
    if share:
        o = [o[k] for k in share]
    for phys in (False, True):
        nm = 'get_phys' if phys else 'get_chem'
        r0 = eri.plain(ctx, E, o, False, phys)
        r1 = eri.plain(ctx, E, o, True, phys)
        call(ctx, nm, getattr(m, nm), [mol] + o, r0, o)
        call(ctx, nm + ' antisymmetrized',
             lambda *a: given(getattr(m, nm), *a, anti=True),
             [mol] + o, r1, o)
        call(ctx, nm + '_anti', getattr(m, nm + '_anti'), [mol] + o, r1, o)
    mf = eri.MF(mol)
    for anti in (False, True):
        call(ctx, 'physicists, from a mean field',
             lambda *a: given(m.get_phys_gen, mf, *a, anti=anti), o,
             eri.plain(ctx, E, o, anti, True), o)


def spin_slots(ctx, nao, na, nb):
    m = ctx.mod('integrals')
    E = ctx.real8('E', nao)
    mol = eri.molecule(ctx, E)
    o, p = coeffs(ctx, 'o', nao, na), coeffs(ctx, 'p', nao, nb)
    R = lambda anti, phys: eri.spinorb(ctx, E, o, p, anti, phys)
    w = o + p
    call(ctx, 'chemists', m.get_chemu, [mol] + w, R(False, False), w)
    call(ctx, 'chemists antisymmetrized', m.get_chem_antiu, [mol] + w,
         R(True, False), w)
    call(ctx, 'chemists antisymmetrized',
         lambda *a: given(m.get_chemu, *a, anti=True), [mol] + w,
         R(True, False), w)
    call(ctx, 'physicists antisymmetrized', m.get_phys_antiu, [mol] + w,
         R(True, True), w)


def everything(ctx, nao, na, nb):
    m = ctx.mod('integrals')
    E = ctx.real8('E', nao)
    mol = eri.molecule(ctx, E)
    oa, ob = ctx.tensor('oa', (nao, na)), ctx.tensor('ob', (nao, nb))
    w = [oa, ob]
    R = lambda anti, phys: eri.spinorb(ctx, E, [oa]*4, [ob]*4, anti, phys)
    for anti in (False, True):
        t = ' antisymmetrized' if anti else ''
        call(ctx, 'all chemists' + t,
             lambda *a: given(m.get_chemu_all, *a, anti=anti), [mol, oa, ob],
             R(anti, False), w)
        call(ctx, 'all physicists' + t,
             lambda *a: given(m.get_physu_all, *a, anti=anti), [mol, oa, ob],
             R(anti, True), w)
    call(ctx, 'all chemists', m.get_chemu_all, [mol, oa, ob],
         R(False, False), w)
    call(ctx, 'all physicists', m.get_physu_all, [mol, oa, ob],
         R(False, True), w)
    call(ctx, 'all chemists antisymmetrized', m.get_chem_antiu_all,
         [mol, oa, ob], R(True, False), w)
    call(ctx, 'all physicists antisymmetrized', m.get_phys_antiu_all,
         [mol, oa, ob], R(True, True), w)


def general(ctx, nao, nmo, unrestricted):
    m = ctx.mod('integrals')
    E = ctx.real8('E', nao)
    mf = eri.MF(eri.molecule(ctx, E))
    if unrestricted:
        mf.mo_coeff = ctx.tensor('C', (2, nao, nmo))
        mf.mo_occ = ctx.np.zeros((2, nmo)) if ctx.mode == 'real' else \
            ctx.array([[0]*nmo]*2)
        oa, ob = mf.mo_coeff[0], mf.mo_coeff[1]
    else:
        mf.mo_coeff = ctx.tensor('C', (nao, nmo))
        mf.mo_occ = ctx.np.zeros(nmo) if ctx.mode == 'real' else \
            ctx.array([0]*nmo)
        oa = ob = mf.mo_coeff
    R = lambda anti: eri.spinorb(ctx, E, [oa]*4, [ob]*4, anti, True)
    w = [mf.mo_coeff]
    call(ctx, 'mean field', lambda: m.get_physu_all_gen(mf), [], R(False), w)
    call(ctx, 'mean field',
         lambda: given(m.get_physu_all_gen, mf, anti=False), [],
         R(False), w)
    call(ctx, 'mean field antisymmetrized',
         lambda: given(m.get_physu_all_gen, mf, anti=True), [], R(True), w)
    call(ctx, 'mean field antisymmetrized',
         lambda: m.get_phys_antiu_all_gen(mf), [], R(True), w)


def cases(tier):
    out = []
    ss = [(2, (1, 1, 1, 1)), (2, (1, 2, 3, 1)), (2, (2, 1, 1, 3)),
          (2, (3, 1, 2, 1)), (2, (2, 2, 2, 2)), (2, (1, 3, 1, 2)),
          (3, (1, 2, 1, 2)), (3, (2, 1, 2, 1)), (2, (5, 1, 2, 1)),
          (2, (1, 4, 1, 3))]
    if tier == 'thorough':
        ss += [(3, (3, 2, 1, 2)), (4, (1, 2, 1, 1)), (2, (2, 3, 1, 2))]
    for nao, ns in ss:
        out.append(Case('slots-%d-%d-%d-%d-%d' % ((nao,) + ns), slots,
                        dict(nao=nao, ns=ns)))
    for sh in ((0, 0, 2, 3), (0, 1, 2, 2), (0, 1, 0, 1), (0, 1, 1, 0),
               (0, 0, 0, 0)):
        out.append(Case('shared-%d%d%d%d' % sh, slots,
                        dict(nao=2, ns=(2, 2, 2, 2), share=sh)))
    sp = [(2, (1, 1, 1, 1), (1, 1, 1, 1)), (2, (2, 1, 1, 2), (1, 2, 2, 1)),
          (2, (1, 2, 1, 1), (2, 1, 1, 2)), (2, (1, 1, 2, 1), (1, 1, 1, 2))]
    if tier == 'thorough':
        sp += [(2, (2, 2, 1, 1), (1, 1, 2, 2)),
               (3, (1, 1, 2, 1), (1, 2, 1, 1)),
               (2, (2, 2, 2, 2), (2, 2, 2, 2))]
    for nao, a, b in sp:
        out.append(Case('spin-%d-%s-%s' % (
            nao, ''.join(map(str, a)), ''.join(map(str, b))), spin_slots,
            dict(nao=nao, na=a, nb=b)))
    al = [(2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (2, 1, 4)]
    if tier == 'thorough':
        al += [(3, 2, 1), (3, 1, 2), (2, 4, 3)]
    for nao, a, b in al:
        out.append(Case('all-%d-%d-%d' % (nao, a, b), everything,
                        dict(nao=nao, na=a, nb=b)))
    for nao, n in [(2, 1), (2, 2)] + ([(3, 2)] if tier == 'thorough' else []):
        for u in (False, True):
            out.append(Case('mf-%d-%d-%s' % (nao, n, 'u' if u else 'r'),
                            general, dict(nao=nao, nmo=n, unrestricted=u)))
    return out
