"""Determinant, thermal and integral routines have no memory."""
import numpy as np

from ..ctx import given
from ..runner import Case
from .. import ci, eri
from .. import ftmodel as ft
from ..ccsys import raw
from .c17 import spin_blocks
from .c18 import hmat, project, occ_g, occ_u
from . import c15, c16, c17, c19, c20, c21, c22, c23, c26

FUNCTIONS = ['ci_utils.' + f for f in (
    'Dstring.excite', 'Pstring.raize', 'Pstring.lower', 'level', 'diff',
    's_strings', 'd_strings', 't_strings', 'q_strings', 's_pstrings',
    'd_pstrings', 'vcis_basis', 'vcisd_basis', 'ucis_basis', 'ucisd_basis',
    'ucisdt_basis', 'ucisdtq_basis', 'gcis_basis', 'gcisd_basis',
    'gcisdt_basis', 'gcisdtq_basis', 'ci_matrixel', 'gci_matrixel',
    'H_on_vec', 'gH_on_vec', 's_on_vec', 'sa_on_vec', 'sb_on_vec',
    'd_on_vec', 'da_on_vec', 'db_on_vec', 'sasb_on_vec', 'makeCfromT',
    'gmakeCfromT')] + \
    ['ft_utils.' + f for f in (
        'ff', 'ffv', 'GP0', 'uGP0', 'dGP0', 'fermi_function',
        'vfermi_function', 'grand_potential0', 'dgrand_potential0')] + \
    ['integrals.' + f for f in (
        'get_chem', 'get_chem_anti', 'get_phys', 'get_phys_anti',
        'get_chemu', 'get_chem_antiu', 'get_phys_antiu', 'get_chemu_all',
        'get_physu_all', 'get_phys_antiu_all', 'get_physu_all_gen',
        'get_phys_antiu_all_gen', 'get_phys_gen', 'get_chem_sol',
        'get_phys_sol', 'get_chemu_sol', 'get_phys_antiu_sol',
        'get_chemu_all_sol', 'get_physu_all_sol', 'get_chem_solk',
        'get_phys_solk', 'get_solk_integrals', 'eri_blocks')]
BOUNDS = {'quick': 'histories of 2 to 7 calls that differ in size, in all '
          'values or in one argument only, with earlier results and '
          'arguments overwritten in between; up to 4 spin orbitals for CI '
          'vectors, 7 orbitals for lists, 2 atomic orbitals for integrals, '
          '1-2 energy levels; values symbolic',
          'thorough': 'larger lists and bases, more regimes of the thermal '
          'functions',
          'outside': 'longer histories; changes to the occupation array '
          'inside a returned string'}
ASSUMPTIONS = [
    'exact arithmetic except in the thermal functions (see there)',
    'a table keyed by symbolic real numbers finds an entry exactly when the '
    'expressions agree']


# ------------------------------------------------------------ overwriting

def scribble(x, depth=0):
    """what a caller may do with its own arrays and lists"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.shape != ():
            x[...] = 7
    elif isinstance(x, list):
        for y in x:
            if not hasattr(y, 'occ'):
                scribble(y, depth + 1)
        x.reverse()
        del x[1:]
        x.append(None)
    elif isinstance(x, tuple):
        for y in x:
            if not hasattr(y, 'occ'):
                scribble(y, depth + 1)
    elif hasattr(x, '__dict__') and not hasattr(x, 'num') and \
            not hasattr(x, 'occ') and depth == 0:
        for k, v in list(vars(x).items()):
            if k[:4] != 'with' and isinstance(v, np.ndarray):
                scribble(v, 1)


def overwrite(calls):
    for a, k, r in calls:
        scribble(r)
        for x in a + tuple(k.values()):
            if isinstance(x, (np.ndarray, list)):
                scribble(x)
    del calls[:]


class Kept(object):
    """results that later calls must leave alone"""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, x, depth=0):
        if isinstance(x, np.ndarray):
            self.items.append((x, self.ctx.snapshot(x)))
        elif isinstance(x, list):
            self.items.append((x, list(x)))
        elif isinstance(x, tuple):
            for y in x:
                self.add(y, depth + 1)
        elif hasattr(x, '__dict__') and not hasattr(x, 'num') and \
                not hasattr(x, 'occ') and depth == 0:
            for y in vars(x).values():
                self.add(y, 1)

    def check(self):
        for x, s in self.items:
            if isinstance(x, list):
                self.ctx.require_true(
                    'earlier list unchanged by later calls',
                    len(x) == len(s) and all(a is b for a, b in zip(x, s)))
            else:
                self.ctx.require('earlier result unchanged by later calls',
                                 x, s, zero_ok=True)


HARNESS = dict(c15=c15, c16=c16, c17=c17, c19=c19, c20=c20, c26=c26)


def sequence(ctx, steps, keep=False):
    """the harnesses of other properties one after the other, each with its
    own inputs except for the shared names"""
    kept = Kept(ctx)
    try:
        for n, (mod, fn, params, shared) in enumerate(steps):
            ctx.prefix, ctx.shared, ctx.calls = 's%d.' % n, shared, []
            getattr(HARNESS[mod], fn)(ctx, **params)
            if not keep:
                overwrite(ctx.calls)
                continue
            for a, k, r in ctx.calls[:40]:
                kept.add(r)
    finally:
        ctx.prefix, ctx.shared, ctx.calls = '', (), None
    kept.check()


# ------------------------------------------------------------ CI vectors

def vectors(ctx, form, fn, size, other, ops):
    """one basis list and one set of arrays over several calls"""
    m = ctx.mod('ci_utils')
    g = form == 'g'
    n = size[0]
    if g:
        bas, bas2 = m.gcisd_basis(*size), m.gcisd_basis(*other)
    else:
        bas, bas2 = m.ucisd_basis(*size), m.ucisd_basis(*other)
    occ = occ_g if g else occ_u
    d = len(bas)
    v, w = ctx.tensor('v', (d,)), ctx.tensor('w', (d,))
    x = ctx.tensor('x', (len(bas2),))
    f = getattr(m, fn)
    if ops is None:
        if g:
            hs = [[ctx.tensor('h%d' % k, (n, n)), ctx.pairsym('I%d' % k, n)]
                  for k in range(2)]
        else:
            hs = [[ctx.tensor('ha%d' % k, (n, n)),
                   ctx.tensor('hb%d' % k, (n, n)),
                   ctx.pairsym('Ia%d' % k, n), ctx.pairsym('Ib%d' % k, n),
                   ctx.tensor('Iab%d' % k, (n,)*4)] for k in range(2)]
    else:
        hs = ops

    def ref(b, u, h):
        occs = [occ(y) for y in b]
        if ops is not None:
            e = []
            k = len(h)//2
            for i, (p, q) in enumerate(zip(h[:k], h[k:])):
                off = 0 if g else n*('ab'.index(spins[i]))
                e = [('+', q + off), ('-', p + off)] + e
            return project(ctx, occs, u, e)
        if g:
            hr, Ir = raw(h[0]), raw(h[1])
            return hmat(ctx, occs, u, lambda p, q: hr[p, q],
                        lambda p, q, r, s: Ir[p, q, r, s])
        one, two = spin_blocks(h[:2], h[2:], n)
        return hmat(ctx, occs, u, one, two)
    spins = {'sa_on_vec': 'a', 'sb_on_vec': 'b', 'da_on_vec': 'aa',
             'db_on_vec': 'bb', 'sasb_on_vec': 'ab'}.get(fn)

    kept = Kept(ctx)

    def step(label, b, u, h, keep=False):
        want = ref(b, u, h)
        before = ctx.snapshot(u)
        rows = list(b)
        got = f(b, u, *h)
        ctx.require(label, got, want, zero_ok=True)
        ctx.require('vector unchanged', u, before)
        ctx.require_true('basis unchanged', len(rows) == len(b) and
                         all(y is z for y, z in zip(rows, b)))
        if keep:
            kept.add(got)
        elif isinstance(got, np.ndarray):
            got[...] = 7
        ctx.require('result is not the argument', u, before)
    step('first call', bas, v, hs[0], True)
    step('another vector', bas, w, hs[0])
    step('another operator', bas, w, hs[1])
    step('another basis', bas2, x, hs[1])
    bas.reverse()
    step('basis reordered by the caller', bas, w, hs[1])
    bas[0], bas[-1] = bas[-1], bas[0]
    v *= 3
    if ops is None:
        for y in hs[0]:
            y *= 2
    step('arrays changed by the caller', bas, v, hs[0], True)
    step('first arguments again', bas, v, hs[0])
    kept.check()


def expansion(ctx, form, dims, orders):
    """CC -> CI expansion with amplitudes updated in place"""
    m = ctx.mod('ci_utils')
    if form == 'u':
        noa, nva, nob, nvb = dims
        T = [ctx.tensor('t1a', (nva, noa)), ctx.tensor('t1b', (nvb, nob)),
             ctx.antisym('t2aa', nva, noa),
             ctx.tensor('t2ab', (nva, nvb, noa, nob)),
             ctx.antisym('t2bb', nvb, nob)]
        f = m.makeCfromT
    else:
        no, nv = dims
        T = [ctx.tensor('t1', (nv, no)), ctx.antisym('t2', nv, no)]
        f = m.gmakeCfromT
    kept = Kept(ctx)
    for k, o in enumerate(orders):
        fm = ctx.fresh_mod('ci_utils')
        r = given(getattr(fm, 'makeCfromT' if form == 'u' else
                          'gmakeCfromT'),
                  *dims, *[x.copy() for x in T], order=o)
        snap = [ctx.snapshot(x) for x in T]
        got = given(f, *dims, *T, order=o)
        ctx.require('coefficients of order %d as in a fresh process' % o,
                    got, r)
        for x, s in zip(T, snap):
            ctx.require('amplitudes unchanged', x, s, zero_ok=True)
        if k in (0, 3):
            kept.add(got)
        else:
            got[...] = 7
        for x, s in zip(T, snap):
            ctx.require('result is not the argument', x, s, zero_ok=True)
        if k % 2:
            for x in T:
                x *= 2
    kept.check()


# ------------------------------------------------------------ thermal

THERMAL = {
    'ff': lambda ctx, r, b, L: c21.want(ctx, 'occupation', r, L.f),
    'ffv': lambda ctx, r, b, L: c21.want(ctx, 'complement', r, L.v),
    'GP0': lambda ctx, r, b, L: c22.want(ctx, 'grand potential', r, b, L),
    'dGP0': lambda ctx, r, b, L: c23.want(ctx, 'derivative', r, b, L)}
SCALAR = {'ff': 'fermi_function', 'ffv': 'vfermi_function',
          'GP0': 'grand_potential0', 'dGP0': 'dgrand_potential0'}


def thermal(ctx, fn, reg, reg2, vector):
    """same energy at another temperature and at another chemical potential,
    another energy at the same temperature, and back"""
    m = ctx.mod('ft_utils')
    beta, mu = ft.beta_mu(ctx)
    L = ft.Level(ctx, beta, mu, reg[0], reg[1], '0')
    K = ft.Level(ctx, beta, mu, reg2[0], reg2[1], '1')
    L2 = L.scaled(2)
    f = getattr(m, fn if vector else SCALAR[fn])
    calls = [('first call', beta, L.eps, mu, L),
             ('another temperature', 2*beta, L.eps, mu, L2),
             ('another chemical potential', beta, L.eps, None, L2),
             ('another energy', beta, K.eps, mu, K),
             ('first call again', beta, L.eps, mu, L)]
    kept = Kept(ctx)
    for label, b, e, u, lev in calls:
        if u is None:
            with ft.exact():
                u = 2*mu - L.eps
        if ctx.mode == 'real':
            lev.eps = e
            lev.refresh(b, u)
        if vector:
            E = ctx.array([e], 'f')
            sn = ctx.snapshot(E)
            r = f(b, E, u)
            THERMAL[fn](ctx, r[0], b, lev)
            if label in ('first call', 'another energy'):
                kept.add(r)
            else:
                r[...] = 7
            ctx.require('energies unchanged', E, sn, zero_ok=True)
            E[...] = 7
        else:
            THERMAL[fn](ctx, f(b, e, u), b, lev)
    kept.check()


def in_place(ctx, fn, reg, reg2):
    """a vector of energies the caller overwrites"""
    m = ctx.mod('ft_utils')
    beta, mu = ft.beta_mu(ctx)
    L = ft.Level(ctx, beta, mu, reg[0], reg[1], '0')
    K = ft.Level(ctx, beta, mu, reg2[0], reg2[1], '1')
    f = getattr(m, fn)
    E = ctx.array([L.eps, K.eps], 'f')
    for pair in ((L, K), (K, L), (K, K), (L, K)):
        for k, lev in enumerate(pair):
            E[k] = lev.eps
        r = f(beta, E, mu)
        for k, lev in enumerate(pair):
            THERMAL[fn](ctx, r[k], beta, lev)
        r[...] = 7
        for k, lev in enumerate(pair):
            ctx.require('energies unchanged', E[k], lev.eps, zero_ok=True)


# ------------------------------------------------------------ integrals

def system(ctx, tag, nao, pbc, kind):
    if pbc:
        E = ctx.pairex('E' + tag, nao, kind)
        mf = eri.MF()
        mf.kpt = [0.1, 0.2, 0.3]
        mf.with_df = eri.DF(ctx, {(0,)*4: E}, [mf.kpt])
        return mf, E
    E = ctx.real8('E' + tag, nao)
    return eri.molecule(ctx, E), E


def integrals(ctx, fn, nao, shapes, pbc, kind='f', anti=None):
    """fn(system, coefficients...) for two systems and several sets of
    coefficients"""
    m = ctx.mod('integrals')
    f = getattr(m, fn)
    kw = {} if anti is None else {'anti': anti}
    phys = 'phys' in fn
    isanti = 'anti' in fn or bool(anti)
    every = '_all' in fn
    spin = 'u' in fn.split('_')[1] or 'antiu' in fn
    A, EA = system(ctx, 'A', nao, pbc, kind)
    B, EB = system(ctx, 'B', nao, pbc, kind)

    def coeffs(name, ns):
        return [ctx.tensor('%s%d' % (name, k), (nao, n), kind)
                for k, n in enumerate(ns)]
    c = coeffs('c', shapes[0])
    d = coeffs('d', shapes[0])
    e = coeffs('e', shapes[1])

    def ref(E, o):
        if every:
            r = eri.spinorb(ctx, E, [o[0]]*4, [o[1]]*4, isanti, phys, pbc)
        elif spin:
            r = eri.spinorb(ctx, E, o[:4], o[4:], isanti, phys, pbc)
        else:
            r = eri.plain(ctx, E, o, isanti, phys, pbc)
        return ctx.array(r, kind)

    kept = Kept(ctx)

    def step(label, S, E, o, keep=False):
        snap = [ctx.snapshot(x) for x in o]
        want = ref(E, o)
        got = given(f, S, *o, **kw)
        ctx.require(label, got, want)
        if keep:
            kept.add(got)
        else:
            got[...] = 7
        for x, s in zip(o, snap):
            ctx.require('coefficients unchanged', x, s)
    step('first call', A, EA, c)
    step('other orbitals', A, EA, d)
    step('other system', B, EB, d, True)
    step('other system again', B, EB, d)
    step('other sizes', B, EB, e)
    for x in c:
        x *= 2
    step('first arguments, changed by the caller', A, EA, c)
    kept.check()


def blocks(ctx, nao, n, unrestricted, pbc, kind, how):
    """block objects and complete integral arrays from one mean field whose
    orbitals and occupations change"""
    m = ctx.mod('integrals')
    S, E = system(ctx, 'A', nao, pbc, kind)
    mf = S if pbc else eri.MF(S)
    shp = (2, nao, n) if unrestricted else (nao, n)
    C = [ctx.tensor('C%d' % k, shp, kind) for k in range(2)]
    pats = ([[1, 0, 0], [0, 1, 1]], [[0, 1, 0], [1, 1, 0]])

    def run(label, c, pat):
        for k, s in enumerate(pat):
            assert len(s) == n
        a, b = (c[0], c[1]) if unrestricted else (c, c)
        if not unrestricted:
            pat = [pat[0], pat[0]]
        mf.mo_occ = ctx.array(pat, 'i') if unrestricted else \
            ctx.array([2*x for x in pat[0]], 'i')
        if how == 'blocks':
            r = m.eri_blocks(mf)
            sp = {}
            for s, x, o in (('a', a, pat[0]), ('b', b, pat[1])):
                for t, val in (('o', 1), ('v', 0)):
                    sp[t, s] = x[:, [k for k in range(n) if o[k] == val]]
            for w in ('vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'oovv',
                      'vooo', 'ooov', 'oooo'):
                got = getattr(r, w)
                ctx.require(label, got, ctx.array(eri.spinorb(
                    ctx, E, [sp[t, 'a'] for t in w],
                    [sp[t, 'b'] for t in w], True, True, pbc), kind),
                    zero_ok=True)
                got[...] = 7
        else:
            for anti in (False, True):
                got = given(m.get_physu_all_gen, mf, anti=anti)
                ctx.require(label, got, ctx.array(eri.spinorb(
                    ctx, E, [a]*4, [b]*4, anti, True, pbc), kind))
                got[...] = 7
    mf.mo_coeff = C[0]
    run('first call', C[0], [p[:n] for p in pats[0]])
    run('other occupations', C[0], [p[:n] for p in pats[1]])
    mf.mo_coeff = C[1]
    run('other orbitals', C[1], [p[:n] for p in pats[1]])
    C[1] *= 2
    run('orbitals changed in place', C[1], [p[:n] for p in pats[1]])
    mf.mo_coeff = C[0]
    run('first arguments again', C[0], [p[:n] for p in pats[0]])


# ------------------------------------------------------------ cases

def cases(tier):
    th = tier == 'thorough'
    out = []

    def seq(name, mod, fn, plist, shared=()):
        steps = [(mod, fn, p, shared if k else ())
                 for k, p in enumerate(plist)]
        if shared:
            steps = [(mod, fn, p, shared) for p in plist]
        out.append(Case(name, sequence, dict(steps=steps)))
    # lists and bases
    for lev, nm in ((1, 's'), (2, 'd'), (3, 't'), (4, 'q')):
        p = dict(n=6, level=lev, nocc=3)
        seq('list-%s-sizes' % nm, 'c16', 'strings', [
            p, dict(n=6, level=lev, nocc=2), dict(n=7, level=lev, nocc=3),
            p])
        seq('list-%s-references' % nm, 'c16', 'strings', [
            p, dict(n=6, level=lev, occ='010101'), p,
            dict(n=6, level=lev, occ='110001')])
        seq('list-%s-symbolic' % nm, 'c16', 'strings', [
            dict(n=3, level=lev), dict(n=3, level=lev)])
    B = {}
    for k, nm in enumerate(('cis', 'cisd', 'cisdt', 'cisdtq')):
        B['u', nm] = lambda n, a, b, k=k, nm=nm: (
            'c16', 'ubasis', dict(name='u%s_basis' % nm, level=k + 1, n=n,
                                  na=a, nb=b), ())
        B['g', nm] = lambda n, a, k=k, nm=nm: (
            'c16', 'gbasis', dict(name='g%s_basis' % nm, level=k + 1, nmo=n,
                                  n=a), ())

    def chain(name, steps, keep=False):
        out.append(Case(name, sequence, dict(steps=steps, keep=keep)))
    us = [(3, 1, 2), (3, 2, 1), (4, 2, 2), (3, 1, 2)]
    gs = [(6, 3), (6, 2), (8, 3), (6, 3)]
    if th:
        us = us[:-1] + [(5, 2, 3), (5, 3, 2), (4, 1, 3)] + us[-1:]
        gs = gs[:-1] + [(8, 4), (8, 5)] + gs[-1:]
    for nm in ('cis', 'cisd', 'cisdt', 'cisdtq'):
        chain('basis-u%s' % nm, [B['u', nm](*s) for s in us])
        chain('basis-g%s' % nm, [B['g', nm](*s) for s in gs])
    names = ('cis', 'cisd', 'cisdt', 'cisdtq', 'cisdt', 'cisd', 'cis')
    chain('basis-u-classes', [B['u', x](3, 2, 1) for x in names])
    chain('basis-g-classes', [B['g', x](6, 3) for x in names])
    chain('basis-u-kept', [B['u', x](4, 2, 2) for x in names[1:5]], True)
    chain('basis-g-kept', [B['g', x](8, 4) for x in names[1:5]], True)
    nog = ('c16', 'ubasis', dict(name='ucis_basis', level=1, n=3, na=1, nb=2,
                                 kw={'gs': False}), ())
    chain('basis-u-reference', [B['u', 'cis'](3, 1, 2), nog,
                                B['u', 'cis'](3, 1, 2), nog])
    nog = ('c16', 'gbasis', dict(name='gcis_basis', level=1, nmo=6, n=3,
                                 kw={'gs': False}), ())
    chain('basis-g-reference', [B['g', 'cis'](6, 3), nog,
                                B['g', 'cis'](6, 3), nog])
    V = {'vcis_basis': (0, 1), 'vcisd_basis': (0, 2), 's_pstrings': (1, 1),
         'd_pstrings': (2, 2)}

    def vib(name, n):
        return ('c20', 'basis', dict(name=name, n=n, lo=V[name][0],
                                     hi=V[name][1]), ())
    for x in V:
        for y in V:
            chain('basis-%s-%s' % (x, y), [vib(x, 2), vib(y, 2)])
        chain('basis-%s-sizes' % x, [vib(x, 2), vib(x, 3)])
        chain('basis-%s-back' % x, [vib(x, 2), vib(x, 1), vib(x, 2)])
    # strings
    seq('excite', 'c15', 'excite', [dict(n=4, i=0, a=3), dict(n=4, i=0, a=3),
                                    dict(n=4, i=2, a=0)])
    seq('excite-same-string', 'c15', 'excite', [
        dict(n=4, i=0, a=3), dict(n=4, i=1, a=3), dict(n=4, i=3, a=0),
        dict(n=4, i=0, a=2)], ('occ',))
    seq('excite-sizes', 'c15', 'excite', [
        dict(n=3, i=0, a=2), dict(n=4, i=0, a=2), dict(n=3, i=0, a=2)])
    seq('ladder', 'c20', 'ladder', [dict(n=2, p=0), dict(n=2, p=1),
                                    dict(n=2, p=0)])
    # matrix elements
    for n in (2, 3) + ((4,) if th else ()):
        seq('element-g-values-%d' % n, 'c17', 'general',
            [dict(n=n)]*2, ('bra', 'ket'))
        if n < 4:
            seq('element-g-strings-%d' % n, 'c17', 'general',
                [dict(n=n)]*2, ('h', 'I', 'const'))
            seq('element-g-constant-%d' % n, 'c17', 'general',
                [dict(n=n)]*2, ('h', 'I', 'bra', 'ket'))
    seq('element-g-sizes', 'c17', 'general', [dict(n=3), dict(n=2)])
    # vectors
    for fn, ops in [('gH_on_vec', None), ('s_on_vec', [(0, 1), (2, 3)]),
                    ('d_on_vec', [(0, 2, 1, 3), (1, 3, 0, 2)])]:
        out.append(Case('vector-%s' % fn, vectors, dict(
            form='g', fn=fn, size=(4, 2), other=(4, 3), ops=ops)))
        out.append(Case('vector-%s-same-length' % fn, vectors, dict(
            form='g', fn=fn, size=(4, 1), other=(4, 3), ops=ops)))
    for fn, ops in [('H_on_vec', None), ('sa_on_vec', [(0, 1), (1, 0)]),
                    ('sb_on_vec', [(0, 1), (1, 0)]),
                    ('da_on_vec', [(0, 1, 2, 0), (1, 0, 1, 2)]),
                    ('db_on_vec', [(0, 1, 2, 0), (1, 0, 1, 2)]),
                    ('sasb_on_vec', [(0, 0, 1, 1), (1, 0, 0, 1)])]:
        out.append(Case('vector-%s' % fn, vectors, dict(
            form='u', fn=fn, size=(3, 1, 2), other=(3, 2, 1), ops=ops)))
        if fn[0] in 'Hs':
            out.append(Case('vector-%s-2' % fn, vectors, dict(
                form='u', fn=fn, size=(2, 1, 1), other=(2, 1, 2), ops=ops)))
    # expansions
    for d in [(1, 2, 2, 1), (2, 2, 1, 3)] + ([(2, 2, 2, 2)] if th else []):
        out.append(Case('expansion-u-%s' % '-'.join(map(str, d)), expansion,
                        dict(form='u', dims=d, orders=(2, 2, 3, 1, 4, 2))))
    for d in [(2, 2), (3, 3)] + ([(4, 4)] if th else []):
        out.append(Case('expansion-g-%d-%d' % d, expansion,
                        dict(form='g', dims=d, orders=(2, 2, 3, 1, 4, 2))))
    q = [dict(dims=d, order=o) for d, o in
         (((2, 2, 1, 3), 3), ((1, 3, 2, 2), 3), ((1, 2, 2, 1), 2),
          ((2, 2, 1, 3), 3), ((2, 2, 1, 3), 4))]
    seq('expansion-u-sizes', 'c19', 'unrestricted', q)
    for o in (2, 3, 4):
        seq('expansion-u-same-electrons-%d' % o, 'c19', 'unrestricted', [
            dict(dims=d, order=o) for d in ((2, 1, 1, 2), (2, 2, 1, 3),
                                            (1, 3, 2, 2), (2, 1, 1, 2))])
        seq('expansion-g-same-electrons-%d' % o, 'c19', 'spinorb', [
            dict(no=a, nv=b, order=o, explicit=False) for a, b in
            ((2, 2), (2, 4), (4, 2), (2, 2))])
    q = [dict(no=a, nv=b, order=o, explicit=e) for a, b, o, e in
         ((3, 3, 3, False), (2, 4, 3, True), (2, 2, 2, False),
          (3, 3, 3, False), (3, 3, 4, True))]
    seq('expansion-g-sizes', 'c19', 'spinorb', q)
    # thermal
    R = [(-60, -40), (40, 60), (-2, 0), (4, 6), (-26, -22)]
    if th:
        R += [(22, 26), (-8, -6), (0, 2)]
    for fn in THERMAL:
        for k, r in enumerate(R):
            r2 = R[(k + 1) % len(R)]
            for vec in (True, False):
                out.append(Case('thermal-%s-%d-%s' % (
                    fn, k, 'vector' if vec else 'scalar'), thermal, dict(
                        fn=fn, reg=r, reg2=r2, vector=vec),
                    round_model=True))
            out.append(Case('thermal-%s-%d-overwritten' % (fn, k), in_place,
                            dict(fn=fn, reg=r, reg2=r2), round_model=True))
    # integrals
    four = ((1, 2, 1, 2), (2, 1, 2, 1))
    two = ((1, 2), (2, 1))
    eight = ((1, 1, 1, 1, 1, 1, 1, 1), (1, 2, 1, 1, 1, 1, 2, 1))
    for fn, sh in [('get_chem', four), ('get_phys', four),
                   ('get_chem_anti', four), ('get_phys_anti', four),
                   ('get_chemu', eight), ('get_chem_antiu', eight),
                   ('get_phys_antiu', eight), ('get_chemu_all', two),
                   ('get_physu_all', two), ('get_phys_antiu_all', two)]:
        out.append(Case('integrals-' + fn, integrals, dict(
            fn=fn, nao=2, shapes=sh, pbc=False)))
        if 'anti' not in fn:
            out.append(Case('integrals-%s-anti' % fn, integrals, dict(
                fn=fn, nao=2, shapes=sh, pbc=False, anti=True)))
    for fn, sh in [('get_chem_sol', four), ('get_phys_sol', four),
                   ('get_chemu_sol', eight), ('get_phys_antiu_sol', eight),
                   ('get_chemu_all_sol', two), ('get_physu_all_sol', two)]:
        out.append(Case('integrals-' + fn, integrals, dict(
            fn=fn, nao=2, shapes=sh, pbc=True, kind='c')))
    for how in ('blocks', 'all'):
        for u in (False, True):
            for pbc in (False, True):
                out.append(Case('mean-field-%s-%s%s' % (
                    how, 'u' if u else 'r', '-pbc' if pbc else ''), blocks,
                    dict(nao=2 if how == 'all' else 1,
                         n=2 if how == 'all' else 3, unrestricted=u, pbc=pbc,
                         kind='c' if pbc else 'f', how=how)))
    for a in (False, True):
        seq('momenta-%s' % ('anti' if a else 'plain'), 'c26', 'momenta', [
            dict(grid=g, nao=1, ns=ns, anti=a) for g, ns in
            (((2, 1, 1), (1, 2, 1, 1)), ((2, 1, 1), (1, 2, 1, 1)),
             ((1, 3, 1), (1, 1, 1, 2)), ((1, 2, 1), (1, 2, 1, 1)))])
        seq('momenta-grids-%s' % ('anti' if a else 'plain'), 'c26',
            'momenta', [dict(grid=g, nao=1, ns=(1, 1, 1, 1), anti=a)
                        for g in ((4, 1, 1), (2, 2, 1), (1, 1, 4))])
    seq('table', 'c26', 'table', [
        dict(grid=g, nao=1, nmo=1, order=o) for g, o in
        (((2, 1, 1), 'chem'), ((2, 1, 1), 'phys'), ((3, 1, 1), 'phys'),
         ((2, 1, 1), None))])
    seq('table-grids', 'c26', 'table', [
        dict(grid=g, nao=1, nmo=1, order='phys') for g in
        ((4, 1, 1), (2, 2, 1))])
    return out
