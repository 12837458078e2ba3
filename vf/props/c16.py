"""Excitation lists and CI bases: every determinant of the class exactly
once."""
import numpy as np

from ..ctx import given
from ..runner import Case

FUNCTIONS = ['ci_utils.' + f for f in (
    's_strings', 'd_strings', 't_strings', 'q_strings', 'ucis_basis',
    'ucisd_basis', 'ucisdt_basis', 'ucisdtq_basis', 'gcis_basis',
    'gcisd_basis', 'gcisdt_basis', 'gcisdtq_basis')]
BOUNDS = {'quick': 'lists: up to 5 orbitals with a symbolic reference '
          'occupation, up to 9 with given references; bases: up to '
          '5 orbitals per spin / 8 spin orbitals; the determinant looked for '
          'is symbolic',
          'thorough': 'lists: 6 (symbolic reference) and 10 orbitals; bases: '
          '6 orbitals per spin / 10 spin orbitals',
          'outside': 'larger orbital spaces; odd numbers of spin orbitals in '
          'the spin-orbital bases'}
ASSUMPTIONS = ['occupations are the integers 0 and 1',
               'spin-orbital bases: number of spin orbitals is even, the '
               'reference fills the lowest alpha and beta orbitals with the '
               'odd electron alpha']
LISTS = {1: 's_strings', 2: 'd_strings', 3: 't_strings', 4: 'q_strings'}


def matches(ctx, occs, x):
    """number of listed strings equal to the symbolic string x"""
    cnt = ctx.zero
    for o in occs:
        t = ctx.one
        for k in range(len(x)):
            b = o[k]
            t = t*(x[k] if int(b) else (1 - x[k]))
        cnt = cnt + t
    return cnt


def target(ctx, name, n, ref):
    """symbolic string with as many particles as ref; (x, excitation
    level)"""
    x = ctx.tensor(name, (n,), 'b')
    d = ctx.zero
    lev = ctx.zero
    for k in range(n):
        d = d + x[k] - ref[k]
        # particles removed from the reference
        if int(ref[k]):
            lev = lev + (1 - x[k])
    ctx.assume(d == 0)
    return x, lev


def claim(ctx, label, cnt, inside):
    ctx.require_true(label, (cnt == 1) if inside else (cnt == 0))


def occ_of(d):
    return [int(v) for v in d.occ]


def listed(ctx, lst, n):
    """whether all entries are strings over n orbitals"""
    ok = all(hasattr(d, 'occ') and d.n == n for d in lst)
    ctx.require_true('every entry is a string', ok)
    return ok


def strings(ctx, n, level, nocc=None, occ=None):
    m = ctx.mod('ci_utils')
    f = getattr(m, LISTS[level])
    if occ is not None:
        ref = [int(c) for c in occ]
        lst = given(f, n, sum(ref), occ=list(ref))
    elif nocc is None:
        occ = [ctx.bit('occ[%d]' % k) for k in range(n)]
        ref = [int(b) for b in occ]
        no = sum(ref)
        lst = given(f, n, no, occ=list(occ))
    else:
        ref = [1]*nocc + [0]*(n - nocc)
        lst = f(n, nocc)
    if not listed(ctx, lst, n):
        return
    occs = [occ_of(d) for d in lst]
    x, lev = target(ctx, 'x', n, ref)
    cnt = matches(ctx, occs, x)
    claim(ctx, 'each %d-fold excitation once, nothing else' % level, cnt,
          bool(lev == level))


def ubasis(ctx, name, level, n, na, nb, kw=None):
    m = ctx.mod('ci_utils')
    kw = kw or {}
    bas = getattr(m, name)(n, na, nb, **kw)
    gs = kw.get('gs', True)
    ra = [1]*na + [0]*(n - na)
    rb = [1]*nb + [0]*(n - nb)
    ok = all(isinstance(d, tuple) and len(d) == 2 for d in bas)
    ctx.require_true('every entry is a pair', ok)
    if not ok or not listed(ctx, [s for d in bas for s in d], n):
        return
    occs = [occ_of(a) + occ_of(b) for a, b in bas]
    if gs:
        ctx.require_true('the reference comes first', occs[0] == ra + rb)
    x, lx = target(ctx, 'xa', n, ra)
    y, ly = target(ctx, 'xb', n, rb)
    cnt = matches(ctx, occs, list(x) + list(y))
    tot = lx + ly
    inside = bool(tot <= level) and (gs or bool(tot > 0))
    claim(ctx, 'each determinant of the class once, nothing else', cnt,
          inside)


def gbasis(ctx, name, level, nmo, n, kw=None):
    m = ctx.mod('ci_utils')
    kw = kw or {}
    bas = getattr(m, name)(nmo, n, **kw)
    gs = kw.get('gs', True)
    nb = n//2
    na = n - nb
    h = nmo//2
    ref = [1]*na + [0]*(h - na) + [1]*nb + [0]*(h - nb)
    if not listed(ctx, bas, nmo):
        return
    occs = [occ_of(d) for d in bas]
    if gs:
        ctx.require_true('the reference comes first', occs[0] == ref)
    x, lev = target(ctx, 'x', nmo, ref)
    cnt = matches(ctx, occs, x)
    inside = bool(lev <= level) and (gs or bool(lev > 0))
    claim(ctx, 'each determinant of the class once, nothing else', cnt,
          inside)


def cases(tier):
    out = []
    th = tier == 'thorough'
    for lev in LISTS:
        for n in ([2, 4, 5, 6] if th else [2, 4, 5]):
            out.append(Case('%s-symbolic-%d' % (LISTS[lev], n), strings,
                            dict(n=n, level=lev)))
        big = [(8, 4), (8, 5), (9, 4), (9, 5)] + \
            ([(10, 5), (10, 4)] if th else [])
        for pat in ('10101010', '00101111', '011010011', '110100101') + \
                (('1010010110', '0101101001') if th else ()):
            out.append(Case('%s-occ-%s' % (LISTS[lev], pat), strings,
                            dict(n=len(pat), level=lev, occ=pat)))
        for n, no in [(3, 0), (3, 3), (5, 2), (7, 3)] + big:
            out.append(Case('%s-default-%d-%d' % (LISTS[lev], n, no),
                            strings, dict(n=n, level=lev, nocc=no)))
    sizes = [(2, 1, 1), (3, 1, 2), (3, 2, 1), (4, 2, 2), (4, 1, 3),
             (4, 3, 2), (5, 2, 2), (3, 0, 1)]
    if th:
        sizes += [(5, 3, 2), (6, 2, 3), (6, 3, 3), (8, 4, 0)]
    for n, na, nb in sizes:
        for k, nm in enumerate(('ucis', 'ucisd', 'ucisdt', 'ucisdtq')):
            out.append(Case('%s-%d-%d-%d' % (nm, n, na, nb), ubasis,
                            dict(name=nm + '_basis', level=k + 1, n=n,
                                 na=na, nb=nb)))
        out.append(Case('ucis-nogs-%d-%d-%d' % (n, na, nb), ubasis,
                        dict(name='ucis_basis', level=1, n=n, na=na, nb=nb,
                             kw={'gs': False})))
    gs = [(2, 1), (4, 1), (4, 2), (4, 3), (6, 2), (6, 3), (8, 3), (8, 4),
          (8, 5)]
    if th:
        gs += [(10, 4), (10, 5)]
    for nmo, n in gs:
        for k, nm in enumerate(('gcis', 'gcisd', 'gcisdt', 'gcisdtq')):
            out.append(Case('%s-%d-%d' % (nm, nmo, n), gbasis,
                            dict(name=nm + '_basis', level=k + 1, nmo=nmo,
                                 n=n)))
        out.append(Case('gcis-nogs-%d-%d' % (nmo, n), gbasis,
                        dict(name='gcis_basis', level=1, nmo=nmo, n=n,
                             kw={'gs': False})))
    return out
