"""Routines that add a group of terms to a caller's array with a factor."""
import inspect

import numpy as np

from ..runner import Case
from .. import ccsys
from .c12 import remap

# name: group, accumulators, remaining arguments, order of the terms in
# (T1, T2, L1, L2); no order: all connected terms together
G = {
    '_S_S': ('T1', 'F I T1', (1, 0, 0, 0)),
    '_S_D': ('T1', 'F I T2', (0, 1, 0, 0)),
    '_S_SS': ('T1', 'F I T1', (2, 0, 0, 0)),
    '_S_SD': ('T1', 'F I T1 T2', (1, 1, 0, 0)),
    '_S_SSS': ('T1', 'F I T1', (3, 0, 0, 0)),
    '_D_S': ('T2', 'F I T1', (1, 0, 0, 0)),
    '_D_D': ('T2', 'F I T2', (0, 1, 0, 0)),
    '_D_D_ladder': ('T2', 'I T2', (0, 1, 0, 0)),
    '_D_D_ring': ('T2', 'I T2', (0, 1, 0, 0)),
    '_D_SS': ('T2', 'F I T1', (2, 0, 0, 0)),
    '_D_SD': ('T2', 'F I T1 T2', (1, 1, 0, 0)),
    '_D_DD': ('T2', 'F I T2', (0, 2, 0, 0)),
    '_D_DD_ladder': ('T2', 'I T2', (0, 2, 0, 0)),
    '_D_DD_ring': ('T2', 'I T2', (0, 2, 0, 0)),
    '_D_SSS': ('T2', 'F I T1', (3, 0, 0, 0)),
    '_D_SSD': ('T2', 'F I T1 T2', (2, 1, 0, 0)),
    '_D_SSSS': ('T2', 'F I T1', (4, 0, 0, 0)),
    '_Stanton': ('T1 T2', 'F I T1 T2', None),
    '_Stanton_ccd': ('T2', 'F I T2', None),
    '_LS_TS': ('L1', 'I T1', (1, 0, 0, 0)),
    '_LS_LS': ('L1', 'F I L1', (0, 0, 1, 0)),
    '_LS_LSTS': ('L1', 'F I L1 T1', (1, 0, 1, 0)),
    '_LS_LSTD': ('L1', 'I L1 T2', (0, 1, 1, 0)),
    '_LS_LSTSS': ('L1', 'I L1 T1', (2, 0, 1, 0)),
    '_LS_LD': ('L1', 'F I L2', (0, 0, 0, 1)),
    '_LS_LDTS': ('L1', 'F I L2 T1', (1, 0, 0, 1)),
    '_LS_LDTD': ('L1', 'F I L2 T2', (0, 1, 0, 1)),
    '_LS_LDTSS': ('L1', 'F I L2 T1', (2, 0, 0, 1)),
    '_LS_LDTSD': ('L1', 'I L2 T1 T2', (1, 1, 0, 1)),
    '_LS_LDTSSS': ('L1', 'I L2 T1', (3, 0, 0, 1)),
    '_LD_LS': ('L2', 'F I L1', (0, 0, 1, 0)),
    '_LD_LSTS': ('L2', 'F I L1 T1', (1, 0, 1, 0)),
    '_LD_LD': ('L2', 'F I L2', (0, 0, 0, 1)),
    '_LD_LD_ladder': ('L2', 'I L2', (0, 0, 0, 1)),
    '_LD_LDTS': ('L2', 'F I L2 T1', (1, 0, 0, 1)),
    '_LD_LDTD': ('L2', 'I L2 T2', (0, 1, 0, 1)),
    '_LD_LDTD_ladder': ('L2', 'I L2 T2', (0, 1, 0, 1)),
    '_LD_LDTSS': ('L2', 'F I L2 T1', (2, 0, 0, 1)),
    '_Lambda_Stanton': ('L1 L2', 'F I L1 L2 T1 T2', None),
    '_Lambda_opt': ('L1 L2', 'F I L1 L2 T1 T2', None),
    '_Lambda_opt_int': ('L1 L2', 'F I L1 L2 T1 T2 intor', None)}
U = {
    '_u_Stanton': ('T1a T1b T2aa T2ab T2bb',
                   'Fab Fbb Iaa_b Ibb_b Iab_b t1 t2', None),
    '_u_LS_TS': ('L1a L1b', 'Iaa_b Ibb_b Iab_b T1a T1b', (1, 0, 0, 0)),
    '_uccsd_Lambda_opt': ('L1a L1b L2aa L2ab L2bb',
                          'Fab Fbb Iaa_b Ibb_b Iab_b l1 l2 t1 t2', None)}
R = {
    '_r_Stanton': ('T1 T2', 'F_b I_b T1 T2', None),
    '_r_LS_TS': ('L1', 'I_b T1', (1, 0, 0, 0)),
    '_rccsd_Lambda_opt': ('L1 L2', 'F_b I_b L1 L2 T1 T2', None)}
KEYS = {'Fab': ('Faa', 'Fa'), 'Fbb': ('Fbb', 'Fb'), 'Iaa_b': ('Ia',),
        'Ibb_b': ('Ib',), 'Iab_b': ('Iabab',), 't1': ('T1old', 'T1olds'),
        't2': ('T2old', 'T2olds'), 'l1': ('L1olds',), 'l2': ('L2olds',),
        'F_b': ('F',), 'I_b': ('I',)}
FUNCTIONS = ['cc_equations.' + f for t in (G, U, R) for f in t]
BOUNDS = {'quick': 'spin orbitals 2x2 and 2x3, unrestricted (2,1,1,2), '
          'restricted 2x1; factor, scale factors, previous contents and all '
          'tensors symbolic reals; one complex size',
          'thorough': 'also 3x2, 3x3, (1,2,2,1), 2x2',
          'outside': 'larger orbital spaces; routines the package no longer '
          'offers in this form are skipped'}
ASSUMPTIONS = [
    'exact real (complex) arithmetic; the factor is a number',
    'the sum of all groups is fixed by the amplitude and Lambda properties, '
    'so that the order in each amplitude determines every group']


def system(ctx, group, dims, kind):
    if group == 'g':
        return ccsys.GSys(ctx, *dims, kind=kind, L=True)
    if group == 'u':
        return ccsys.USys(ctx, *dims, kind=kind, L=True)
    return ccsys.RSys(ctx, *dims, kind=kind, L=True)


def offered(ctx, m, fn, acc, spec):
    """names under which the routine takes the arrays and the arguments;
    None if the package does not offer it in this form"""
    f = getattr(m, fn, None)
    try:
        p = set(inspect.signature(f).parameters)
    except (TypeError, ValueError):
        return None
    acc = acc.split()
    names = list(acc)
    for a in spec.split():
        names.append(next((k for k in KEYS.get(a, (a + 'old', a))
                           if k in p and k not in acc), a))
    if p != set(names) | {'fac'} or len(set(names)) != len(names):
        return None

    def call(arrays, args, copy=ctx.placed, **kw):
        """the arrays after the call"""
        out = [copy(x) for x in arrays]
        r = f(**dict(zip(names, list(out) + list(args))), **kw)
        if r is None:
            return out
        return list(r) if isinstance(r, (tuple, list)) else [r]
    return call


def collect(ctx, s, m, spec, scale=None):
    """arguments, with amplitudes scaled"""
    def amp(name):
        x = getattr(s, name)
        k = None if scale is None else \
            scale[{'T1': 0, 'T2': 1, 'L1': 2, 'L2': 3}[name[:2].upper()]]
        return x if k is None else remap(x, lambda y: y*k)
    out = []
    for a in spec.split():
        if a == 'intor':
            out.append(m.lambda_int(s.F, s.I, amp('T1'), amp('T2')))
        elif a[0] in 'TLtl':
            out.append(amp(a))
        else:
            out.append(getattr(s, a))
    return out


def adds(ctx, group, fn, acc, spec, order, dims, kind='f'):
    m = ctx.mod('cc_equations')
    f = offered(ctx, m, fn, acc, spec)
    if f is None:
        ctx.require_true('not offered in this form', True)
        return
    s = system(ctx, group, dims, kind)
    args = collect(ctx, s, m, spec)
    fac = ctx.real('fac')
    shapes = [getattr(s, a) for a in acc.split()]
    X = [ctx.tensor('X%d' % k, x.shape, kind) for k, x in enumerate(shapes)]
    w = ccsys.Watch(ctx)
    for k, a in enumerate(args):
        w.add('argument %d' % (k + 1), a)

    zero = [x*0 for x in X]
    unit = f(zero, args, lambda x: x.copy())
    w.check('the call')
    got = f(X, args, fac=fac)
    w.check('the call')
    for x, y, g in zip(X, unit, got):
        ctx.require('adds the factor times the terms', g, x + fac*y,
                    zero_ok=True)
    if order is not None:
        sc = [ctx.real('scale%d' % k) for k in range(4)]
        t = ctx.one
        for a, k in zip(sc, order):
            for _ in range(k):
                t = t*a
        if group == 'g':
            for y, g in zip(unit, f(zero, collect(ctx, s, m, spec, sc))):
                ctx.require('only terms of the stated order', g, t*y,
                            zero_ok=True)


def ladder(ctx, dims):
    """multiplier ladder terms against the amplitude ladder terms: both
    contract the same integrals, with upper and lower indices exchanged"""
    m = ctx.mod('cc_equations')
    fs = [offered(ctx, m, a, b, c) for a, b, c in (
        ('_LD_LD_ladder', 'L2', 'I L2'),
        ('_LD_LDTD_ladder', 'L2', 'I L2 T2'))]
    if None in fs:
        ctx.require_true('not offered in this form', True)
        return
    s = ccsys.GSys(ctx, *dims, L=True)
    zero = s.L2*0
    (a,), (b,) = fs[0]([zero], [s.I, s.L2]), fs[1]([zero], [s.I, s.L2, s.T2])
    no, nv = dims
    o, v = range(no), range(no, no + nv)
    I, L, T = ccsys.raw(s.If), ccsys.raw(s.L2), ccsys.raw(s.T2)
    ra = np.empty((no, no, nv, nv), dtype=object)
    rb = np.empty((no, no, nv, nv), dtype=object)
    half = ctx.one/2
    W = {}
    # <ij|kl> and <cd|ab> dressed by the doubles
    for i, j, k, l in np.ndindex(no, no, no, no):
        t = ctx.zero
        for c, d in np.ndindex(nv, nv):
            t = t + I[i, j, no + c, no + d]*T[c, d, k, l]
        W['o', i, j, k, l] = t*half
    for c, d, x, y in np.ndindex(nv, nv, nv, nv):
        t = ctx.zero
        for k, l in np.ndindex(no, no):
            t = t + I[k, l, no + x, no + y]*T[c, d, k, l]
        W['v', c, d, x, y] = t*half
    for i, j, x, y in np.ndindex(no, no, nv, nv):
        t = u = ctx.zero
        for c, d in np.ndindex(nv, nv):
            t = t + half*I[no + c, no + d, no + x, no + y]*L[i, j, c, d]
            u = u + half*W['v', c, d, x, y]*L[i, j, c, d]
        for k, l in np.ndindex(no, no):
            t = t + half*I[i, j, k, l]*L[k, l, x, y]
            u = u + half*W['o', i, j, k, l]*L[k, l, x, y]
        ra[i, j, x, y] = t
        rb[i, j, x, y] = u
    ctx.require('ladder terms of the multipliers', a, ctx.array(ra))
    ctx.require('ladder terms with doubles', b, ctx.array(rb))


def cases(tier):
    th = tier == 'thorough'
    out = []
    for group, tab, dims in (
            ('g', G, [(2, 2), (2, 3)] + ([(3, 2), (3, 3)] if th else [])),
            ('u', U, [(2, 1, 1, 2)] + ([(1, 2, 2, 1)] if th else [])),
            ('r', R, [(2, 1)] + ([(2, 2)] if th else []))):
        for fn, (acc, spec, order) in tab.items():
            for d in dims:
                for kind in ('fc' if d == dims[0] else 'f'):
                    out.append(Case('%s-%s%s' % (
                        fn.lstrip('_'), '-'.join(map(str, d)),
                        '-complex' if kind == 'c' else ''), adds, dict(
                            group=group, fn=fn, acc=acc, spec=spec,
                            order=order, dims=d, kind=kind)))
    for d in [(2, 2), (2, 3)] + ([(3, 3)] if th else []):
        out.append(Case('ladder-%d-%d' % d, ladder, dict(dims=d)))
    return out
