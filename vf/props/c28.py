"""Block-diagonal matrices and energy denominators."""
from ..runner import Case
from ..ccsys import raw, fill1, fill4

FUNCTIONS = ['utils.block_diag', 'utils.D1', 'utils.D2', 'utils.D2u']
BOUNDS = {'quick': 'matrix shapes 0..4 by 0..4 (40 combinations), real, '
          'complex, integer; energy vectors of length 0..4',
          'thorough': 'all shapes up to 4 and lengths up to 5',
          'outside': 'larger sizes'}
ASSUMPTIONS = ['exact arithmetic']


def blocks(ctx, a, b, kinds):
    m = ctx.mod('utils')
    A = ctx.tensor('A', a, kinds[0])
    B = ctx.tensor('B', b, kinds[1])
    sa, sb = ctx.snapshot(A), ctx.snapshot(B)
    M = m.block_diag(A, B)
    ra, rb = raw(sa), raw(sb)

    def el(i, j):
        if i < a[0] and j < a[1]:
            return ra[i, j]
        if i >= a[0] and j >= a[1]:
            return rb[i - a[0], j - a[1]]
        return ctx.zero
    ctx.require('block-diagonal matrix', M,
                ctx.array(fill1(el, a[0] + b[0], a[1] + b[1]), 'c' if 'c' in
                          kinds else 'f'))
    ctx.require('first block unchanged', A, sa, zero_ok=True)
    ctx.require('second block unchanged', B, sb, zero_ok=True)


def denominators(ctx, nv, no, nvb, nob, kind='f'):
    m = ctx.mod('utils')
    ev, eo = ctx.tensor('ev', (nv,), kind), ctx.tensor('eo', (no,), kind)
    evb, eob = ctx.tensor('evb', (nvb,), kind), ctx.tensor('eob', (nob,),
                                                           kind)
    sn = [ctx.snapshot(x) for x in (ev, eo, evb, eob)]
    v, o, vb, ob = [raw(x) for x in sn]
    A = lambda x: ctx.array(x, kind)
    ctx.require('singles denominators', m.D1(ev, eo),
                A(fill1(lambda a, i: v[a] - o[i], nv, no)))
    ctx.require('doubles denominators', m.D2(ev, eo),
                A(fill4(lambda a, b, i, j: v[a] + v[b] - o[i] - o[j],
                        nv, nv, no, no)))
    ctx.require('mixed-spin doubles denominators', m.D2u(ev, evb, eo, eob),
                A(fill4(lambda a, b, i, j: v[a] + vb[b] - o[i] - ob[j],
                        nv, nvb, no, nob)))
    for x, s in zip((ev, eo, evb, eob), sn):
        ctx.require('energies unchanged', x, s, zero_ok=True)


def cases(tier):
    out = []
    sh = [((1, 1), (1, 1)), ((2, 3), (1, 2)), ((3, 2), (2, 1)),
          ((2, 2), (3, 3)), ((4, 1), (1, 4)), ((1, 4), (4, 1)),
          ((3, 1), (2, 4)), ((0, 2), (2, 1)), ((2, 1), (0, 3)),
          ((2, 0), (1, 2)), ((1, 2), (2, 0)), ((6, 5), (3, 8)),
          ((1, 9), (9, 1)), ((10, 2), (2, 12))]
    if tier == 'thorough':
        r = range(1, 5)
        sh += [((a, b), (c, d)) for a in r for b in r for c in r for d in r]
    for a, b in sh:
        for k in ('ff', 'cc', 'fc', 'cf', 'ii', 'if'):
            out.append(Case('block-%dx%d-%dx%d-%s' % (a + b + (k,)), blocks,
                            dict(a=a, b=b, kinds=k)))
    ds = [(1, 1, 1, 1), (2, 1, 1, 2), (1, 3, 2, 2), (3, 2, 1, 1),
          (2, 2, 3, 1), (4, 2, 1, 3), (0, 2, 1, 1), (2, 1, 0, 2), (7, 3, 2, 6),
          (2, 9, 6, 1), (1, 2, 9, 3)]
    if tier == 'thorough':
        ds += [(5, 3, 2, 4), (2, 5, 4, 1), (3, 3, 3, 3)]
    for d in ds:
        for k in 'fi':
            out.append(Case('denominators-%d-%d-%d-%d-%s' % (d + (k,)),
                            denominators, dict(zip(
                                ('nv', 'no', 'nvb', 'nob', 'kind'),
                                d + (k,)))))
    return out
