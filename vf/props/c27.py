"""Occupied/virtual blocks of a four-index tensor."""
import itertools

from ..runner import Case
from ..ccsys import raw

FUNCTIONS = ['ov_blocks.make_two_e_blocks',
             'ov_blocks.make_two_e_blocks_full', 'ov_blocks.one_e_blocks',
             'ov_blocks.two_e_blocks', 'ov_blocks.two_e_blocks_full']
BOUNDS = {'quick': 'each of the four indices with 0..3 occupied and '
          'virtual orbitals, 24 combinations, entries symbolic',
          'thorough': 'all 256 combinations of counts 1..2 and more',
          'outside': 'larger spaces'}
ASSUMPTIONS = ['none beyond the numpy model (entries are only moved)']
NINE = ('vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'oovv', 'vooo', 'ooov',
        'oooo')
ALL = [''.join(s) for s in itertools.product('ov', repeat=4)]


def split(ctx, name, dims):
    m = ctx.mod('ov_blocks')
    n = [dims[2*k] + dims[2*k + 1] for k in range(4)]
    I = ctx.tensor('I', n)
    w = ctx.snapshot(I)
    b = getattr(m, name)(I, *dims)
    full = name.endswith('full')
    r = raw(w)
    for s in (ALL if full else NINE):
        sl = tuple(slice(dims[2*k], None) if c == 'v' else
                   slice(0, dims[2*k]) for k, c in enumerate(s))
        ctx.require('block ' + s, getattr(b, s), w[sl])
    ctx.require('tensor unchanged', I, w)


def mismatch(ctx, name, dims, axis, d):
    """a tensor whose shape contradicts the counts is refused"""
    m = ctx.mod('ov_blocks')
    n = [dims[2*k] + dims[2*k + 1] for k in range(4)]
    n[axis] += d
    I = ctx.tensor('I', n)
    ctx.expect_raises('shape that contradicts the counts is refused',
                      lambda: getattr(m, name)(I, *dims))


def holders(ctx):
    m = ctx.mod('ov_blocks')
    v = {s: ctx.tensor(s, (1,)*4) for s in ALL}
    one = {s: ctx.tensor('f' + s, (1, 1)) for s in ('oo', 'ov', 'vo', 'vv')}
    b = m.one_e_blocks(one['oo'], one['ov'], one['vo'], one['vv'])
    for s in one:
        ctx.require('one-electron block ' + s, getattr(b, s), one[s])
    b = m.two_e_blocks(**{s: v[s] for s in NINE})
    for s in NINE:
        ctx.require('two-electron block ' + s, getattr(b, s), v[s])
    b = m.two_e_blocks_full(**v)
    for s in ALL:
        ctx.require('two-electron block ' + s, getattr(b, s), v[s])
    for s in NINE:
        b = m.two_e_blocks(**{s: v[s]})
        ctx.require_true('blocks not given are absent', all(
            (getattr(b, t) is None) == (t != s) for t in NINE))
    for s in ALL:
        b = m.two_e_blocks_full(**{s: v[s]})
        ctx.require_true('blocks not given are absent', all(
            (getattr(b, t) is None) == (t != s) for t in ALL))


def cases(tier):
    dl = [(1, 1)*4, (2, 1, 1, 2, 1, 1, 2, 2), (1, 2)*4, (2, 1)*4,
          (1, 2, 2, 1, 1, 2, 2, 1), (2, 1, 1, 2, 2, 1, 1, 2),
          (1, 1, 2, 1, 1, 2, 2, 2), (3, 1, 2, 2, 1, 3, 1, 1),
          (1, 3, 1, 1, 3, 1, 2, 1), (0, 2, 1, 1, 1, 1, 1, 1),
          (1, 1, 2, 0, 1, 1, 1, 1), (1, 1, 1, 1, 0, 2, 1, 1),
          (1, 1, 1, 1, 1, 1, 2, 0), (2, 3, 1, 1, 1, 2, 3, 1),
          (1, 1, 3, 2, 2, 1, 1, 3), (4, 3, 5, 1, 2, 4, 1, 6),
          (1, 6, 2, 3, 5, 2, 4, 1)]
    if tier == 'thorough':
        dl += [d for d in itertools.product((1, 2), repeat=8)
               if d not in dl]
    out = [Case('holders', holders, {})]
    for nm in ('make_two_e_blocks', 'make_two_e_blocks_full'):
        for d in dl:
            out.append(Case('%s-%s' % (nm[9:], '-'.join(map(str, d))), split,
                            dict(name=nm, dims=d)))
        for ax in range(4):
            for d in (-1, 1):
                out.append(Case('%s-mismatch-%d%+d' % (nm[9:], ax, d),
                                mismatch, dict(name=nm, dims=dl[1], axis=ax,
                                               d=d)))
    return out
