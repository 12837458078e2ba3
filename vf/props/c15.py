"""Single excitations of determinant strings."""
import numpy as np

from ..runner import Case
from .. import ci

FUNCTIONS = ['ci_utils.Dstring.__init__', 'ci_utils.Dstring.excite', 'ci_utils.Dstring.__eq__',
             'ci_utils.level', 'ci_utils.diff']
BOUNDS = {'quick': 'strings of 1..10 orbitals with symbolic occupations, '
          'every pair of orbitals; comparison of strings up to 8 orbitals; '
          'strings of 34, 70 and 300 orbitals with up to seven symbolic '
          'occupations',
          'thorough': 'up to 12 orbitals',
          'outside': 'longer strings'}
ASSUMPTIONS = ['occupations are the integers 0 and 1']


def occupation(ctx, name, n, free):
    """symbolic occupations; in long strings at the given orbitals only,
    the others follow a pattern"""
    if free is None:
        return ctx.tensor(name, (n,), 'b')
    x = ctx.tensor(name, (len(free),), 'b')
    pos = {k: x[j] for j, k in enumerate(free)}
    return ctx.array([pos.get(k, ctx.one*int(k % 3 == 0 or k % 7 == 2))
                      for k in range(n)], 'i')


def excite(ctx, n, i, a, free=None):
    m = ctx.mod('ci_utils')
    occ = occupation(ctx, 'occ', n, free)
    w = ctx.snapshot(occ)
    bits = [w[k] for k in range(n)]
    d = m.Dstring(n, occ)
    s, new = d.excite(i, a)
    ctx.require('original string unchanged', d.occ, w)
    r = ci.apply([('+', a), ('-', i)], bits, ctx.one)
    possible = bool(bits[i] == 1) and (i == a or bool(bits[a] == 0))
    if not possible:
        ctx.require_true('impossible excitation is refused',
                         s is None and new is None)
        return
    ctx.require_true('possible excitation is performed',
                     s is not None and new is not None)
    if new is None:
        return
    amp, occ2 = r
    ctx.require('sign', s, amp)
    ctx.require('new occupations', new.occ, ctx.array(occ2, 'i'))
    ctx.require_true('length', new.n == n)
    # and back
    s2, back = new.excite(a, i)
    ctx.require_true('de-excitation possible', back is not None)
    if back is not None:
        ctx.require('de-excitation restores the string', back.occ, w)
        ctx.require('de-excitation restores the sign', s*s2, ctx.one)


def compare(ctx, n, free=None):
    m = ctx.mod('ci_utils')
    x = occupation(ctx, 'x', n, free)
    y = occupation(ctx, 'y', n, free)
    X, Y = m.Dstring(n, x), m.Dstring(n, y)
    cnt = ctx.zero
    for k in range(n):
        cnt = cnt + x[k] + y[k] - 2*x[k]*y[k]
    ctx.require('number of differing orbitals', m.level(X, Y), cnt)
    ctx.require('number of differing orbitals', m.diff(X, Y), cnt)
    eq = X == Y
    ctx.require_true('equal exactly when all occupations agree',
                     bool(eq) == bool(cnt == 0))
    Z = m.Dstring(n, ctx.snapshot(x))
    ctx.require_true('a string equals its copy', bool(X == Z))


def lengths(ctx, n, k):
    """a string of n occupations declared to have k orbitals"""
    m = ctx.mod('ci_utils')
    x = ctx.tensor('x', (n,), 'b')
    if n != k:
        ctx.expect_raises('wrong number of orbitals is refused',
                          lambda: m.Dstring(k, x))
        return
    d = m.Dstring(k, x)
    ctx.require('occupations are kept', d.occ, x)
    e = m.Dstring(k, [x[i] for i in range(n)])
    ctx.require('occupations may be a list', e.occ, x)
    ctx.require_true('list and array give the same string', bool(d == e))
    y = ctx.tensor('y', (n + 1,), 'b')
    ctx.require_true('strings of different length differ',
                     not bool(d == m.Dstring(n + 1, y)))


def cases(tier):
    ns = [1, 2, 3, 4, 6, 8, 10] if tier == 'quick' else \
        [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]
    out = []
    for n in ns:
        for i in range(n):
            for a in range(n):
                if n > 8 and not {i, a} & {0, 1, n//2, n - 1}:
                    continue
                out.append(Case('excite-%d-%d-%d' % (n, i, a), excite,
                                dict(n=n, i=i, a=a)))
        for k in (n - 1, n, n + 1):
            if n <= 4:
                out.append(Case('length-%d-%d' % (n, k), lengths,
                                dict(n=n, k=k)))
        if n <= 8 or tier != 'quick':
            out.append(Case('compare-%d' % n, compare, dict(n=n)))
    for n, pairs in ((34, ((0, 33), (33, 32), (31, 1))),
                     (70, ((0, 69), (69, 0), (3, 66), (65, 64), (2, 5))),
                     (300, ((0, 299), (270, 130)))):
        for i, a in pairs:
            free = sorted({i, a, 0, n//2, 31, 32, n - 1})
            out.append(Case('excite-%d-%d-%d' % (n, i, a), excite,
                            dict(n=n, i=i, a=a, free=free)))
        out.append(Case('compare-%d' % n, compare, dict(
            n=n, free=[0, n//2, 31, n - 1])))
    return out
