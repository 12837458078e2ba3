"""Boson strings and vibrational CI bases."""
from ..runner import Case

FUNCTIONS = ['ci_utils.Pstring.__init__', 'ci_utils.Pstring.raize', 'ci_utils.Pstring.lower',
             'ci_utils.Pstring.__eq__', 'ci_utils.s_pstrings',
             'ci_utils.d_pstrings', 'ci_utils.vcis_basis',
             'ci_utils.vcisd_basis']
BOUNDS = {'quick': 'strings of 1..4 modes with symbolic quanta up to a '
          'million; bases '
          'of 0..6 modes, the distribution looked for is symbolic',
          'thorough': 'strings up to 6 modes, bases up to 10 modes',
          'outside': 'more modes'}
HIGH = 10**6
ASSUMPTIONS = ['quanta are non-negative integers']


def ladder(ctx, n, p):
    m = ctx.mod('ci_utils')
    occ = ctx.tensor('occ', (n,), 'i', lo=0, hi=HIGH)
    w = ctx.snapshot(occ)
    s = m.Pstring(n, occ)
    up = s.raize(p)
    exp = [w[k] + (1 if k == p else 0) for k in range(n)]
    ctx.require('quanta after raising', up.occ, ctx.array(exp, 'i'))
    ctx.require_true('number of modes', up.n == n)
    ctx.require('original string unchanged', s.occ, w)
    ctx.require('argument unchanged', occ, w)
    back = up.lower(p)
    ctx.require_true('a raised mode can be lowered', back is not None)
    if back is not None:
        ctx.require('lowering undoes raising', back.occ, w)
        ctx.require_true('lowering undoes raising', bool(back == s))
    ctx.require_true('raised string differs', not bool(up == s))
    dn = s.lower(p)
    if bool(w[p] == 0):
        ctx.require_true('lowering an empty mode is refused', dn is None)
    else:
        ctx.require_true('lowering a filled mode works', dn is not None)
        if dn is not None:
            exp = [w[k] - (1 if k == p else 0) for k in range(n)]
            ctx.require('quanta after lowering', dn.occ,
                        ctx.array(exp, 'i'))
    ctx.require('original string unchanged', s.occ, w)


def equal(ctx, n):
    m = ctx.mod('ci_utils')
    x = ctx.tensor('x', (n,), 'i', lo=0, hi=HIGH)
    y = ctx.tensor('y', (n,), 'i', lo=0, hi=HIGH)
    same = all([bool(x[k] == y[k]) for k in range(n)])
    eq = bool(m.Pstring(n, x) == m.Pstring(n, y))
    ctx.require_true('equal exactly when all quanta agree', eq == same)


def lengths(ctx, n, k):
    m = ctx.mod('ci_utils')
    x = ctx.tensor('x', (n,), 'i', lo=0, hi=HIGH)
    if n != k:
        ctx.expect_raises('wrong number of modes is refused',
                          lambda: m.Pstring(k, x))
        return
    d = m.Pstring(k, x)
    ctx.require('quanta are kept', d.occ, x)
    y = ctx.tensor('y', (n + 1,), 'i', lo=0, hi=HIGH)
    ctx.require_true('strings of different length differ',
                     not bool(d == m.Pstring(n + 1, y)))


def basis(ctx, name, n, lo, hi):
    m = ctx.mod('ci_utils')
    bas = getattr(m, name)(n)
    ok = all(hasattr(b, 'occ') for b in bas)
    ctx.require_true('every entry is a string', ok)
    if not ok:
        return
    occs = [[int(v) for v in b.occ] for b in bas]
    ctx.require_true('every string has all modes',
                     all(len(o) == n and b.n == n
                         for o, b in zip(occs, bas)))
    if lo == 0:
        ctx.require_true('the vacuum comes first', not any(occs[0]))
    x = [ctx.integer('x[%d]' % k, 0, hi + 1) for k in range(n)]
    tot = ctx.zero
    for v in x:
        tot = tot + v
    inside = bool(tot <= hi) and bool(tot >= lo)
    # where the distribution is listed
    cnt = 0
    for o in occs:
        hit = True
        for k in range(n):
            if not bool(x[k] == o[k]):
                hit = False
                break
        cnt += hit
    ctx.require_true('each distribution of the quanta once, nothing else',
                     cnt == (1 if inside else 0))


def cases(tier):
    th = tier == 'thorough'
    out = []
    for n in range(1, 7 if th else 5):
        for p in range(n):
            out.append(Case('ladder-%d-%d' % (n, p), ladder,
                            dict(n=n, p=p)))
        out.append(Case('equal-%d' % n, equal, dict(n=n)))
        for k in (n - 1, n, n + 1):
            if n <= 3:
                out.append(Case('length-%d-%d' % (n, k), lengths,
                                dict(n=n, k=k)))
    for n in range(1, 8 if th else 6):
        for nm, lo, hi in (('s_pstrings', 1, 1), ('d_pstrings', 2, 2),
                           ('vcis_basis', 0, 1), ('vcisd_basis', 0, 2)):
            out.append(Case('%s-%d' % (nm, n), basis,
                            dict(name=nm, n=n, lo=lo, hi=hi)))
    return out
