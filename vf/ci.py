"""Second-quantised operators on occupation-number strings whose occupations
may be symbolic bits (Jordan-Wigner signs)."""
from . import poly as P


def is_const(x):
    return not hasattr(x, 'num') or x.is_const()


def cval(x):
    return int(x.const_value()) if hasattr(x, 'num') else int(x)


def red(p):
    """x*x = x for 0/1 variables"""
    if not hasattr(p, 'num'):
        return p
    out = {}
    deg = 0
    for m, c in p.num.items():
        k, d = 0, 0
        for v, e in P.mono_items(m):
            var = P.VARS[v]
            if var.kind == 'bit':
                e = 1
            k += e*var.mono
            d += e
        t = out.get(k, 0) + c
        if t:
            out[k] = t
            deg = max(deg, d)
        else:
            out.pop(k, None)
    return P.Poly(out, p.den if out else 1, deg)


def apply(ops, occ, one):
    """ops: [(kind, orbital)] applied right to left ('+' creates, '-'
    annihilates).  Returns (amplitude, occupations) or None if zero."""
    occ = list(occ)
    amp = one
    flips = {}
    for kind, p in reversed(ops):
        n = occ[p]
        if is_const(n):
            if cval(n) == (1 if kind == '+' else 0):
                return None
        else:
            amp = red(amp*((1 - n) if kind == '+' else n))
        for j in range(p):
            m = occ[j]
            if is_const(m):
                if cval(m) == 1:
                    amp = -amp
            elif j in flips:
                del flips[j]
            else:
                flips[j] = m
        occ[p] = 1 if kind == '+' else 0
    for m in flips.values():
        amp = red(amp*(1 - 2*m))
    return amp, occ


def overlap(bra, ket, amp):
    """amp * <bra|ket> for occupation lists"""
    for b, k in zip(bra, ket):
        if b is k:
            continue
        if is_const(b) and is_const(k):
            if cval(b) != cval(k):
                return None
            continue
        if is_const(b):
            b, k = k, b
        if is_const(k):
            amp = red(amp*(b if cval(k) else (1 - b)))
        else:
            amp = red(amp*(1 - b - k + 2*b*k))
    return amp


def element(bra, ket, ops, one):
    """<bra| ops |ket>, or None when it vanishes identically"""
    # quick exclusion: net change per orbital must match where both known
    net = {}
    for kind, p in ops:
        net[p] = net.get(p, 0) + (1 if kind == '+' else -1)
    for j, (b, k) in enumerate(zip(bra, ket)):
        if is_const(b) and is_const(k):
            if cval(b) - cval(k) != net.get(j, 0):
                return None
        elif b is k and net.get(j, 0) != 0:
            return None
    r = apply(ops, ket, one)
    if r is None:
        return None
    amp, occ = r
    return overlap(bra, occ, amp)


def settle(ctx, bra, ket):
    """Decide for every orbital whether bra and ket agree there; where they
    agree both use the same (possibly symbolic) occupation."""
    b2, k2 = [], []
    for b, k in zip(bra, ket):
        if is_const(b) and is_const(k):
            b2.append(cval(b))
            k2.append(cval(k))
        elif bool(b == k):
            b2.append(k)
            k2.append(k)
        elif bool(b > k):
            b2.append(1)
            k2.append(0)
        else:
            b2.append(0)
            k2.append(1)
    return b2, k2


def hamiltonian(bra, ket, h, I, ctx):
    """<bra| sum h_pq p+ q + 1/2 sum I_pqrs p+ q+ s r |ket> over spin
    orbitals; h, I are callables returning an entry or None."""
    n = len(ket)
    plus = [j for j in range(n) if bra[j] is not ket[j] and
            is_const(bra[j]) and is_const(ket[j]) and
            cval(bra[j]) > cval(ket[j])]
    minus = [j for j in range(n) if bra[j] is not ket[j] and
             is_const(bra[j]) and is_const(ket[j]) and
             cval(bra[j]) < cval(ket[j])]
    r = ctx.zero
    if len(plus) != len(minus) or len(plus) > 2:
        return r
    half = ctx.const(1)/2
    for p in range(n):
        for q in range(n):
            if not (set(plus) - {p}) and not (set(minus) - {q}):
                e = h(p, q)
                if e is None:
                    continue
                m = element(bra, ket, [('+', p), ('-', q)], ctx.one)
                if m is not None:
                    r = r + e*m
    for p in range(n):
        for q in range(n):
            if p == q or set(plus) - {p, q}:
                continue
            for s in range(n):
                for t in range(n):
                    if s == t or set(minus) - {s, t}:
                        continue
                    if len(plus) == 0 and {p, q} != {s, t}:
                        continue
                    e = I(p, q, s, t)
                    if e is None:
                        continue
                    m = element(bra, ket, [('+', p), ('+', q), ('-', t),
                                           ('-', s)], ctx.one)
                    if m is not None:
                        r = r + half*(e*m)
    return r
