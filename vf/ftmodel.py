"""Model of exp, log and rounding for the finite-temperature checks.

exp   exp(p) is written through one generator U = exp(-|q|) <= 1 per argument
      q, so that exp(q), exp(-q), exp(2q) ... are powers of U or of 1/U and
      cancel algebraically.  exp overflows to inf above 709.78 and underflows
      to 0 below -745.13.
log   log of a product is the sum of the logs of its factors (log U = -|q|);
      what remains is an atom with the inequalities of log(1+d) and bounds
      from interval arithmetic.  log(0) = -inf, log(negative) = nan.
+, -  every sum or difference that involves exp, log or a quotient of them is
      multiplied by a rounding factor within 2^-52 of one; so is every log.
      Multiplication, division and exp are taken as exact, and so are sums of
      plain inputs.
1/p   common factors are inverted one by one; the rest is an atom w with
      w*p = 1.

Comparisons are decided (forked) as soon as they are made.
"""
from contextlib import contextmanager
from decimal import Decimal, getcontext
import sys
from fractions import Fraction

from . import poly as P
from . import paths
from .poly import Poly, VARS, mono_items, Unsupported
from .paths import EX, SBool, atom, to_z3, zvar, z3

sys.set_int_max_str_digits(0)
OVER = Fraction('709.78')
UNDER = Fraction('-745.13')
ULP = Fraction(1, 2**52)


# ------------------------------------------------------------ state

class State(object):
    pass


S = State()


def digits():
    # the decimal context belongs to the thread, so it is set on every use
    getcontext().prec = 60


def reset():
    digits()
    S.gens = []        # (|q| poly, U vid)
    S.logs = []        # (A poly, vid)
    S.inv = {}         # vid of 1/p -> p
    S.bnd = {}         # vid -> (lo, hi)
    S.rnd = {}
    S.facts = {}       # vid -> polynomials that are >= 0
    S.cache = {}
    P.UNITS[:] = []
    paths._atom_cache.clear()


def install():
    reset()
    P.set_round(rounded)
    P.HOOKS.update(exp=exp, log=log, log1p=log1p, expm1=expm1,
                   inverse=inverse, abs=absolute, cmp=compare, tanh=tanh)
    EX.axiom_source = axioms


@contextmanager
def exact():
    old = P.ROUND
    P.set_round(None)
    try:
        yield
    finally:
        P.set_round(old)


# ------------------------------------------------------------ intervals

def dexp(x, up):
    """Rational bound on exp(x)."""
    d = (Decimal(x.numerator)/Decimal(x.denominator)).exp()
    f = Fraction(d)
    return f*(1 + Fraction(1, 10**40)) if up else f*(1 - Fraction(1, 10**40))


def dlog(x, up):
    d = (Decimal(x.numerator)/Decimal(x.denominator)).ln()
    f = Fraction(d)
    e = abs(f)*Fraction(1, 10**40) + Fraction(1, 10**50)
    return f + e if up else f - e


def short(x, up, bits=80):
    """Nearby rational with a short representation."""
    if x == 0:
        return x
    n, d = x.numerator, x.denominator
    k = abs(n).bit_length() - d.bit_length() - bits
    if k >= 0:
        s = Fraction(2**k)
    else:
        s = Fraction(1, 2**(-k))
    q = x/s
    f = q.numerator//q.denominator
    if up and f != q:
        f += 1
    return f*s


def imul(a, b):
    c = []
    for x in a:
        for y in b:
            if x is None or y is None:
                return None
            c.append(x*y)
    return min(c), max(c)


def interval(p):
    """(lo, hi) of a polynomial over the bounds of its variables."""
    lo = hi = Fraction(0)
    for m, c in p.num.items():
        t = (Fraction(c, p.den),)*2
        for v, e in mono_items(m):
            b = S.bnd.get(v)
            if b is None or b[0] is None or b[1] is None:
                return None
            if b[0] >= 0:
                b = (b[0]**e, b[1]**e)
            elif e % 2 == 0:
                big = max(abs(b[0]), abs(b[1]))**e
                b = (Fraction(0), big)
            else:
                b = (b[0]**e, b[1]**e)
            t = imul(t, b)
        lo += t[0]
        hi += t[1]
    return lo, hi


# ------------------------------------------------------------ variables

def make_unit(v, bounds=None):
    """Gives variable v (nonzero) an inverse w that cancels against it."""
    w = P.BYNAME.get(v.name + '^-1')
    if w is None:
        w = P.new_var(v.name + '^-1', 'real')
    w.origin = ('inv', (Poly.var(v),))
    w.deps = (v.vid,)
    P.UNITS.append((v.vid, w.vid))
    b = S.bnd.get(v.vid)
    lin = []
    if b is not None and b[0] is not None and b[0] > 0:
        ib = (1/b[1] if b[1] is not None else Fraction(0), 1/b[0])
        S.bnd[w.vid] = ib
        lin = [ib]

    def defs():
        z, zw = zvar(v), zvar(w)
        out = [z*zw == 1]
        if lin:
            out += [zw >= z3.RealVal(str(short(lin[0][0], False))),
                    zw <= z3.RealVal(str(short(lin[0][1], True)))]
        return out
    w.defs = defs
    return w


def unit_inverse(vid):
    for a, b in P.UNITS:
        if a == vid:
            return b
        if b == vid:
            return a
    return None


def rounded(a, b, sgn):
    s = a._exact_addsub(b, sgn)
    if len(s.num) < 2 or not any(is_atom(v) for v in s.vids()):
        return s
    return s*rounding(('sum', s.key()))


def is_atom(v):
    o = VARS[v].origin
    return o is not None and o[0] in ('exp', 'log', 'inv', 'ilog', 'rnd') \
        and not (o[0] == 'inv' and VARS[v].deps and
                 all(VARS[d].origin is None for d in VARS[v].deps))


def rounding(key):
    p = S.rnd.get(key)
    if p is None:
        v = P.new_var('r!%d' % len(VARS), 'real')
        v.origin = ('rnd', (P.ONE,))
        lo, hi = 1 - ULP, 1 + ULP
        S.bnd[v.vid] = (lo, hi)
        v.defs = lambda: [zvar(v) >= z3.RealVal(str(lo)),
                          zvar(v) <= z3.RealVal(str(hi))]
        w = make_unit(v)
        wlo, whi = 1 - 2*ULP, 1 + 2*ULP
        S.bnd[w.vid] = (wlo, whi)
        # linear bounds are enough; products cancel algebraically
        w.defs = lambda: [zvar(w) >= z3.RealVal(str(wlo)),
                          zvar(w) <= z3.RealVal(str(whi))]
        p = S.rnd[key] = Poly.var(v)
    return p


# ------------------------------------------------------------ factoring

def content(p):
    """p = c * (monomial of units and inverses) * rest; returns
    ([(vid, exponent)], rest) with the constant left in rest."""
    if not p.num:
        return [], p
    units = set()
    for a, b in P.UNITS:
        units.add(a)
        units.add(b)
    units.update(S.inv)
    com = None
    for m in p.num:
        d = {v: e for v, e in mono_items(m) if v in units}
        if com is None:
            com = d
        else:
            com = {v: min(e, d[v]) for v, e in com.items() if v in d}
        if not com:
            break
    com = sorted((com or {}).items())
    # units of which some terms carry the inverse: multiply through
    extra = []
    shift = 0
    for v, e in com:
        shift += e*VARS[v].mono
    num = {m - shift: c for m, c in p.num.items()}
    q = Poly(num, p.den, p.deg)
    for a, b in P.UNITS:
        fb = max(((m >> (P.EXPBITS*b)) & P.MAXDEG) for m in q.num)
        if fb and len(q.num) > 1:
            q = q*_pow(a, fb)
            extra.append((b, fb))
    return com + extra, q


def _pow(vid, e):
    r = P.ONE
    for _ in range(e):
        r = r*Poly.var(VARS[vid])
    return r


def clear_inv(p):
    """a + b*w with w = 1/q  ->  [(w, 1)], a*q + b."""
    out = []
    with exact():
        for w in list(S.inv):
            v = VARS[w]
            while any((m >> (P.EXPBITS*w)) & P.MAXDEG for m in p.num):
                b = {}
                a = {}
                for m, c in p.num.items():
                    if (m >> (P.EXPBITS*w)) & P.MAXDEG:
                        b[m - v.mono] = c
                    else:
                        a[m] = c
                q = S.inv[w]
                p = Poly(a, p.den, p.deg)*q + Poly(b, p.den, p.deg) if a \
                    else Poly(b, p.den, p.deg)
                out.append((w, 1))
    return out, p


def inverse(d):
    if compare('eq', d):
        raise ZeroDivisionError('float division by zero')
    com, rest = content(d)
    r = P.ONE
    for v, e in com:
        if v in S.inv:
            q = S.inv[v]
            for _ in range(e):
                r = r*q
        else:
            r = r*_pow(unit_inverse(v), e)
    if rest.is_const():
        return r*(1/rest.const_value())
    # scale so that equal denominators share an atom
    m0 = min(rest.num)
    c = Fraction(rest.num[m0], rest.den)
    rest = rest*(1/c)
    return r*inv_atom(rest)*(1/c)


def inv_atom(q):
    b = interval(q)

    def defs(w):
        out = [w*to_z3(q) == 1]
        if b is not None and b[0] > 0:
            out += [w >= z3.RealVal(str(short(1/b[1], False))),
                    w <= z3.RealVal(str(short(1/b[0], True)))]
        return out
    p = atom('inv', (q,), 'real', defs)
    vid = p.vids()[0]
    if vid not in S.inv:
        S.inv[vid] = q
        if b is not None and b[0] > 0:
            S.bnd[vid] = (1/b[1], 1/b[0])
    return p


# ------------------------------------------------------------ exp

def linear_ratio(p, q):
    """k with p = k*q, else None."""
    if len(p.num) != len(q.num):
        return None
    k = None
    for m, c in p.num.items():
        d = q.num.get(m)
        if d is None:
            return None
        r = Fraction(c, p.den)/Fraction(d, q.den)
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def power(p):
    """exp(p) without overflow, as a polynomial."""
    if p.is_const():
        c = p.const_value()
        if c == 0:
            return P.ONE
        return const_atom('exp', c)
    if 0 in p.num:
        # exp(q + c) = exp(q) exp(c)
        c = Fraction(p.num[0], p.den)
        with exact():
            return power(p - c)*const_atom('exp', c)
    for q, u in S.gens:
        k = linear_ratio(p, q)
        if k is not None and k.denominator == 1:
            k = int(k)
            return _pow(u, -k) if k < 0 else _pow(unit_inverse(u), k)
    # logarithms inside: exp(log A) = A
    lid = {vid: A for A, vid in S.logs}
    lin = [(m, c) for m, c in p.num.items() if len(mono_items(m)) == 1 and
           mono_items(m)[0][0] in lid and mono_items(m)[0][1] == 1 and
           Fraction(c, p.den).denominator == 1]
    if lin:
        m, c = lin[0]
        k = int(Fraction(c, p.den))
        A = lid[mono_items(m)[0][0]]
        with exact():
            rest = power(p - Poly({m: c}, p.den, 1))
            f = A if k > 0 else inverse(A)
            for _ in range(abs(k)):
                rest = rest*f
        return rest
    if len(p.num) > 1 and any(is_atom(v) for v in p.vids()):
        raise Unsupported('exponential of a rounded expression')
    neg = compare('lt', p)
    q = -p if neg else p
    b = interval(q)
    lo = max(b[0], Fraction(0)) if b else Fraction(0)
    u = P.new_var('U!%d' % len(VARS), 'real')
    u.origin = ('exp', (-q,))
    u.deps = tuple(q.vids())
    hi = dexp(-lo, True) if lo else Fraction(1)
    low = dexp(-b[1], False) if b and b[1] <= 1000 else Fraction(0)
    S.bnd[u.vid] = (low, hi)
    zq = to_z3(q)

    def defs():
        z = zvar(u)
        out = [z > 0, z >= z3.RealVal(str(short(low, False))),
               z <= z3.RealVal(str(short(hi, True))),
               # tangents of exp(-q)
               z >= 1 - zq]
        pts = {lo}
        if b:
            pts.add(b[1])
        for c in pts:
            if c > 1000:
                continue
            e0 = short(dexp(-c, False), False)
            out.append(z >= z3.RealVal(str(e0))*(1 + to_z3(c) - zq))
        if b and b[1] - lo <= 4:
            # chord
            e1, e2 = dexp(-lo, True), dexp(-b[1], True)
            if b[1] > lo:
                out.append(z <= z3.RealVal(str(short(e1, True))) + (
                    zq - to_z3(lo))*z3.RealVal(str(
                        short((e2 - e1)/(b[1] - lo), True))))
        return out
    u.defs = defs
    with exact():
        pu = Poly.var(u)
        ge = [pu - 1 + q]
        for c in {lo} | ({b[1]} if b else set()):
            if c <= 1000:
                ge.append(pu - short(dexp(-c, False), False)*(1 + c - q))
        if b and lo < b[1] <= lo + 4:
            e1, e2 = dexp(-lo, True), dexp(-b[1], True)
            ge.append(short(e1, True) + (q - lo)*short(
                (e2 - e1)/(b[1] - lo), True) - pu)
    S.facts[u.vid] = ge
    for g, uv in S.gens:
        k = linear_ratio(q, g)
        if k is not None and k.numerator in (1, 2, 3) and k.denominator <= 4:
            n, d = k.numerator, k.denominator
            old = defs

            def defs(old=old, n=n, d=d, uv=uv):
                z, y = zvar(u), zvar(VARS[uv])
                a = z
                for _ in range(d - 1):
                    a = a*z
                c = y
                for _ in range(n - 1):
                    c = c*y
                return old() + [a == c]
            u.defs = defs
    make_unit(u)
    S.gens.append((q, u.vid))
    return Poly.var(u) if neg else Poly.var(VARS[unit_inverse(u.vid)])


def const_atom(op, c):
    """exp(c) or log(c) of a rational constant."""
    f = dexp if op == 'exp' else dlog
    lo, hi = f(c, False), f(c, True)

    def defs(w):
        return [w >= z3.RealVal(str(short(lo, False, 120))),
                w <= z3.RealVal(str(short(hi, True, 120)))]
    p = atom('c' + op, (c,), 'real', defs)
    v = VARS[p.vids()[0]]
    if v.vid not in S.bnd:
        S.bnd[v.vid] = (lo, hi)
        v.origin = (op, (Poly.const(c),))
        if op == 'exp':
            make_unit(v)
    return p


def exp(p):
    if p.is_const():
        c = p.const_value()
        if c == 0:
            return P.ONE
    if compare('gt', p._exact_addsub(Poly.const(OVER), -1)):
        return float('inf')
    if compare('lt', p._exact_addsub(Poly.const(UNDER), -1)):
        return 0.0
    return power(p)


def expm1(p):
    e = exp(p)
    if isinstance(e, float):
        return e - 1
    return e._exact_addsub(P.ONE, -1)


def tanh(p):
    """(1 - e)/(1 + e) with e = exp(-2|p|)."""
    if compare('lt', p):
        return -tanh(-p)
    with exact():
        e = exp(-2*p)
        if isinstance(e, float):
            return 1.0
        return (1 - e)*inverse(1 + e)


# ------------------------------------------------------------ log

def log(p):
    return log_rounded(p)


def log1p(p):
    return log_rounded(p._exact_addsub(P.ONE, 1))


def log_rounded(p):
    if compare('lt', p):
        return float('nan')
    if compare('eq', p):
        return float('-inf')
    with exact():
        r = log_exact(p)
    if r.is_const():
        return r
    if not any(is_atom(v) for v in r.vids()):
        return r
    return r*rounding(('log', p.key()))


def log_exact(p):
    """log of a positive polynomial as a sum of atoms."""
    if p.is_const():
        c = p.const_value()
        return P.ZERO if c == 1 else const_atom('log', c)
    k = p.key()
    hit = S.cache.get(k)
    if hit is not None:
        return hit
    invs, rest = clear_inv(p)
    com, rest = content(rest)
    out = P.ZERO
    for v, e in com + invs:
        if v in S.inv:
            out = out - e*log_exact(S.inv[v])
        else:
            out = out + e*log_unit(v)
    if rest.is_const():
        c = rest.const_value()
        if c != 1:
            out = out + const_atom('log', c)
    else:
        m0 = min(rest.num)
        c = Fraction(rest.num[m0], rest.den)
        if c < 0:
            c = -c
        rest = rest*(1/c)
        if c != 1:
            out = out + const_atom('log', c)
        # log of 1/(rest) and rest share the atom by construction
        out = out + log_atom(rest)
    S.cache[k] = out
    return out


def log_unit(v):
    var = VARS[v]
    for q, u in S.gens:
        if u == v:
            return -q
        if unit_inverse(u) == v:
            return q
    for a, b in P.UNITS:
        if b == v:
            return -log_unit(a)
    if var.origin is not None and var.origin[0] == 'rnd':
        w = unit_inverse(v)

        def defs(z):
            return [z >= 1 - zvar(VARS[w]), z <= zvar(var) - 1,
                    z >= z3.RealVal(str(-2*ULP)), z <= z3.RealVal(str(2*ULP))]
        p = atom('ilog', (Poly.var(var),), 'real', defs)
        x = VARS[p.vids()[0]]
        x.origin = ('log', (Poly.var(var),))
        S.bnd[x.vid] = (-2*ULP, 2*ULP)
        return p
    return log_atom(Poly.var(var))


def log_atom(A):
    zA = to_z3(A)
    b = interval(A)

    def defs(w):
        d = zA - 1
        out = [w <= d, z3.Implies(d >= 0, z3.And(w >= d - d*d/2, w >= 0)),
               zA*(1 - w) <= 1]
        if len(A.num) <= 3:
            out.append(w <= d - d*d/2 + d*d*d/3)
        if b is not None and b[0] > 0:
            out += [w >= z3.RealVal(str(short(dlog(b[0], False), False))),
                    w <= z3.RealVal(str(short(dlog(b[1], True), True)))]
        return out
    p = atom('log', (A,), 'real', defs)
    vid = p.vids()[0]
    if vid not in S.bnd:
        if b is not None and b[0] > 0:
            S.bnd[vid] = (dlog(b[0], False), dlog(b[1], True))
        else:
            S.bnd[vid] = None
        S.logs.append((A, vid))
        lw = Poly.var(VARS[vid])
        with exact():
            d = A - 1
            ge = [d - lw, 1 - A + A*lw]
            if len(A.num) <= 3:
                ge.append(d - d*d*Fraction(1, 2) + d*d*d*Fraction(1, 3) - lw)
            if b is not None and b[0] >= 1:
                ge.append(lw - d + d*d*Fraction(1, 2))
        S.facts[vid] = ge
    return p


def axioms(vids):
    """log A - log B <= A/B - 1 for every pair of logarithms in a query."""
    here = [(A, v) for A, v in S.logs if v in vids]
    out = []
    for i, (A, v) in enumerate(here):
        for B, w in here[i + 1:]:
            zA, zB, a, b = to_z3(A), to_z3(B), zvar(VARS[v]), zvar(VARS[w])
            out += [zB*(a - b) <= zA - zB, zA*(b - a) <= zB - zA]
    return out


# ------------------------------------------------------------ branches

def compare(op, d):
    b = interval(d) if d.num else None
    if b is not None:
        lo, hi = b
        if lo > 0 or hi < 0:
            return {'lt': hi < 0, 'le': hi < 0, 'gt': lo > 0, 'ge': lo > 0,
                    'eq': False, 'ne': True}[op]
        if op == 'lt' and lo >= 0 or op == 'gt' and hi <= 0:
            return False
        if op == 'ge' and lo >= 0 or op == 'le' and hi <= 0:
            return True
    r = paths._cmp(op, d)
    return bool(r) if isinstance(r, SBool) else r


def absolute(p):
    return -p if compare('lt', p) else p


# ------------------------------------------------------------ relaxation

def sound(b):
    return short(b[0], False), short(b[1], True)


def relaxed(claims, conds):
    """Tries to refute each polynomial inequality (p > 0) of `claims` in
    linear arithmetic over its monomials.  Every monomial M is a variable
    that is tied to each of its divisors N in the query by
    lo*N <= M <= hi*N, where [lo, hi] encloses M/N.  The constraints are
    consequences of the definitions, so unsat is a proof.  Returns
    (proved, model or None)."""
    from .solver import check
    vids = set()
    for p in claims:
        vids.update(p.vids())
    todo = list(vids)
    while todo:
        v = todo.pop()
        for d in VARS[v].deps:
            if d not in vids:
                vids.add(d)
                todo.append(d)
        for f in S.facts.get(v, ()):
            for d in f.vids():
                if d not in vids:
                    vids.add(d)
                    todo.append(d)
    eqs, ges = [], []
    with exact():
        for v in vids:
            ges += S.facts.get(v, [])
        monos = set()
        for p in claims + ges:
            monos.update(p.num)
        for w in S.inv:
            if w not in vids:
                continue
            q = S.inv[w]
            pw = Poly.var(VARS[w])
            eqs.append(pw*q - 1)
            for m in list(monos):
                if (m >> (P.EXPBITS*w)) & P.MAXDEG:
                    r = Poly({m - VARS[w].mono: 1}, 1, P.MAXDEG)
                    if len(mono_items(m)) > 1:
                        try:
                            eqs.append(r*q*pw - r)
                        except Unsupported:
                            pass
    for p in eqs:
        monos.update(p.num)
    for v in vids:
        monos.add(VARS[v].mono)
    monos.discard(0)
    zm = {0: z3.RealVal(1)}
    for m in monos:
        it = mono_items(m)
        if len(it) == 1 and it[0][1] == 1:
            zm[m] = zvar(VARS[it[0][0]])
        else:
            zm[m] = z3.Real('mono!%d' % m)

    def lin(p):
        ts = [z3.RealVal(str(Fraction(c, p.den)))*zm[m]
              for m, c in p.num.items()]
        return z3.Sum(*ts) if ts else z3.RealVal(0)
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 20000)
    for p in eqs:
        s.add(lin(p) == 0)
    for p in ges:
        s.add(lin(p) >= 0)
    items = {m: dict(mono_items(m)) for m in monos}
    items[0] = {}
    ivs = {m: interval(Poly({m: 1}, 1, 1)) if m else (Fraction(1),)*2
           for m in items}
    for m in monos:
        for n in items:
            if n == m or (ivs[n] is None):
                continue
            dm, dn = items[m], items[n]
            if any(dm.get(v, 0) < e for v, e in dn.items()):
                continue
            b = interval(Poly({m - n: 1}, 1, 1))
            if b is None:
                continue
            lo, hi = sound(b)
            lo, hi = z3.RealVal(str(lo)), z3.RealVal(str(hi))
            if ivs[n][0] >= 0:
                s.add(zm[m] >= lo*zm[n], zm[m] <= hi*zm[n])
            elif ivs[n][1] <= 0:
                s.add(zm[m] <= lo*zm[n], zm[m] >= hi*zm[n])
    for c in conds:
        if linear(c):
            s.add(c)
    for p in claims:
        s.push()
        s.add(lin(p) > 0)
        r = check(s)
        mod = s.model() if r == z3.sat else None
        s.pop()
        if r != z3.unsat:
            return False, mod
    return True, None


def linear(z):
    todo = [z]
    while todo:
        e = todo.pop()
        if z3.is_mul(e) and sum(not z3.is_rational_value(c)
                                for c in e.children()) > 1:
            return False
        if z3.is_div(e) or z3.is_idiv(e) or z3.is_mod(e) or \
                e.decl().kind() == z3.Z3_OP_POWER or z3.is_to_real(e):
            return False
        todo.extend(e.children())
    return True


# ------------------------------------------------------------ witnesses

def witnesses(ctx):
    """Full assignments (as z3 equalities) that are expected to satisfy the
    current path: a few positions of the energies, exact values of exp and
    log to 50 digits, no rounding."""
    from .runner import Env
    for k in range(1, 8):
        vals = {}
        for name, (kind, lo, hi) in ctx.decl.items():
            if kind == 'int':
                vals[name] = '0'
            elif name.startswith('x'):
                hi = min(hi, lo + 40) if lo >= 0 else hi
                lo = max(lo, hi - 40)
                vals[name] = str(lo + (hi - lo)*Fraction(
                    (5*k + len(vals)) % 8*7 + 4, 64))
            else:
                vals[name] = {'beta': '1', 'mu': '1/2'}[name]
        env = PreciseEnv(vals, ctx.decl)
        eqs = []
        try:
            for v in VARS:
                if v.kind in ('real', 'int') and v.z is not None:
                    x = Fraction(env[v.vid])
                    eqs.append(v.z == (z3.IntVal(int(x)) if v.kind == 'int'
                                       else z3.RealVal(str(x))))
        except (ArithmeticError, KeyError, ValueError):
            continue
        yield z3.And(*eqs)


# ------------------------------------------------------------ harness side

class PreciseEnv(object):
    def __init__(self, vals, decl):
        self.v = {}
        for name in decl:
            self.v[P.BYNAME[name].vid] = Fraction(vals[name])

    def __getitem__(self, vid):
        if vid not in self.v:
            op, a = VARS[vid].origin
            e = a[0].evaluate(self)
            if op == 'inv':
                r = 1/e
            elif op == 'exp':
                r = Fraction(_dec(e).exp())
            elif op == 'log':
                d = e - 1
                r = Fraction(_dec(e).ln()) if abs(d) > Fraction(1, 10**18) \
                    else d - d*d/2 + d*d*d/3
            elif op == 'rnd':
                r = Fraction(1)
            else:
                raise KeyError(op)
            self.v[vid] = r
        return self.v[vid]


def precise(Env):
    class E(Env):
        def __init__(self, vals, decl):
            Env.__init__(self, vals, decl)
            self.p = PreciseEnv(vals, decl)

        def __getitem__(self, vid):
            return self.p[vid]
    return E


class Level(object):
    """Inputs beta, mu, epsilon with beta*(epsilon - mu) in [lo, hi] and the
    exact quantities of that level.  On the real side everything is computed
    from the floating-point inputs with 60 digits."""

    def __init__(self, ctx, beta, mu, lo, hi, tag='', integer=False):
        self.ctx = ctx
        digits()
        if ctx.mode == 'sym':
            lo, hi = Fraction(lo), Fraction(hi)
            x = ctx.real('x' + tag, lo, hi)
            S.bnd[x.vids()[0]] = (lo, hi)
            b = beta.vids()[0]
            binv = Poly.var(VARS[unit_inverse(b)])
            with exact():
                if integer:
                    n = ctx.integer('n' + tag, -3, 3)
                    self.eps = n
                    self.mu = n - x*binv
                else:
                    self.eps = mu + x*binv
                self.x = x
                self.measure(x)
        else:
            x = ctx.real('x' + tag, lo, hi)
            if integer:
                n = ctx.integer('n' + tag, -3, 3)
                self.eps = n
                self.mu = n - x/beta
            else:
                self.mu = mu
                self.eps = mu + x/beta
            self.refresh(beta, self.mu)

    def scaled(self, k):
        """The level at k times beta*(epsilon - mu)."""
        import copy
        r = copy.copy(self)
        if self.ctx.mode == 'sym':
            with exact():
                r.measure(self.x*k)
        return r

    def measure(self, x):
        b = interval(x)
        self.neg = b[1] <= 0
        a = -x if self.neg else x
        U = power(-a) if b[1] > 0 or b[0] < 0 else P.ONE
        w = inverse(1 + U)
        el = log_exact(1 + U)
        self.f, self.v = (w, U*w) if self.neg else (U*w, w)
        self.omega = x - el if self.neg else -el
        self.deriv = el + a*U*w

    def refresh(self, beta, mu):
        """Exact quantities from the numbers actually passed on."""
        D = Decimal
        x = D(beta)*(D(self.eps) - D(mu))
        a = abs(x)
        U = (-a).exp()
        w = 1/(1 + U)
        el = (1 + U).ln() if U > D('1e-30') else U - U*U/2
        self.neg = x < 0
        self.f, self.v = (w, U*w) if self.neg else (U*w, w)
        self.omega = x - el if self.neg else -el
        self.deriv = el + a*U*w


def beta_mu(ctx):
    beta = ctx.real('beta', Fraction(1, 1000), 1000)
    mu = ctx.real('mu', -10, 10)
    if ctx.mode == 'sym':
        v = VARS[beta.vids()[0]]
        S.bnd[v.vid] = (Fraction(1, 1000), Fraction(1000))
        make_unit(v)
    return beta, mu


def close(ctx, label, got, scale, truth, tol, floor):
    """|got*scale - truth| <= tol*|truth| + floor, got finite."""
    digits()
    tol, floor = Fraction(tol), Fraction(floor)
    if ctx.mode == 'sym':
        if isinstance(got, float) and (got != got or abs(got) == float('inf')):
            ctx.require_true(label, False)
            return
        with exact():
            a = Poly.const(got)
            for s in scale:
                a = a*s
            t = truth[1]*truth[0]
            ctx.require_close(label, a, truth[0],
                              t*tol + floor)
    else:
        g = float(got)
        if g != g or abs(g) == float('inf'):
            ctx.require_true(label, False, 'value %r' % g)
            return
        a = Decimal(g)
        for s in scale:
            a = a*Decimal(s)
        t = truth[0]
        ctx.require_close(label, a, t, abs(t)*_dec(tol) + _dec(floor))


def _dec(f):
    return Decimal(f.numerator)/Decimal(f.denominator)


def regions(step=2, top=40):
    """Intervals that cover the whole line (up to +-1e6)."""
    pts = [0] + list(range(step, top + 1, step)) + [60, 100, 200, 400, 600,
                                                   700]
    pts = [Fraction(p) for p in pts] + [Fraction('708.3'), OVER, -UNDER,
                                        Fraction(1000), Fraction(10)**6]
    out = []
    for a, b in zip(pts, pts[1:]):
        out.append((a, b))
        out.append((-b, -a))
    return out


def levels(ctx, regs, integer=False):
    """beta, mu, exact levels and the vector of energies.  With integer
    energies the first level fixes mu and the others follow from it."""
    beta, mu = beta_mu(ctx)
    if not integer:
        Ls = [Level(ctx, beta, mu, lo, hi, str(i))
              for i, (lo, hi) in enumerate(regs)]
        return beta, mu, Ls, ctx.array([L.eps for L in Ls], 'f')
    Ls = [Level(ctx, beta, mu, regs[0][0], regs[0][1], '0', integer=True)]
    mu = Ls[0].mu
    return beta, mu, Ls, ctx.array([L.eps for L in Ls], 'i')


def vectors(tier):
    """Named combinations of intervals for the vector forms."""
    m, p, z = (-60, -40), (40, 60), (-2, 0)
    a, b = (-26, -22), (22, 26)
    c, d = (4, 6), (-8, -6)
    out = [('tails', [m, p, z], False), ('mixed', [c, a, p], False),
           ('reverse', [p, z, m], False), ('inner', [c, d, z], False),
           ('one', [c], False), ('near', [b, a], False),
           ('extreme', [(1000, 2000), (-2000, -1000), c], False)]
    for n, r in (('m', m), ('p', p), ('z', z), ('a', a), ('b', b), ('c', c)):
        out.append(('integer-' + n, [r], True))
    if tier == 'thorough':
        al = [m, p, z, a, b, c, d]
        for i, x in enumerate(al):
            for j, y in enumerate(al):
                out.append(('pair-%d-%d' % (i, j), [x, y], False))
    return out
