"""Second-quantised reference ("oracle") for coupled-cluster quantities.

Works directly on Slater determinants encoded as bit masks; shares no formula
with the package under test.  Scalars may be polynomials or floats.
"""
from fractions import Fraction
from itertools import combinations


def popcount_below(d, p):
    return bin(d & ((1 << p) - 1)).count('1')


def annihilate(d, p):
    if not (d >> p) & 1:
        return 0, 0
    return (-1 if popcount_below(d, p) & 1 else 1), d & ~(1 << p)


def create(d, p):
    if (d >> p) & 1:
        return 0, 0
    return (-1 if popcount_below(d, p) & 1 else 1), d | (1 << p)


def apply_string(d, ops):
    """ops: list of (p, dagger) applied right to left.  -> (sign, det)"""
    s = 1
    for p, dag in reversed(ops):
        t, d = create(d, p) if dag else annihilate(d, p)
        if not t:
            return 0, 0
        s *= t
    return s, d


class Acc(object):
    """Accumulates linear combinations of determinants."""

    def __init__(self):
        self.d = {}

    def add(self, det, c):
        o = self.d.get(det)
        self.d[det] = c if o is None else o + c


def nz(c):
    """Structurally nonzero (exact zero constants are skipped)."""
    num = getattr(c, 'num', None)
    if num is not None:
        return bool(num)
    return not (c == 0)


def one_body_ops(h, n):
    return [(h[p, q], [(p, True), (q, False)])
            for p in range(n) for q in range(n) if nz(h[p, q])]


def two_body_ops(I, n):
    """antisymmetrised I: 1/4 sum I_pqrs p+ q+ s r = sum over unique pairs."""
    out = []
    for p, q in combinations(range(n), 2):
        for r, s in combinations(range(n), 2):
            if nz(I[p, q, r, s]):
                out.append((I[p, q, r, s],
                            [(p, True), (q, True), (s, False), (r, False)]))
    return out


def apply_ops(ops, vec, keep=None):
    acc = {}
    for det, c in vec.items():
        for coef, string in ops:
            s, e = apply_string(det, string)
            if not s or (keep is not None and e not in keep):
                continue
            t = c*coef
            if s < 0:
                t = -t
            o = acc.get(e)
            acc[e] = t if o is None else o + t
    return {d: c for d, c in acc.items() if nz(c)}


def scale(vec, f):
    return {d: c*f for d, c in vec.items()}


def add(u, v):
    r = dict(u)
    for d, c in v.items():
        r[d] = r[d] + c if d in r else c
    return r


def exp_apply(ops, vec, sign=1, maxorder=20, keep=None):
    """exp(sign*T) vec"""
    out = dict(vec)
    term = dict(vec)
    for k in range(1, maxorder + 1):
        term = apply_ops(ops, term, keep)
        if not term:
            return out
        term = scale(term, Fraction(sign, k))
        out = add(out, term)
    return out


def fscale(x):
    """Fractions times floats are fine in Python, kept for clarity."""
    return x


def t_ops(T1, T2, occ, vir):
    """cluster operator from T1[a,i], T2[a,b,i,j] (local indices)."""
    ops = []
    if T1 is not None:
        for a, A in enumerate(vir):
            for i, I in enumerate(occ):
                if nz(T1[a, i]):
                    ops.append((T1[a, i], [(A, True), (I, False)]))
    if T2 is not None:
        for a, b in combinations(range(len(vir)), 2):
            for i, j in combinations(range(len(occ)), 2):
                if nz(T2[a, b, i, j]):
                    ops.append((T2[a, b, i, j],
                                [(vir[a], True), (vir[b], True),
                                 (occ[j], False), (occ[i], False)]))
    return ops


def level(d, ref):
    return bin(ref & ~d).count('1')


class CC(object):
    """Coupled-cluster quantities for spin orbitals, the first `no` occupied.

      r            e^-T H_N e^T |0>, up to double excitations
      lam(...)     d/dt_mu  of  <0|(1 + L) e^-T H_N e^T|0>
      dF(p, q)     d/dF_pq  of  <0|(tfac + L) e^-T H_N e^T|0>
      dI(p,q,r,s)  the same for the antisymmetrised integral I_pqrs
    """

    def __init__(self, F, I, T1, T2, no, n, zero, order=None):
        occ, vir = list(range(no)), list(range(no, n))
        self.no, self.n, self.zero = no, n, zero
        self.occ, self.vir = occ, vir
        ref = (1 << no) - 1
        self.ref = ref
        self.tops = t_ops(T1, T2, occ, vir)
        self.hops = None
        if I is not None:
            # H_N = F_pq {p+ q} + 1/4 I {p+ q+ s r}: plain strings with
            # h = F - sum_i I_piqi and the reference value subtracted
            h = {}
            for p in range(n):
                for q in range(n):
                    x = F[p, q] if F is not None else zero
                    for i in occ:
                        x = x - I[p, i, q, i]
                    h[p, q] = x
            e0 = zero
            for i in occ:
                if F is not None:
                    e0 = e0 + F[i, i]
                for j in occ:
                    e0 = e0 - I[i, j, i, j]*Fraction(1, 2)
            self.e0 = e0
            self.hops = one_body_ops(h, n) + two_body_ops(I, n)
        self.psi = exp_apply(self.tops, {ref: Fraction(1)})
        self._r = None

    @property
    def r(self):
        if self._r is None:
            ref, zero, psi = self.ref, self.zero, self.psi
            w, acc = {}, {}
            for det, c in psi.items():
                for coef, string in self.hops:
                    s, e = apply_string(det, string)
                    if not s or level(e, ref) > 2:
                        continue
                    t = coef*c
                    acc.setdefault(e, []).append(t if s > 0 else -t)
            for e, ts in acc.items():
                w[e] = sum_list(ts, zero)
            for det, c in psi.items():
                if level(det, ref) <= 2:
                    w[det] = w.get(det, zero) - self.e0*c
            self._r = exp_apply_down(self.tops, w, ref, zero)
        return self._r

    def linear(self):
        """<mu|H + [H, T]|0>: the part of the residual up to first order in
        T (reference vector, replaces r)."""
        ref, zero = self.ref, self.zero
        acc = {}

        def ham(vec, sgn):
            for det, c in vec.items():
                for coef, string in self.hops:
                    s, e = apply_string(det, string)
                    if s and level(e, ref) <= 2:
                        t = coef*c
                        acc.setdefault(e, []).append(t if s*sgn > 0 else -t)
                if level(det, ref) <= 2:
                    t = self.e0*c
                    acc.setdefault(det, []).append(-t if sgn > 0 else t)
        one = {ref: Fraction(1)}
        ham(one, 1)
        ham(apply_ops(self.tops, one), 1)
        # - T H |0>
        h0 = {}
        for coef, string in self.hops:
            s, e = apply_string(ref, string)
            if s and level(e, ref) <= 2:
                h0.setdefault(e, []).append(coef if s > 0 else -coef)
        h0 = {e: sum_list(ts, zero) for e, ts in h0.items()}
        h0[ref] = h0.get(ref, zero) - self.e0
        for e, c in apply_ops(self.tops, h0).items():
            if level(e, ref) <= 2:
                acc.setdefault(e, []).append(-c)
        self._r = {e: sum_list(ts, zero) for e, ts in acc.items()}
        return self

    def energy(self):
        return self.r.get(self.ref, self.zero)

    def _det(self, a, i):
        return apply_string(self.ref, [(self.vir[a], True),
                                       (self.occ[i], False)])

    def _det2(self, a, b, i, j):
        return apply_string(self.ref, [
            (self.vir[a], True), (self.vir[b], True),
            (self.occ[j], False), (self.occ[i], False)])

    def single(self, a, i):
        s, d = self._det(a, i)
        x = self.r.get(d, self.zero)
        return x if s > 0 else -x

    def double(self, a, b, i, j):
        s, d = self._det2(a, b, i, j)
        if not s:
            return self.zero
        x = self.r.get(d, self.zero)
        return x if s > 0 else -x

    # -- the left-hand state <0|(tfac + L) e^-T

    def bra(self, L1, L2, tfac=1):
        zero, ref = self.zero, self.ref
        nv = len(self.vir)
        b = {ref: zero + tfac}
        if L1 is not None:
            for i in range(self.no):
                for a in range(nv):
                    s, d = self._det(a, i)
                    if nz(L1[i, a]):
                        b[d] = L1[i, a] if s > 0 else -L1[i, a]
        for i, j in combinations(range(self.no), 2):
            for a, c in combinations(range(nv), 2):
                s, d = self._det2(a, c, i, j)
                x = L2[i, j, a, c]
                if nz(x):
                    b[d] = x if s > 0 else -x
        adj = [(c, [(p, not dag) for p, dag in reversed(st)])
               for c, st in self.tops]
        self.b = exp_apply(adj, b, sign=-1)
        self._g = None
        self._gam = {}
        return self

    def norm(self):
        return sum_list([c*self.psi[d] for d, c in self.b.items()
                         if d in self.psi], self.zero)

    def expect(self, string):
        """<0|(tfac+L)e^-T string e^T|0>"""
        ts = []
        for d, c in self.psi.items():
            s, e = apply_string(d, string)
            if s and e in self.b:
                t = self.b[e]*c
                ts.append(t if s > 0 else -t)
        return sum_list(ts, self.zero)

    def gamma(self, p, q):
        k = (p, q)
        if k not in self._gam:
            self._gam[k] = self.expect([(p, True), (q, False)])
        return self._gam[k]

    def dF(self, p, q):
        x = self.gamma(p, q)
        if p == q and p < self.no:
            x = x - self.norm()
        return x

    def dI(self, p, q, r, s):
        if p == q or r == s:
            return self.zero
        x = self.expect([(p, True), (q, True), (s, False), (r, False)])
        no = self.no
        for u, v, sg in ((p, q, 1), (q, p, -1)):
            for w, z, sh in ((r, s, 1), (s, r, -1)):
                if v == z and v < no:
                    g = self.gamma(u, w)
                    x = x - g if sg*sh > 0 else x + g
        # reference energy + 1/2 sum_ij I_ijij
        if max(p, q, r, s) < no and {p, q} == {r, s}:
            x = x + self.norm() if (p, q) == (r, s) else x - self.norm()
        return x

    def _left_h(self):
        """row vector <0|(1+L)e^-T H_N"""
        if self._g is None:
            acc = {}
            adj = [(c, [(p, not dag) for p, dag in reversed(st)])
                   for c, st in self.hops]
            for d, c in self.b.items():
                for coef, string in adj:
                    s, e = apply_string(d, string)
                    if s:
                        t = coef*c
                        acc.setdefault(e, []).append(t if s > 0 else -t)
                t = self.e0*c
                acc.setdefault(d, []).append(-t)
            self._g = {e: sum_list(ts, self.zero) for e, ts in acc.items()}
            w = {}
            for det, c in self.psi.items():
                for coef, string in self.hops:
                    s, e = apply_string(det, string)
                    if not s or level(e, self.ref) > 1:
                        continue
                    t = coef*c
                    w.setdefault(e, []).append(t if s > 0 else -t)
                if level(det, self.ref) <= 1:
                    w.setdefault(det, []).append(-(self.e0*c))
            self._w = {e: sum_list(ts, self.zero) for e, ts in w.items()}
        return self._g, self._w

    def _lam(self, string):
        g, w = self._left_h()
        ts = []
        for d, c in self.psi.items():
            s, e = apply_string(d, string)
            if s and e in g:
                t = g[e]*c
                ts.append(t if s > 0 else -t)
        for d, c in w.items():
            s, e = apply_string(d, string)
            if s and e in self.b:
                t = self.b[e]*c
                ts.append(-t if s > 0 else t)
        return sum_list(ts, self.zero)

    def lam1(self, i, a):
        return self._lam([(self.vir[a], True), (self.occ[i], False)])

    def lam2(self, i, j, a, b):
        if i == j or a == b:
            return self.zero
        return self._lam([(self.vir[a], True), (self.vir[b], True),
                          (self.occ[j], False), (self.occ[i], False)])


def sum_list(ts, zero):
    """Sum many terms (polynomials are summed into one dictionary)."""
    if ts and hasattr(ts[0], 'num'):
        from .poly import Poly
        from math import gcd
        den = 1
        for t in ts:
            if hasattr(t, 'den') and den % t.den:
                den = den//gcd(den, t.den)*t.den
        d = {}
        deg = 0
        for t in ts:
            t = Poly.const(t)
            f = den//t.den
            deg = max(deg, t.deg)
            for m, c in t.num.items():
                s = d.get(m, 0) + c*f
                if s:
                    d[m] = s
                else:
                    d.pop(m, None)
        return Poly(d, den if d else 1, deg)
    r = zero
    for t in ts:
        r = r + t
    return r


def exp_apply_down(tops, vec, ref, zero):
    """exp(-T) vec, keeping at most double excitations."""
    out = dict(vec)
    term = dict(vec)
    for k in range(1, 5):
        acc = {}
        for det, c in term.items():
            for coef, string in tops:
                s, e = apply_string(det, string)
                if not s or level(e, ref) > 2:
                    continue
                t = coef*c
                acc.setdefault(e, []).append(t if s < 0 else -t)
        term = {e: sum_list(ts, zero)*Fraction(1, k)
                for e, ts in acc.items()}
        if not term:
            break
        for e, c in term.items():
            out[e] = out[e] + c if e in out else c
    return out
