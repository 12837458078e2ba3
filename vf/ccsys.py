"""Inputs and expected values shared by the coupled-cluster harnesses."""
import numpy as np

from . import fock


def obj(shape):
    return np.empty(shape, dtype=object)


# ------------------------------------------------------------- block objects

def sl(c, no):
    return slice(0, no) if c == 'o' else slice(no, None)


def one_blocks(ctx, F, no):
    """The package's container for the four blocks of a one-body matrix.
    Every block is a separate array, as an application would build it."""
    m = ctx.mod('ov_blocks')
    return m.one_e_blocks(ctx.placed(F[:no, :no]), ctx.placed(F[:no, no:]),
                          ctx.placed(F[no:, :no]), ctx.placed(F[no:, no:]))


NINE = ('vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'oovv', 'vooo', 'ooov',
        'oooo')
ALL16 = tuple(a + b + c + d for a in 'ov' for b in 'ov' for c in 'ov'
              for d in 'ov')


def two_blocks(ctx, I, nos, full=False):
    """nos: number of occupied orbitals on each of the four axes."""
    m = ctx.mod('ov_blocks')
    if isinstance(nos, int):
        nos = (nos,)*4
    names = ALL16 if full else NINE
    kw = {b: ctx.placed(I[tuple(sl(c, k) for c, k in zip(b, nos))])
          for b in names}
    return (m.two_e_blocks_full if full else m.two_e_blocks)(**kw)


class Watch(object):
    """Remembers arrays handed to the package; afterwards checks that their
    contents are unchanged."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []

    def add(self, name, x):
        if x is None:
            return x
        if isinstance(x, (tuple, list)):
            for k, y in enumerate(x):
                self.add('%s[%d]' % (name, k), y)
        elif isinstance(x, np.ndarray):
            self.items.append((name, x, self.ctx.snapshot(x)))
        elif hasattr(x, '__dict__'):
            for k, y in sorted(vars(x).items()):
                self.add('%s.%s' % (name, k), y)
        return x

    def check(self, what):
        for name, x, s in self.items:
            self.ctx.require('%s leaves %s unchanged' % (what, name), x, s,
                             zero_ok=True)


# ------------------------------------------------------------- spin orbitals

class GSys(object):
    """Spin-orbital system: general F, antisymmetric I, amplitudes."""

    def __init__(self, ctx, no, nv, kind='f', L=False, t1=True, F=True):
        n = no + nv
        self.no, self.nv, self.n = no, nv, n
        # types of integrals, amplitudes and multipliers
        kh, kt, kl = kind if len(kind) == 3 else kind*3
        self.Ff = ctx.tensor('F', (n, n), kh) if F else None
        self.If = ctx.antisym('I', n, n, kh)
        self.T1 = ctx.tensor('T1', (nv, no), kt) if t1 else None
        self.T2 = ctx.antisym('T2', nv, no, kt)
        if L:
            self.L1 = ctx.tensor('L1', (no, nv), kl) if t1 else None
            self.L2 = ctx.antisym('L2', no, nv, kl)
        self.F = one_blocks(ctx, self.Ff, no) if F else None
        self.I = two_blocks(ctx, self.If, no)

    def cc(self, ctx, t1=True):
        return fock.CC(raw(self.Ff), raw(self.If),
                       raw(self.T1) if t1 else None, raw(self.T2),
                       self.no, self.n, ctx.zero)


def raw(a):
    """Plain object/number array for element access by the oracle."""
    return None if a is None else np.asarray(a).view(np.ndarray)


def fill1(fn, n1, n2):
    a = obj((n1, n2))
    for i in range(n1):
        for j in range(n2):
            a[i, j] = fn(i, j)
    return a


def fill4(fn, *shape):
    a = obj(shape)
    for ix in np.ndindex(*shape):
        a[ix] = fn(*ix)
    return a


def fill4anti(fn, n1, n2):
    """fn evaluated for ordered pairs, the rest by antisymmetry."""
    a = obj((n1, n1, n2, n2))
    z = None
    for p in range(n1):
        for q in range(n1):
            for r in range(n2):
                for s in range(n2):
                    if p < q and r < s:
                        x = fn(p, q, r, s)
                        a[p, q, r, s] = x
                        a[q, p, s, r] = x
                        a[q, p, r, s] = -x
                        a[p, q, s, r] = -x
                    elif p == q or r == s:
                        a[p, q, r, s] = 0
    return a


# ------------------------------------------------------------- alpha / beta

class USys(object):
    """Unrestricted system.  Spin orbitals are ordered
    occ alpha, occ beta, vir alpha, vir beta."""

    def __init__(self, ctx, noa, nva, nob, nvb, kind='f', L=False):
        self.d = (noa, nva, nob, nvb)
        na, nb = noa + nva, nob + nvb
        self.na, self.nb = na, nb
        self.Fa = ctx.tensor('Fa', (na, na), kind)
        self.Fb = ctx.tensor('Fb', (nb, nb), kind)
        self.Ia = ctx.antisym('Ia', na, na, kind)
        self.Ib = ctx.antisym('Ib', nb, nb, kind)
        self.Iab = ctx.tensor('Iab', (na, nb, na, nb), kind)
        self.T1a = ctx.tensor('T1a', (nva, noa), kind)
        self.T1b = ctx.tensor('T1b', (nvb, nob), kind)
        self.T2aa = ctx.antisym('T2aa', nva, noa, kind)
        self.T2bb = ctx.antisym('T2bb', nvb, nob, kind)
        self.T2ab = ctx.tensor('T2ab', (nva, nvb, noa, nob), kind)
        if L:
            self.L1a = ctx.tensor('L1a', (noa, nva), kind)
            self.L1b = ctx.tensor('L1b', (nob, nvb), kind)
            self.L2aa = ctx.antisym('L2aa', noa, nva, kind)
            self.L2bb = ctx.antisym('L2bb', nob, nvb, kind)
            self.L2ab = ctx.tensor('L2ab', (noa, nob, nva, nvb), kind)
        self.has_l = L
        self.setup(ctx)

    def setup(self, ctx):
        noa, nva, nob, nvb = self.d
        self.Fab = one_blocks(ctx, self.Fa, noa)
        self.Fbb = one_blocks(ctx, self.Fb, nob)
        self.Iaa_b = two_blocks(ctx, self.Ia, noa)
        self.Ibb_b = two_blocks(ctx, self.Ib, nob)
        self.Iab_b = two_blocks(ctx, self.Iab, (noa, nob, noa, nob),
                                full=True)
        self.t1 = (self.T1a, self.T1b)
        self.t2 = (self.T2aa, self.T2ab, self.T2bb)
        if self.has_l:
            self.l1 = (self.L1a, self.L1b)
            self.l2 = (self.L2aa, self.L2ab, self.L2bb)
        self.oracle(ctx)

    def oracle(self, ctx):
        noa, nva, nob, nvb = self.d
        z = ctx.zero
        no = noa + nob
        # position of spin orbital (spin, p) in the oracle order
        self.pos = {}
        for p in range(noa):
            self.pos['a', p] = p
        for p in range(nob):
            self.pos['b', p] = noa + p
        for p in range(nva):
            self.pos['a', noa + p] = no + p
        for p in range(nvb):
            self.pos['b', nob + p] = no + nva + p
        inv = {v: k for k, v in self.pos.items()}
        n = len(inv)
        self.n, self.no, self.nv = n, no, n - no
        F1 = {'a': raw(self.Fa), 'b': raw(self.Fb)}
        ff = obj((n, n))
        for P in range(n):
            for Q in range(n):
                (s, p), (t, q) = inv[P], inv[Q]
                ff[P, Q] = F1[s][p, q] if s == t else z
        I2 = {'a': raw(self.Ia), 'b': raw(self.Ib)}
        iab = raw(self.Iab)
        ii = obj((n,)*4)
        for ix in np.ndindex(n, n, n, n):
            ii[ix] = self.spin4([inv[k] for k in ix], I2, iab, z)
        self.Fso, self.Iso = ff, ii
        lv = {k: v for k, v in inv.items()}

        def loc(k, vir):
            """oracle index -> (spin, local occupied/virtual index)"""
            s, p = lv[k]
            return (s, p - ({'a': noa, 'b': nob}[s] if vir else 0))
        nv = n - no
        oc = [loc(k, False) for k in range(no)]
        vi = [loc(no + k, True) for k in range(nv)]
        self.oc, self.vi = oc, vi

        def two(aa, bb, ab, L, R):
            d = {'a': raw(aa), 'b': raw(bb)}
            out = obj((len(L), len(L), len(R), len(R)))
            for ix in np.ndindex(*out.shape):
                out[ix] = self.spin4([L[ix[0]], L[ix[1]], R[ix[2]],
                                      R[ix[3]]], d, raw(ab), z)
            return out

        def one(a, b, L, R):
            d = {'a': raw(a), 'b': raw(b)}
            out = obj((len(L), len(R)))
            for i, (s, p) in enumerate(L):
                for j, (t, q) in enumerate(R):
                    out[i, j] = d[s][p, q] if s == t else z
            return out
        self.T1so = one(self.T1a, self.T1b, vi, oc)
        self.T2so = two(self.T2aa, self.T2bb, self.T2ab, vi, oc)
        if self.has_l:
            self.L1so = one(self.L1a, self.L1b, oc, vi)
            self.L2so = two(self.L2aa, self.L2bb, self.L2ab, oc, vi)

    @staticmethod
    def spin4(l, same, ab, z):
        """antisymmetrised element <pq||rs> from the three spin blocks."""
        (s1, p), (s2, q), (s3, r), (s4, t) = l
        if s1 == s2 == s3 == s4:
            return same[s1][p, q, r, t]
        if s1 == s2 or s3 == s4:
            return z
        sg = 1
        if s1 == 'b':
            p, q, sg = q, p, -sg
        if s3 == 'b':
            r, t, sg = t, r, -sg
        x = ab[p, q, r, t]
        return x if sg > 0 else -x

    def cc(self, ctx):
        return fock.CC(self.Fso, self.Iso, self.T1so, self.T2so, self.no,
                       self.n, ctx.zero)

    # local (spin, index) -> oracle index among occupied / virtual
    def o(self, s, i):
        return i + (self.d[0] if s == 'b' else 0)

    def v(self, s, a):
        return a + (self.d[1] if s == 'b' else 0)

    def g(self, s, c, i):
        """full oracle index of occupied ('o') or virtual ('v') i of spin s"""
        return self.o(s, i) if c == 'o' else self.no + self.v(s, i)

    def dim(self, s, c):
        return self.d[{'a': 0, 'b': 2}[s] + (0 if c == 'o' else 1)]


class RSys(USys):
    """Restricted system: spatial F, I (I_pqrs = I_qpsr), T1, T2, L1, L2 with
    the pair symmetry; the spin blocks follow from them."""

    def __init__(self, ctx, no, nv, kind='f', L=False, hermitian=False):
        n = no + nv
        self.d = (no, nv, no, nv)
        self.na = self.nb = n
        self.F = ctx.tensor('F', (n, n), kind)
        self.I = ctx.pairsym('I', n, kind)
        self.T1 = ctx.tensor('T1', (nv, no), kind)
        self.T2 = pair4(ctx, 'T2', nv, no, kind)
        if L:
            self.L1 = ctx.tensor('L1', (no, nv), kind)
            self.L2 = pair4(ctx, 'L2', no, nv, kind)
        self.has_l = L
        self.Fa = self.Fb = self.F
        self.Iab = self.I
        self.Ia = self.Ib = anti(self.I)
        self.T1a = self.T1b = self.T1
        self.T2ab = self.T2
        self.T2aa = self.T2bb = anti(self.T2)
        if L:
            self.L1a = self.L1b = self.L1
            self.L2ab = self.L2
            self.L2aa = self.L2bb = anti(self.L2)
        self.oracle(ctx)
        self.F_b = one_blocks(ctx, self.F, no)
        self.I_b = two_blocks(ctx, self.I, no, full=True)


def anti(x):
    return x - x.transpose((0, 1, 3, 2))


def pair4(ctx, name, n1, n2, kind):
    """x[p,q,r,s] = x[q,p,s,r]"""
    def sym(ix):
        p, q, r, s = ix
        return 1, min((p, q, r, s), (q, p, s, r))
    return ctx.tensor(name, (n1, n1, n2, n2), kind, sym)
