"""Mean-field stand-ins for the integral harnesses and the plain
transformation they are compared with."""
import numpy as np

from .ccsys import raw


def molecule(ctx, E):
    """What the harness passes where the package expects a molecule: the
    integral library accepts the integrals themselves."""
    if ctx.mode == 'sym':
        class Mol(object):
            pass
        m = Mol()
        m.vf_eri = E
        return m
    n = E.shape[0]
    ij = [(p, q) for p in range(n) for q in range(p + 1)]
    P = np.empty((len(ij), len(ij)))
    for x, (p, q) in enumerate(ij):
        for y, (r, s) in enumerate(ij):
            P[x, y] = E[p, q, r, s]
    return P


class MF(object):
    def __init__(self, mol=None):
        if mol is not None:
            self.mol = mol


def real_compact(ctx, r, mo, compact):
    from . import stubs
    if ctx.mode == 'sym':
        return stubs.pairs(r, mo, compact)
    a, b, c, d = mo
    r = r.reshape(a.shape[1]*b.shape[1], c.shape[1]*d.shape[1])
    if not compact:
        return r

    def rows(x, y):
        n = x.shape[1]
        if x.shape != y.shape or not np.array_equal(x, y):
            return list(range(n*y.shape[1]))
        return [p*n + q for p in range(n) for q in range(p + 1)]
    return r[rows(a, b)][:, rows(c, d)]


class DF(object):
    """Density-fitting stand-in: integrals over atomic orbitals at four
    momenta are independent symbols.  Momenta are recognised by value."""

    def __init__(self, ctx, table, kpts):
        self.ctx, self.table, self.kpts = ctx, table, kpts

    def find(self, k):
        k = np.asarray(k, dtype=float)
        for i, v in enumerate(self.kpts):
            if np.allclose(k, v):
                return i
        raise ValueError('momentum %r is not one of the grid' % (k,))

    def ao2mo(self, mo_coeffs, kpts=None, compact=True):
        if isinstance(mo_coeffs, np.ndarray) and mo_coeffs.ndim == 2:
            mo_coeffs = (mo_coeffs,)*4
        a, b, c, d = mo_coeffs
        if kpts is None:
            kpts = np.zeros(3)
        if np.ndim(kpts) == 1:
            ks = (self.find(kpts),)*4
        else:
            ks = tuple(self.find(k) for k in kpts)
        E = self.table[ks]
        r = self.ctx.einsum('mnls,mp,nq,lr,st->pqrt', E, self.ctx.conj(a), b,
                            self.ctx.conj(c), d)
        if any(iscomplex(x) for x in mo_coeffs):
            compact = False
        return real_compact(self.ctx, r, (a, b, c, d), compact)

    get_mo_eri = ao2mo


def iscomplex(x):
    return (getattr(x, '_k', None) or x.dtype.kind) == 'c'


def chem(ctx, E, o, conj=False):
    """(pq|rs) over four coefficient matrices, written out"""
    E = raw(E)
    C = []
    for k, x in enumerate(o):
        C.append(raw(ctx.conj(x)) if conj and k in (0, 2) else raw(x))
    n = E.shape[0]
    cur = E
    # one index at a time: contract the first axis, move it last
    for k in range(4):
        X = C[k]
        out = np.empty(cur.shape[1:] + (X.shape[1],), dtype=object)
        for ix in np.ndindex(*out.shape):
            t = ctx.zero
            for m in range(n):
                t = t + cur[(m,) + ix[:-1]]*X[m, ix[-1]]
            out[ix] = t
        cur = out
    return cur


def spinorb(ctx, E, oa, ob, anti, phys, conj=False):
    """four-index array over spin orbitals (alpha first in every slot),
    chemists' or physicists' order; oa, ob: four coefficient matrices in the
    order of the indices of the result"""
    if phys:
        to = lambda o: (o[0], o[2], o[1], o[3])
        A = spinorb(ctx, E, to(oa), to(ob), anti, False, conj)
        return A.transpose(0, 2, 1, 3)
    O = {'a': oa, 'b': ob}
    D, X = {}, {}
    for s in 'ab':
        for t in 'ab':
            D[s, t] = chem(ctx, E, (O[s][0], O[s][1], O[t][2], O[t][3]),
                           conj)
            # (ps|rq): first pair shares a spin s, second pair a spin t
            X[s, t] = chem(ctx, E, (O[s][0], O[s][3], O[t][2], O[t][1]),
                           conj)
    lab = [[('a', i) for i in range(oa[k].shape[1])] +
           [('b', i) for i in range(ob[k].shape[1])] for k in range(4)]
    out = np.empty([len(x) for x in lab], dtype=object)
    for ix in np.ndindex(*out.shape):
        (sp, p), (sq, q), (sr, r), (ss, s) = [lab[k][ix[k]]
                                              for k in range(4)]
        t = ctx.zero
        if sp == sq and sr == ss:
            t = t + D[sp, sr][p, q, r, s]
        if anti and sp == ss and sr == sq:
            t = t - X[sp, sr][p, s, r, q]
        out[ix] = t
    return out


def plain(ctx, E, o, anti, phys, conj=False):
    """the same without spin"""
    if phys:
        return plain(ctx, E, (o[0], o[2], o[1], o[3]), anti, False,
                     conj).transpose(0, 2, 1, 3)
    D = chem(ctx, E, o, conj)
    if anti:
        X = chem(ctx, E, (o[0], o[3], o[2], o[1]), conj)
        D = D - X.transpose(0, 3, 2, 1)
    return D
