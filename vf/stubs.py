"""Stand-ins for the external libraries the package calls.

Every stub is a specification of the library routine as documented by the
library, applied to symbolic data:

  pyscf.lib.einsum            same value as numpy.einsum
  pyscf.ao2mo.general         (pq|rs) C C C C over an explicit AO tensor
  with_df.ao2mo               conj(C) C conj(C) C over an explicit AO tensor
  pyscf.pbc ... KptsHelper    kconserv table supplied by the harness
  scipy.linalg.block_diag     blocks on the diagonal, zero elsewhere
  scipy.special.expit, log_expit, xlogy, logit by definition
"""
import math
import types

from .poly import Poly
from .paths import SBool
from . import symnp
from .poly import Unsupported


def make_math():
    m = types.ModuleType('math')

    def f1(name, sym):
        real = getattr(math, name)

        def g(x, *a):
            if isinstance(x, (Poly, SBool)):
                return sym(x)
            return real(x, *a)
        return g
    def m_exp(x):
        r = symnp.s_exp(x)
        if isinstance(r, float) and r == math.inf:
            raise OverflowError('math range error')
        return r

    def m_log(x):
        r = symnp.s_log(x)
        if isinstance(r, float) and not math.isfinite(r):
            raise ValueError('math domain error')
        return r
    m.exp = f1('exp', m_exp)
    m.log = f1('log', m_log)
    m.tanh = f1('tanh', lambda x: x.tanh())
    m.sqrt = f1('sqrt', symnp.s_sqrt)
    m.fabs = f1('fabs', abs)
    m.expm1 = f1('expm1', lambda x: x.expm1())
    m.log1p = f1('log1p', lambda x: x.log1p())
    m.isnan = f1('isnan', symnp.s_isnan)
    m.isinf = f1('isinf', symnp.s_isinf)
    m.isfinite = f1('isfinite', symnp.s_isfinite)
    m.__getattr__ = lambda n: getattr(math, n)
    return m


def ao2mo_general(mol, mo, compact=True, **kw):
    """(pq|rs) = sum C1[m,p] C2[n,q] (mn|ls) C3[l,r] C4[s,s'] as a
    (pq, rs) matrix."""
    eri = getattr(mol, 'vf_eri', None)
    if eri is None:
        eri = mol
    a, b, c, d = mo
    r = symnp.s_einsum('mnls,mp,nq,lr,st->pqrt', eri, a, b, c, d)
    return pairs(r, mo, compact)


def same(x, y):
    """the libraries look at the numbers, not at object identity"""
    if x is y:
        return True
    if x.shape != y.shape:
        return False
    return all(p == q for p, q in zip(symnp.raw(x).flat, symnp.raw(y).flat)) \
        if x.size else True


def pairs(r, mo, compact):
    """(pq, rs) matrix; with compact=True pairs of identical orbital sets are
    stored as lower triangles"""
    a, b, c, d = mo
    r = r.reshape(a.shape[1]*b.shape[1], c.shape[1]*d.shape[1])
    if not compact:
        return r

    def rows(x, y):
        if not same(x, y):
            return list(range(x.shape[1]*y.shape[1]))
        n = x.shape[1]
        return [p*n + q for p in range(n) for q in range(p + 1)]
    i, j = rows(a, b), rows(c, d)
    return r[i][:, j]


def ao2mo_full(mol, mo, compact=True, **kw):
    if isinstance(mo, (list, tuple)):
        return ao2mo_general(mol, mo, compact)
    return ao2mo_general(mol, (mo, mo, mo, mo), compact)


def df_ao2mo(eri, mo, compact=True):
    """conj(C1) C2 conj(C3) C4 transform of an explicit AO tensor, as the
    (pq, rs) matrix."""
    a, b, c, d = mo
    r = symnp.s_einsum('mnls,mp,nq,lr,st->pqrt', eri, a.conj(), b, c.conj(),
                       d)
    return pairs(r, mo, compact)


class KptsHelper(object):
    def __init__(self, cell=None, kpts=None, **kw):
        self.kconserv = cell.vf_kconserv


def get_kconserv(cell, kpts, *a, **k):
    return cell.vf_kconserv


class RHF(object):
    pass


class UHF(object):
    pass


def block_diag(*arrs):
    arrs = [symnp._asarr(a) for a in arrs]
    arrs = [a if a.ndim == 2 else a.reshape(1, -1) for a in arrs]
    k = symnp.kmax([symnp.kind_of(a) for a in arrs])
    out = symnp.s_zeros((sum(a.shape[0] for a in arrs),
                         sum(a.shape[1] for a in arrs)), symnp.KDT[k])
    r = c = 0
    for a in arrs:
        out[r:r + a.shape[0], c:c + a.shape[1]] = a
        r += a.shape[0]
        c += a.shape[1]
    return out


def _expit(x):
    if x < 0:
        e = symnp.s_exp(x)
        return e/(1 + e)
    return 1/(1 + symnp.s_exp(-x))


def _log_expit(x):
    if x < 0:
        return x - symnp.s_log1p(symnp.s_exp(x))
    return -symnp.s_log1p(symnp.s_exp(-x))


def _xlogy(x, y):
    if x == 0:
        return 0*x
    return x*symnp.s_log(y)


def elementwise(f):
    def g(*args, **kw):
        return symnp._Vectorize(f, otypes=[float])(*args)
    return g


def install_scipy(mods):
    for n in list(mods):
        if n == 'scipy' or n.startswith('scipy.'):
            del mods[n]
    mk = _maker(mods)
    linalg = mk('scipy.linalg', block_diag=block_diag,
                norm=symnp.s_norm)
    special = mk('scipy.special', expit=elementwise(_expit),
                 log_expit=elementwise(_log_expit),
                 xlogy=elementwise(_xlogy),
                 logit=elementwise(
                     lambda p: symnp.s_log(p) - symnp.s_log(1 - p)))
    mk('scipy', linalg=linalg, special=special)


def _maker(mods):
    def mk(name, **attrs):
        m = types.ModuleType(name)
        m.__path__ = []
        for k, v in attrs.items():
            setattr(m, k, v)

        def missing(n):
            if n.startswith('__'):
                raise AttributeError(n)
            raise Unsupported('%s.%s has no symbolic model' % (name, n))
        m.__getattr__ = missing
        mods[name] = m
        return m
    return mk


def install_pyscf(mods):
    mk = _maker(mods)
    for n in list(mods):
        if n == 'pyscf' or n.startswith('pyscf.'):
            del mods[n]
    lib = mk('pyscf.lib', einsum=symnp.s_einsum)
    nh = mk('pyscf.lib.numpy_helper', einsum=symnp.s_einsum)
    lib.numpy_helper = nh
    ao2mo = mk('pyscf.ao2mo', general=ao2mo_general, full=ao2mo_full,
               kernel=ao2mo_full)
    incore = mk('pyscf.ao2mo.incore', general=ao2mo_general, full=ao2mo_full)
    ao2mo.incore = incore
    hf = mk('pyscf.scf.hf', RHF=RHF, SCF=object)
    uhf = mk('pyscf.scf.uhf', UHF=UHF)
    scf = mk('pyscf.scf', hf=hf, uhf=uhf, RHF=RHF, UHF=UHF)
    kh = mk('pyscf.pbc.lib.kpts_helper', KptsHelper=KptsHelper,
            get_kconserv=get_kconserv)
    plib = mk('pyscf.pbc.lib', kpts_helper=kh)
    tools_pbc = mk('pyscf.pbc.tools.pbc', get_kconserv=get_kconserv)
    ptools = mk('pyscf.pbc.tools', pbc=tools_pbc, get_kconserv=get_kconserv)
    pscf = mk('pyscf.pbc.scf')
    khf = mk('pyscf.pbc.scf.khf', KRHF=RHF)
    kuhf = mk('pyscf.pbc.scf.kuhf', KUHF=UHF)
    pscf.khf, pscf.kuhf = khf, kuhf
    pbc = mk('pyscf.pbc', lib=plib, tools=ptools, scf=pscf)
    root = mk('pyscf', lib=lib, ao2mo=ao2mo, scf=scf, pbc=pbc)
    root.__version__ = 'stub'
