"""Harness contexts.

A harness is a function h(ctx, **params) that asks ctx for its inputs, calls
the code under test through ctx.mod(...), and states obligations with
ctx.require / ctx.require_true.  The same harness runs

  SymCtx   on symbolic inputs; obligations become solver queries
  RealCtx  on ordinary floats with the unmodified package and libraries;
           used to replay counterexamples and to validate the encoding
"""
import functools
import inspect
import itertools
import math
import random
from fractions import Fraction

import numpy as np

NAME = '%s[%s]'


def given(f, *args, **kw):
    """f(*args, **kw) with optional arguments, whatever their names are: those
    f does not know by name follow in order."""
    try:
        p = inspect.signature(f).parameters
    except (TypeError, ValueError):
        return f(*args, **kw)
    if any(x.kind == x.VAR_KEYWORD for x in p.values()):
        return f(*args, **kw)
    return f(*args, *[v for k, v in kw.items() if k not in p],
             **{k: v for k, v in kw.items() if k in p})


def vname(name, ix):
    return '%s[%s]' % (name, ','.join(map(str, ix))) if ix != () else name


class Base(object):
    """Input declaration shared by both contexts."""

    # ---- to be provided: scalar(name, kind, lo, hi), wrap(array, kind)
    # harnesses that run others in sequence give each its own inputs, except
    # for the names they share
    prefix = ''
    shared = ()
    # memory layout of the array inputs: 0 C order, 1 Fortran order, 2 every
    # second element of a larger array
    layout = 0
    calls = None

    def full(self, name):
        return name if name.split('[')[0] in self.shared else \
            self.prefix + name

    def watched(self, m):
        return m if self.calls is None else Watched(m, self.calls)

    def real(self, name, lo=None, hi=None):
        return self.scalar(name, 'real', lo, hi)

    def integer(self, name, lo=None, hi=None):
        return self.scalar(name, 'int', lo, hi)

    def bit(self, name):
        return self.scalar(name, 'bit', None, None)

    def tensor(self, name, shape, kind='f', sym=None, lo=None, hi=None):
        """Array of independent symbols.  sym(ix) -> (sign, canonical index)
        ties entries together (sign 0: structurally zero)."""
        shape = tuple(shape)
        a = np.empty(shape, dtype=object)
        k = {'f': 'real', 'c': 'complex', 'i': 'int', 'b': 'bit'}[kind]
        cache = {}
        for ix in np.ndindex(*shape):
            s, jx = (1, ix) if sym is None else sym(ix)
            if s == 0:
                a[ix] = self.zero
                continue
            if jx not in cache:
                cache[jx] = self.scalar(vname(name, jx), k, lo, hi)
            x = cache[jx]
            a[ix] = x if s == 1 else (x*s if s != -1 else -x)
        return self.placed(self.wrap(a, kind))

    def placed(self, a):
        """a copy of the array in the memory layout of this case"""
        if self.layout == 0 or a.ndim == 0:
            return a.copy()
        kind = getattr(a, '_k', a.dtype.kind)
        step = self.layout
        shape = tuple(step*n for n in reversed(a.shape))
        b = np.empty(shape, dtype=object)
        b[...] = self.zero
        v = self.wrap(b, kind)[(slice(None, None, step),)*a.ndim].transpose()
        v[...] = a
        return v

    def antisym(self, name, n1, n2, kind='f'):
        """t[p,q,r,s] antisymmetric in (p,q) and in (r,s)."""
        def sym(ix):
            p, q, r, s = ix
            if p == q or r == s:
                return 0, ix
            sg = 1
            if p > q:
                p, q, sg = q, p, -sg
            if r > s:
                r, s, sg = s, r, -sg
            return sg, (p, q, r, s)
        return self.tensor(name, (n1, n1, n2, n2), kind, sym)

    def pairsym(self, name, n, kind='f'):
        """I[p,q,r,s] = I[q,p,s,r] (identical particles)."""
        def sym(ix):
            p, q, r, s = ix
            return 1, min((p, q, r, s), (q, p, s, r))
        return self.tensor(name, (n, n, n, n), kind, sym)

    def pairex(self, name, n, kind='f'):
        """Chemists' integrals (pq|rs) = (rs|pq)."""
        def sym(ix):
            p, q, r, s = ix
            return 1, min((p, q, r, s), (r, s, p, q))
        return self.tensor(name, (n,)*4, kind, sym)

    def real8(self, name, n):
        """Chemists' integrals with the 8-fold symmetry of real orbitals."""
        def sym(ix):
            p, q, r, s = ix
            a = (min(p, q), max(p, q))
            b = (min(r, s), max(r, s))
            a, b = min(a, b), max(a, b)
            return 1, a + b
        return self.tensor(name, (n,)*4, 'f', sym)

    def unchanged(self, label, arr, snap):
        self.require(label, arr, snap)

    def snapshot(self, a):
        raise NotImplementedError


class Watched(object):
    """Module stand-in that notes arguments and results of every call."""

    def __init__(self, m, calls):
        self._m, self._calls = m, calls

    def __getattr__(self, name):
        f = getattr(self._m, name)
        if not callable(f):
            return f

        @functools.wraps(f, updated=())
        def g(*a, **k):
            r = f(*a, **k)
            self._calls.append((a, k, r))
            return r
        return g


class SymCtx(Base):
    mode = 'sym'

    def __init__(self, runner):
        from . import poly as P, symnp, loader
        self.P = P
        self.np = symnp
        self.loader = loader
        self.zero = P.ZERO
        self.one = P.ONE
        self.runner = runner
        self.decl = {}

    def mod(self, name):
        self.runner.used_modules.add(name)
        return self.watched(self.loader.sym_module(name))

    def fresh_mod(self, name):
        """A second, newly imported instance of the package."""
        self.runner.used_modules.add(name)
        return self.loader.fresh_module(name)

    def fresh_path(self):
        self.loader.forget()
        self.obls = []
        self.decl = {}
        self.ndraw = 0
        if self.runner.case.round_model:
            from . import ftmodel
            ftmodel.reset()
        rp = self.loader.proxy().random \
            if 'numpy' in self.loader.sys.modules and \
            hasattr(self.loader.proxy(), '__vf_proxy__') else None
        if rp is not None:
            rp.source = self.draw

    def draw(self, lo, hi):
        self.ndraw += 1
        return self.scalar('rnd%d' % self.ndraw, 'real', lo, hi)

    def begin_random(self):
        self.loader.install_symbolic()
        self.loader.proxy().random.source = self.draw

    def scalar(self, name, kind, lo=None, hi=None):
        from .paths import EX
        P = self.P
        name = self.full(name)
        v = P.BYNAME.get(name)
        if v is None:
            v = P.new_var(name, kind)
        p = P.Poly.var(v)
        if name not in self.decl:
            self.decl[name] = (kind, lo, hi)
            if lo is not None:
                EX.assume(p >= P.to_fraction(lo))
            if hi is not None:
                EX.assume(p <= P.to_fraction(hi))
        return p

    def wrap(self, a, kind):
        return self.np.wrap(a, {'b': 'i'}.get(kind, kind))

    def const(self, x):
        return self.P.Poly.const(x)

    def array(self, x, kind='f'):
        a = self.np.sym_array(x)
        if not isinstance(a, self.np.SArr):
            a = self.np.wrap(np.asarray(a).astype(object), kind)
        return a

    def assume(self, c):
        from .paths import EX
        EX.assume(c)

    def snapshot(self, a):
        return self.np.wrap(self.np.raw(a).copy(), a._k) \
            if isinstance(a, self.np.SArr) else np.array(a)

    def conj(self, a):
        return a.conj()

    def einsum(self, s, *ops):
        return self.np.s_einsum(s, *ops)

    def require(self, label, lhs, rhs, zero_ok=False, tol=None):
        # later writes to the arrays must not change the claim
        lhs = lhs.copy() if isinstance(lhs, np.ndarray) else lhs
        rhs = rhs.copy() if isinstance(rhs, np.ndarray) else rhs
        self.obls.append(('eq', label, lhs, rhs, zero_ok))

    def require_true(self, label, cond, info=None):
        """cond: bool / SBool / z3 Bool"""
        self.obls.append(('true', label, cond, info, True))

    def require_close(self, label, lhs, rhs, bound):
        """|lhs - rhs| <= bound (all scalars)."""
        self.obls.append(('close', label, lhs, rhs, bound))

    def expect_raises(self, label, fn, exc=Exception):
        try:
            fn()
            self.require_true(label, False)
        except exc:
            self.require_true(label, True)


class RealCtx(Base):
    mode = 'real'

    def __init__(self, values, default=0):
        self.values = values
        self.default = default
        self.zero = 0.0
        self.one = 1.0
        self.results = []
        self.np = np
        self.ndraw = 0
        from . import loader
        loader.forget()

    def mod(self, name):
        from . import loader
        return self.watched(loader.real_module(name))

    def fresh_mod(self, name):
        from . import loader
        return loader.fresh_module(name)

    def scalar(self, name, kind, lo=None, hi=None):
        v = self.values.get(self.full(name), self.default)
        if kind == 'complex':
            if isinstance(v, (list, tuple)):
                return complex(num(v[0]), num(v[1]))
            return complex(num(v))
        if kind in ('int', 'bit'):
            return int(num(v))
        return float(num(v))

    def wrap(self, a, kind):
        return np.array(a.tolist(), dtype={'f': float, 'c': complex,
                                           'i': int, 'b': int}[kind]
                        ).reshape(a.shape)

    def const(self, x):
        return float(x)

    def array(self, x, kind='f'):
        return np.array(x, dtype={'f': float, 'c': complex, 'i': int}[kind])

    def assume(self, c):
        if not bool(c):
            raise AssumptionFailed()

    def snapshot(self, a):
        return np.array(a)

    def conj(self, a):
        return np.conj(a)

    def einsum(self, s, *ops):
        return np.einsum(s, *ops)

    def draw(self, lo, hi):
        self.ndraw += 1
        return self.scalar('rnd%d' % self.ndraw, 'real')

    def begin_random(self):
        draw = self.draw

        def arr(shape):
            if shape is None:
                return draw(0, 1)
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            a = np.empty(shape)
            f = a.reshape(-1)
            for i in range(f.size):
                f[i] = draw(0, 1)
            return a
        np.random.random = lambda size=None: arr(size)
        np.random.random_sample = np.random.random
        np.random.rand = lambda *s: arr(s if s else None)
        np.random.uniform = lambda low=0.0, high=1.0, size=None: arr(size)
        np.random.normal = lambda loc=0., scale=1., size=None: arr(size)
        np.random.randn = lambda *s: arr(s if s else None)

    def require(self, label, lhs, rhs, zero_ok=False, tol=None):
        a = np.asarray(lhs)
        b = np.asarray(rhs)
        if a.dtype == object:
            a = a.astype(complex) if any(
                isinstance(x, complex) for x in a.flat) else a.astype(float)
        if b.dtype == object:
            b = b.astype(complex) if any(
                isinstance(x, complex) for x in b.flat) else b.astype(float)
        bad = None
        if a.shape != b.shape:
            bad = 'shape %s instead of %s' % (a.shape, b.shape)
        else:
            d = np.abs(a - b)
            m = np.maximum(1.0, np.maximum(np.abs(a), np.abs(b)))
            with np.errstate(invalid='ignore'):
                f = ~(d <= (tol or 1e-9)*m)
            # equal infinities are equal
            f &= ~((a == b))
            if f.any():
                ix = tuple(int(i) for i in np.argwhere(f)[0])
                bad = 'at %s: got %r, expected %r' % (ix, a[ix], b[ix])
        self.results.append((label, bad, np.array(a), np.array(b)))

    def require_true(self, label, cond, info=None):
        self.results.append((label, None if bool(cond) else
                             'condition is false%s' % (
                                 ' (%s)' % (info,) if info else ''),
                             None, None))

    def require_close(self, label, lhs, rhs, bound):
        ok = abs(lhs - rhs) <= bound
        self.results.append((label, None if ok else
                             'got %s, expected %s within %s'
                             % (lhs, rhs, bound), np.array(float(lhs)),
                             np.array(float(rhs))))

    def expect_raises(self, label, fn, exc=Exception):
        try:
            fn()
            self.require_true(label, False)
        except exc:
            self.require_true(label, True)


class AssumptionFailed(Exception):
    pass


def num(v):
    if isinstance(v, str):
        return Fraction(v)
    return v
