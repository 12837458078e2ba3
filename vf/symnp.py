"""A symbolic stand-in for numpy.

SArr is an object-dtype ndarray subclass whose entries are numbers or symbolic
scalars and which carries the dtype kind ('b', 'i', 'f', 'c') the same code
would see with ordinary arrays.  The module object returned by make_proxy()
behaves like numpy, except that array creation yields SArr and that functions
without an object-dtype implementation are replaced by exact symbolic ones.
Anything not overridden is passed to numpy unchanged.
"""
import builtins
import itertools
import sys
import types
from fractions import Fraction
from math import gcd

import numpy as np

from . import poly as P
from .poly import Poly, ZERO, Unsupported
from .paths import SBool, s_and, s_or, s_not, ite, sbool_of, EX

KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
KDT = {'b': np.dtype(bool), 'i': np.dtype(int), 'f': np.dtype(float),
       'c': np.dtype(complex)}


def kind_of(x):
    if isinstance(x, SArr):
        return x._k
    if isinstance(x, np.ndarray):
        k = x.dtype.kind
        if k == 'u':
            return 'i'
        if k in KORD:
            return k
        if k == 'O':
            return kmax([kind_of(e) for e in x.flat]) if x.size else 'f'
        raise Unsupported('array of dtype %s' % x.dtype)
    if isinstance(x, Poly):
        if x.is_const():
            return 'i' if x.den == 1 else 'f'
        if x.has_complex():
            return 'c'
        return 'i' if x.is_integral() else 'f'
    if isinstance(x, (bool, SBool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating, Fraction)):
        return 'f'
    if isinstance(x, (complex, np.complexfloating)):
        return 'c'
    if isinstance(x, (list, tuple)):
        return kmax([kind_of(e) for e in x]) if x else 'f'
    return 'f'


def kmax(ks):
    return max(ks, key=KORD.get)


def dt_kind(dtype, default='f'):
    if dtype is None:
        return default
    if dtype is object:
        return default
    d = np.dtype(dtype)
    if d.kind == 'u':
        return 'i'
    if d.kind == 'O':
        return default
    if d.kind not in KORD:
        raise Unsupported('dtype %s' % d)
    if d in (np.dtype('float32'), np.dtype('float16'), np.dtype('complex64'),
             np.dtype('int8'), np.dtype('int16'), np.dtype('uint8'),
             np.dtype('uint16')):
        # lossy or narrow types have no exact-arithmetic meaning; such code is
        # judged by the concrete runs only
        EX.stats['narrow_dtype'] = EX.stats.get('narrow_dtype', 0) + 1
    return d.kind


def has_sym(x):
    if isinstance(x, (Poly, SBool, SArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def simp(e):
    """Keep plain numbers plain."""
    return e


def _round(e, n):
    return round(e, n) if isinstance(e, Poly) else round(Poly.const(e), n)


def cast_scalar(e, k, scalar_assign=False):
    """Value of e once stored in an array of kind k."""
    if isinstance(e, np.ndarray) and e.shape == ():
        e = e[()]
    if k == 'c':
        return e
    if k == 'f':
        if isinstance(e, Poly):
            if e.has_complex():
                if scalar_assign:
                    raise TypeError("can't convert complex to float")
                return e.real
            return e
        if isinstance(e, SBool):
            return e.as_poly()
        if isinstance(e, (complex, np.complexfloating)):
            if scalar_assign:
                raise TypeError("can't convert complex to float")
            return float(e.real)
        if isinstance(e, (bool, np.bool_)):
            return int(e)
        return e
    if k == 'i':
        if isinstance(e, SBool):
            return e.as_poly()
        if isinstance(e, Poly):
            if e.has_complex():
                e = e.real
            if e.is_integral():
                return e
            if e.is_const():
                return int(e.const_value())
            return trunc_atom(e)
        if isinstance(e, (complex, np.complexfloating)):
            return int(e.real)
        return int(e)
    if k == 'b':
        if isinstance(e, Poly):
            return e != 0
        if isinstance(e, SBool):
            return e
        return bool(e)
    raise Unsupported('kind %s' % k)


def trunc_atom(p):
    from .paths import atom, to_z3, z3
    zp = to_z3(p)
    return atom('trunc', (p,), 'int', lambda w: [
        w == z3.If(zp >= 0, z3.ToInt(zp), -z3.ToInt(-zp))])


def cast_array(a, k):
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), np.asarray(a, dtype=object).reshape(-1)
    for i in range(af.size):
        of[i] = cast_scalar(af[i], k)
    return wrap(of.reshape(a.shape), k)


def raw(x):
    """Plain object ndarray sharing memory with x."""
    return x.view(np.ndarray)


def wrap(a, k):
    r = np.asarray(a, dtype=object).view(SArr)
    r._k = k
    return r


def _idx_part(i):
    if isinstance(i, (Poly, SBool)):
        if isinstance(i, SBool):
            return bool(i)
        return i.__index__()
    if isinstance(i, SArr):
        if i._k == 'b':
            return np.array([bool(e) for e in i.reshape(-1)],
                            dtype=bool).reshape(i.shape)
        if i._k == 'i':
            return np.array([int(e) for e in raw(i).reshape(-1)],
                            dtype=int).reshape(i.shape)
        raise IndexError('arrays used as indices must be of integer type')
    if isinstance(i, list):
        return [_idx_part(e) for e in i]
    if isinstance(i, slice):
        f = lambda s: s.__index__() if isinstance(s, Poly) else s
        return slice(f(i.start), f(i.stop), f(i.step))
    return i


def fix_index(i):
    if isinstance(i, tuple):
        return tuple(_idx_part(e) for e in i)
    return _idx_part(i)


_CMP = {'less', 'less_equal', 'greater', 'greater_equal', 'equal',
        'not_equal', 'logical_and', 'logical_or', 'logical_not',
        'logical_xor', 'isfinite', 'isnan', 'isinf'}
_FLOAT = {'true_divide', 'divide', 'exp', 'log', 'sqrt', 'expm1', 'log1p',
          'sin', 'cos', 'tanh', 'logaddexp'}


class SArr(np.ndarray):
    _k = 'f'
    __array_priority__ = 10.0

    def __array_finalize__(self, obj):
        if obj is not None:
            self._k = getattr(obj, '_k', 'f')

    @property
    def dtype(self):
        return KDT[self._k]

    # -- indexing
    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self, fix_index(i))
        if isinstance(r, SArr):
            r._k = self._k
        return r

    def __setitem__(self, i, v):
        i = fix_index(i)
        if isinstance(v, np.ndarray) and v.shape != ():
            if v is self:
                return
            if KORD[kind_of(v)] > KORD[self._k] or self._k in 'bi':
                v = cast_array(v, self._k)
            np.ndarray.__setitem__(raw(self), i, raw(np.asarray(v)) if False
                                   else np.asarray(v, dtype=object).view(
                                       np.ndarray))
            return
        if isinstance(v, (list, tuple)):
            a = sym_array(v)
            return self.__setitem__(i, a if isinstance(a, SArr)
                                    else np.asarray(a))
        tgt = np.ndarray.__getitem__(raw(self), i)
        v = cast_scalar(v, self._k,
                        scalar_assign=not isinstance(tgt, np.ndarray))
        np.ndarray.__setitem__(raw(self), i, v)

    def __iter__(self):
        for n in range(self.shape[0]):
            yield self[n]

    # -- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        name = ufunc.__name__
        ks = [kind_of(x) for x in inputs
              if x is not None] if method == '__call__' else \
            [kind_of(inputs[0])]
        if method == '__call__':
            # python scalars do not upcast float arrays, ints keep kinds
            k = kmax(ks)
        else:
            k = ks[0]
        if name in _CMP:
            rk = 'b'
        elif name in _FLOAT:
            rk = k if KORD[k] > KORD['f'] else 'f'
        elif name in ('absolute', 'real'):
            rk = 'f' if k == 'c' else k
        elif k == 'b' and name in ('add', 'multiply', 'subtract') and \
                method == 'reduce':
            rk = 'i' if name == 'add' else 'b'
        elif k == 'b' and name not in ('invert', 'bitwise_and', 'bitwise_or',
                                       'bitwise_xor'):
            rk = 'i'
        else:
            rk = k
        ins = []
        for x in inputs:
            if isinstance(x, SArr):
                ins.append(raw(x))
            elif isinstance(x, np.ndarray) and x.dtype != object:
                ins.append(x.astype(object))
            elif isinstance(x, (np.integer,)):
                ins.append(int(x))
            elif isinstance(x, np.floating):
                ins.append(float(x))
            else:
                ins.append(x)
        if out is not None:
            o = out[0]
            if isinstance(o, SArr) and method == '__call__':
                if KORD[rk] > KORD[o._k] and not (rk == 'i' and o._k == 'b'):
                    raise TypeError(
                        "Cannot cast ufunc '%s' output from dtype('%s') to "
                        "dtype('%s') with casting rule 'same_kind'"
                        % (name, KDT[rk], KDT[o._k]))
        f = _UFUNCS.get(name)
        mask = kw.get('where', True) if method == '__call__' else True
        if mask is not True and out is None:
            raise Unsupported('ufunc with where= and without out=')
        if method == '__call__' and f is not None:
            res = f(*ins)
        else:
            if method == '__call__':
                kw2 = dict(kw)
                kw2.pop('dtype', None)
                kw2.pop('casting', None)
                kw2.pop('where', None)
                res = ufunc(*ins, dtype=object, **kw2) \
                    if name not in ('matmul',) else ufunc(*ins)
            elif method == 'reduce':
                kw.pop('dtype', None)
                kw.pop('where', None)
                if name in ('logical_or', 'logical_and', 'maximum',
                            'minimum'):
                    res = _reduce(name, ins[0], kw.get('axis', 0),
                                  kw.get('keepdims', False))
                else:
                    if kw.get('initial', 0) is np._NoValue:
                        kw.pop('initial')
                    res = getattr(ufunc, method)(*ins, dtype=object, **kw)
            else:
                kw.pop('dtype', None)
                res = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            o = out[0]
            if isinstance(o, SArr):
                res = np.asarray(res, dtype=object)
                if mask is not True:
                    res = np.asarray(raw(s_where(mask, wrap(np.broadcast_to(
                        res, o.shape), rk), o)), dtype=object)
                if KORD[rk] != KORD[o._k]:
                    res = raw(cast_array(res, o._k))
                raw(o)[...] = res
                return o
            raise Unsupported('in-place update of a plain array with '
                              'symbolic values')
        if isinstance(res, tuple):
            return tuple(wrap(r, rk) if isinstance(r, np.ndarray) else r
                         for r in res)
        if isinstance(res, np.ndarray):
            return wrap(res, rk)
        return res

    # -- methods with C implementations that ignore the kind
    def astype(self, dtype, order='K', casting='unsafe', subok=True,
               copy=True):
        k = dt_kind(dtype, self._k)
        if k == self._k:
            if not copy:
                return self
            return wrap(raw(self).copy(), k)
        return cast_array(raw(self), k)

    def dot(self, other, out=None):
        return s_dot(self, other)

    def __matmul__(self, other):
        return s_matmul(self, other)

    def __rmatmul__(self, other):
        return s_matmul(other, self)

    def conj(self):
        return wrap(_emap(lambda e: e.conjugate(), raw(self)), self._k)

    conjugate = conj

    @property
    def real(self):
        return wrap(_emap(lambda e: e.real, raw(self)),
                    'f' if self._k == 'c' else self._k)

    @property
    def imag(self):
        if self._k != 'c':
            return wrap(_emap(lambda e: 0, raw(self)), self._k)
        return wrap(_emap(lambda e: e.imag, raw(self)), 'f')

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce('logical_or', raw(self), axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce('logical_and', raw(self), axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        r = _reduce('maximum', raw(self), axis, keepdims)
        return wrap(r, self._k) if isinstance(r, np.ndarray) else r

    def min(self, axis=None, out=None, keepdims=False, **kw):
        r = _reduce('minimum', raw(self), axis, keepdims)
        return wrap(r, self._k) if isinstance(r, np.ndarray) else r

    def argmax(self, axis=None, **kw):
        return _argext(self, lambda a, b: a > b)

    def argmin(self, axis=None, **kw):
        return _argext(self, lambda a, b: a < b)

    def nonzero(self):
        return np.array([bool(e) for e in raw(self).reshape(-1)],
                        dtype=bool).reshape(self.shape).nonzero()

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis)/n

    def fill(self, v):
        self[...] = v

    def round(self, decimals=0, out=None):
        if self._k in 'bi':
            return self.copy()
        r = wrap(_emap(lambda e: _round(e, int(decimals)), raw(self)),
                 self._k)
        if out is not None:
            out[...] = r
            return out
        return r

    def prod(self, axis=None, **kw):
        return np.multiply.reduce(self, axis=axis)

    def tolist(self):
        return raw(self).tolist()

    def item(self, *a):
        return raw(self).item(*a)

    def argsort(self, axis=-1, **kw):
        if self.ndim != 1:
            raise Unsupported('argsort')
        x = raw(self).tolist()
        return np.array(sorted(range(len(x)), key=x.__getitem__), dtype=int)

    def sort(self, axis=-1, **kw):
        if self.ndim != 1:
            raise Unsupported('sort')
        raw(self)[:] = sorted(raw(self).tolist())

    def trace(self, *a, **kw):
        r = raw(self).trace(*a, **kw)
        return wrap(r, self._k) if isinstance(r, np.ndarray) else r

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous. Use a.any() or a.all()')
        return bool(raw(self).reshape(-1)[0])

    def __contains__(self, x):
        return bool(s_or([e == x for e in raw(self).reshape(-1)]))

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def tobytes(self, order='C'):
        if self._k in 'bi':
            return SBytes(self.copy())
        # different expressions count as different numbers
        return repr([e.key() if isinstance(e, P.Poly) else e
                     for e in raw(self).reshape(-1)]).encode()

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')


class SBytes(object):
    """Memory of an integer array.  Comparison with another one stays
    symbolic; anything else settles the entries."""

    def __init__(self, a):
        self.a = raw(a).reshape(-1)

    def settled(self):
        return np.array([int(e) for e in self.a], dtype=int).tobytes()

    def __eq__(self, o):
        if isinstance(o, SBytes):
            return len(self.a) == len(o.a) and bool(s_array_equal(
                wrap(self.a, 'i'), wrap(o.a, 'i')))
        return self.settled() == o

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.settled() < bytes(o)

    def __len__(self):
        return 8*len(self.a)

    def __hash__(self):
        return hash(self.settled())

    def __bytes__(self):
        return self.settled()

    def __buffer__(self, flags):
        return memoryview(self.settled())

    def __getattr__(self, name):
        return getattr(self.settled(), name)


def _emap(f, a):
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    return out


def _argext(a, better):
    f = raw(a).reshape(-1)
    best = 0
    for i in range(1, f.size):
        if bool(better(f[i], f[best])):
            best = i
    return best


def _fold(name, xs):
    if name == 'logical_or':
        return s_or(xs)
    if name == 'logical_and':
        return s_and(xs)
    it = list(xs)
    r = it[0]
    for x in it[1:]:
        r = ite(x > r, x, r) if name == 'maximum' else ite(x < r, x, r)
    return r


def _reduce(name, a, axis, keepdims=False):
    if axis is None or (isinstance(axis, tuple) and len(axis) == a.ndim):
        r = _fold(name, list(a.reshape(-1)))
        if keepdims:
            o = np.empty((1,)*a.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return wrap(o, kind_of(r))
        return r
    if isinstance(axis, tuple):
        if len(axis) != 1:
            raise Unsupported('reduction over several axes')
        axis = axis[0]
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = _fold(name, list(m[ix]))
    if out.shape == ():
        return out[()]
    return wrap(out, 'b' if name.startswith('logical') else kind_of(a))


def _bcast(f):
    def g(*args):
        arrs = np.broadcast_arrays(*[np.asarray(a, dtype=object)
                                     for a in args])
        if arrs[0].shape == ():
            return f(*[a[()] for a in arrs])
        out = np.empty(arrs[0].shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = f(*[a[ix] for a in arrs])
        return out
    return g


def _num(x):
    if isinstance(x, SBool):
        return x.as_poly()
    return x if isinstance(x, Poly) else x


def s_exp(x):
    if isinstance(x, Poly) and not x.is_const():
        return x.exp()
    x = float(x.const_value()) if isinstance(x, Poly) else x
    with np.errstate(all='ignore'):
        return np.exp(x).item() if hasattr(np.exp(x), 'item') else np.exp(x)


def s_log(x):
    if isinstance(x, Poly) and not x.is_const():
        return x.log()
    x = float(x.const_value()) if isinstance(x, Poly) else x
    with np.errstate(all='ignore'):
        return float(np.log(x))


def s_sqrt(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, (int, np.integer)) or isinstance(x, Fraction):
        return Poly.const(x).sqrt()
    if isinstance(x, Poly):
        return x.sqrt()
    return float(np.sqrt(x))


def s_log1p(x):
    return x.log1p() if isinstance(x, Poly) else float(np.log1p(float(x)))


def s_logaddexp(a, b):
    # as the library computes it: max + log1p(exp(-|a-b|))
    if bool(_num(a) >= b):
        return a + s_log1p(s_exp(b - a))
    return b + s_log1p(s_exp(a - b))


def s_isfinite(x):
    if isinstance(x, (Poly, SBool)):
        return True
    return bool(np.isfinite(float(x)))


def s_isnan(x):
    return False if isinstance(x, (Poly, SBool)) else bool(np.isnan(float(x)))


def s_isinf(x):
    return False if isinstance(x, (Poly, SBool)) else bool(np.isinf(float(x)))


def s_sign(x):
    if isinstance(x, Poly):
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    return int(np.sign(float(x)))


def s_max2(a, b):
    return ite(_num(a) > b, a, b) if has_sym([a, b]) else max(a, b)


def s_min2(a, b):
    return ite(_num(a) < b, a, b) if has_sym([a, b]) else min(a, b)


def _not_eq(a, b):
    return s_not(_eq(a, b))


def _eq(a, b):
    r = (a == b)
    return r


_UFUNCS = {
    'exp': _bcast(s_exp), 'log': _bcast(s_log), 'sqrt': _bcast(s_sqrt),
    'isfinite': _bcast(s_isfinite), 'isnan': _bcast(s_isnan),
    'isinf': _bcast(s_isinf), 'sign': _bcast(s_sign),
    'maximum': _bcast(s_max2), 'minimum': _bcast(s_min2),
    'fmax': _bcast(s_max2), 'fmin': _bcast(s_min2),
    'expm1': _bcast(lambda x: x.expm1() if isinstance(x, Poly)
                    else float(np.expm1(x))),
    'log1p': _bcast(lambda x: x.log1p() if isinstance(x, Poly)
                    else float(np.log1p(x))),
    'logical_and': _bcast(lambda a, b: s_and([a, b])),
    'logical_or': _bcast(lambda a, b: s_or([a, b])),
    'logical_not': _bcast(s_not),
    'logical_xor': _bcast(lambda a, b: s_or([s_and([a, s_not(b)]),
                                             s_and([s_not(a), b])])),
    'bitwise_and': _bcast(lambda a, b: _bit('and', a, b)),
    'bitwise_or': _bcast(lambda a, b: _bit('or', a, b)),
    'bitwise_xor': _bcast(lambda a, b: _bit('xor', a, b)),
    'invert': _bcast(lambda a: s_not(a) if isinstance(a, (bool, SBool))
                     else -a - 1),
    'conjugate': _bcast(lambda a: a.conjugate()),
    'absolute': _bcast(lambda a: abs(a)),
    'square': _bcast(lambda a: a*a),
    'logaddexp': _bcast(lambda a, b: s_logaddexp(a, b)),
    'tanh': _bcast(lambda x: x.tanh() if isinstance(x, Poly)
                   else float(np.tanh(x))),
    'positive': _bcast(lambda a: a),
    'divide': _bcast(lambda a, b: _div(a, b)),
    'true_divide': _bcast(lambda a, b: _div(a, b)),
    'subtract': _bcast(lambda a, b: _num(a) - _num(b)),
    'equal': _bcast(_eq), 'not_equal': _bcast(_not_eq),
    'less': _bcast(lambda a, b: _num(a) < b),
    'less_equal': _bcast(lambda a, b: _num(a) <= b),
    'greater': _bcast(lambda a, b: _num(a) > b),
    'greater_equal': _bcast(lambda a, b: _num(a) >= b),
}
# plain loops are fast enough for the arithmetic ones that object dtype
# already handles exactly
del _UFUNCS['subtract']


def _div(a, b):
    if not isinstance(a, (Poly, SBool)) and not isinstance(b, (Poly, SBool)):
        if b == 0:
            with np.errstate(all='ignore'):
                return float(np.float64(a)/np.float64(b))
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            r = Fraction(a)/Fraction(b)
            return int(r) if r.denominator == 1 else r
        return a/b
    return _num(a)/_num(b)


def _bit(op, a, b):
    ab = (bool, SBool, np.bool_)
    if isinstance(a, ab) and isinstance(b, ab):
        if op == 'and':
            return s_and([a, b])
        if op == 'or':
            return s_or([a, b])
        return s_or([s_and([a, s_not(b)]), s_and([s_not(a), b])])
    if not has_sym([a, b]):
        return {'and': int(a) & int(b), 'or': int(a) | int(b),
                'xor': int(a) ^ int(b)}[op]
    if isinstance(b, Poly) and not isinstance(a, Poly):
        a, b = b, a
    if op == 'and' and not has_sym(b) and int(b) > 0 and \
            (int(b) & (int(b) + 1)) == 0 and a.is_integral():
        return a % (int(b) + 1)
    for x in (a, b):
        if isinstance(x, Poly):
            bad = [v for v in x.vids() if P.VARS[v].kind != 'bit']
            if bad:
                raise Unsupported('bitwise operation on symbolic integers')
    # 0/1 values
    a_, b_ = sbool_of(a), sbool_of(b)
    for x in (a, b):
        if bool(sbool_of(_num(x) > 1)) or bool(sbool_of(_num(x) < 0)):
            a, b = int(a), int(b)
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
    r = _bit(op, a_, b_)
    return r.as_poly() if isinstance(r, SBool) else int(r)


P.HOOKS['bit'] = _bit

# ------------------------------------------------------------ creation

def sym_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if isinstance(x, SArr):
        if dtype is not None:
            return x.astype(dtype, copy=bool(copy))
        return wrap(raw(x).copy(), x._k) if copy else x
    if not has_sym(x):
        if isinstance(x, (list, tuple)) and _has_fraction(x):
            a = np.array(x, dtype=object)
            return wrap(a, dt_kind(dtype, 'f'))
        if isinstance(x, np.ndarray) and not copy and dtype is None:
            return x
        if dtype is None:
            return np.array(x, order=order, ndmin=ndmin)
        return np.array(x, dtype=dtype, order=order, ndmin=ndmin)
    if isinstance(x, (Poly, SBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        k = kind_of(x)
    elif isinstance(x, np.ndarray):
        a = np.array(x, dtype=object)
        k = kind_of(x)
    else:
        a, k = _from_nested(x)
    r = wrap(a, k)
    if dtype is not None:
        r = r.astype(dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _has_fraction(x):
    if isinstance(x, (list, tuple)):
        return any(_has_fraction(e) for e in x)
    return isinstance(x, Fraction)


def _from_nested(x):
    shape = []
    y = x
    while True:
        if isinstance(y, (list, tuple)):
            shape.append(len(y))
            if not len(y):
                break
            y = y[0]
        elif isinstance(y, np.ndarray):
            shape.extend(y.shape)
            break
        else:
            break
    a = np.empty(tuple(shape), dtype=object)
    ks = []

    def put(ix, e):
        if isinstance(e, (list, tuple)):
            if len(ix) >= len(shape) or len(e) != shape[len(ix)]:
                raise ValueError('setting an array element with a sequence. '
                                 'The requested array has an inhomogeneous '
                                 'shape')
            for n, s in enumerate(e):
                put(ix + (n,), s)
        elif isinstance(e, np.ndarray) and e.shape != ():
            if e.shape != tuple(shape[len(ix):]):
                raise ValueError('inhomogeneous shape')
            ks.append(kind_of(e))
            a[ix] = np.asarray(e, dtype=object).view(np.ndarray)
        else:
            if isinstance(e, np.ndarray):
                e = e[()]
            if isinstance(e, (np.integer,)):
                e = int(e)
            elif isinstance(e, np.floating):
                e = float(e)
            ks.append(kind_of(e))
            if len(ix) != len(shape):
                raise ValueError('inhomogeneous shape')
            a[ix] = e
    put((), x)
    return a, (kmax(ks) if ks else 'f')


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(e.__index__() for e in s)
    return (s.__index__(),)


def _filled(shape, v, dtype=None, default='f'):
    a = np.empty(_shape(shape), dtype=object)
    a.reshape(-1)[:] = v
    return wrap(a, dt_kind(dtype, default))


def s_zeros(shape, dtype=None, order='C', **kw):
    return _filled(shape, 0, dtype)


def s_ones(shape, dtype=None, order='C', **kw):
    return _filled(shape, 1, dtype)


_undef = itertools.count()


def s_empty(shape, dtype=None, order='C', **kw):
    """Uninitialised memory: unconstrained symbols."""
    k = dt_kind(dtype)
    a = np.empty(_shape(shape), dtype=object)
    f = a.reshape(-1)
    for i in range(f.size):
        v = P.new_var('undef!%d' % next(_undef),
                      'int' if k in 'bi' else 'real')
        f[i] = Poly.var(v)
    return wrap(a, k)


def s_full(shape, fill_value, dtype=None, order='C', **kw):
    r = _filled(shape, 0, KDT[dt_kind(dtype, kind_of(fill_value))])
    r[...] = fill_value
    return r


def _like(fn):
    def g(a, *args, **kw):
        dtype = kw.pop('dtype', None)
        shape = kw.pop('shape', None)
        kw.pop('order', None)
        kw.pop('subok', None)
        a = a if isinstance(a, np.ndarray) else sym_array(a)
        if fn is s_full and not args:
            args = (kw.pop('fill_value'),)
        return fn(a.shape if shape is None else shape, *args,
                  dtype=KDT[kind_of(a)] if dtype is None else dtype)
    return g


def s_eye(N, M=None, k=0, dtype=None, **kw):
    e = np.eye(N, M, k)
    r = _filled(e.shape, 0, dtype)
    for ix in zip(*e.nonzero()):
        r[ix] = 1
    return r


def s_diag(v, k=0):
    if not has_sym(v):
        return np.diag(v, k)
    v = sym_array(v, copy=False)
    r = np.diag(raw(v), k)
    if v.ndim == 1:
        z = _filled(r.shape, 0)
        m = np.diag(np.ones(v.shape[0], dtype=bool), k)
        raw(z)[m] = raw(v)
        z._k = v._k
        return z
    return wrap(r, v._k)


# ------------------------------------------------------------ einsum

def _sparse(a):
    """dict index->Poly of the nonzero entries plus their common
    denominator."""
    out = {}
    den = 1
    if isinstance(a, SArr):
        a = raw(a)
    if a.shape == ():
        it = [((), a[()])]
    else:
        it = np.ndenumerate(a)
    for ix, e in it:
        if isinstance(e, Poly):
            if e.num:
                out[ix] = e
        elif isinstance(e, SBool):
            out[ix] = e.as_poly()
        else:
            if isinstance(e, (complex, np.complexfloating)):
                if e.imag:
                    raise Unsupported('complex constant')
                e = e.real
            if e != 0:
                out[ix] = Poly.const(e)
    for e in out.values():
        d = e.den
        if den % d:
            den = den//gcd(den, d)*d
    return out, den


def _contract2(A, B, sa, sb, so, dims):
    """Exact contraction of two sparse operands; returns sparse result."""
    (da, dena), (db, denb) = A, B
    # indices of B that also occur in A
    shared = [c for c in sb if c in sa]
    pa = [sa.index(c) for c in shared]
    pb = [sb.index(c) for c in shared]
    groups = {}
    for ix, p in db.items():
        groups.setdefault(tuple(ix[i] for i in pb), []).append((ix, p))
    sel = []
    for c in so:
        if c in sa:
            sel.append((0, sa.index(c)))
        else:
            sel.append((1, sb.index(c)))
    acc = {}
    deg = 0
    scaledA, scaledB = {}, {}
    bits = P.BITS

    def scaled(cache, ix, p, den):
        r = cache.get(ix)
        if r is None:
            f = den//p.den
            r = list(p.num.items()) if f == 1 else \
                [(m, c*f) for m, c in p.num.items()]
            cache[ix] = r
        return r
    for ia, p in da.items():
        g = groups.get(tuple(ia[i] for i in pa))
        if not g:
            continue
        np_ = scaled(scaledA, ia, p, dena)
        for ib, q in g:
            key = tuple(ia[i] if w == 0 else ib[i] for w, i in sel)
            d = acc.get(key)
            if d is None:
                d = acc[key] = {}
            nq = scaled(scaledB, ib, q, denb)
            if p.deg + q.deg > deg:
                deg = p.deg + q.deg
            get = d.get
            for m1, c1 in np_:
                m1b = m1 & bits
                for m2, c2 in nq:
                    k = m1 + m2
                    if m1b:
                        k -= m1b & m2
                    d[k] = get(k, 0) + c1*c2
    if deg > P.MAXDEG:
        raise Unsupported('polynomial degree above %d' % P.MAXDEG)
    den = dena*denb
    out = {}
    for key, d in acc.items():
        z = [m for m, c in d.items() if not c]
        for m in z:
            del d[m]
        if d:
            out[key] = Poly(d, den, deg)
    return out, den


def _unary(A, s, so):
    """Sum/diagonal of one sparse operand."""
    d, den = A
    if s == so:
        return A
    out = {}
    pos = [s.index(c) for c in so]
    rep = [[i for i, x in enumerate(s) if x == c] for c in set(s)]
    rep = [r for r in rep if len(r) > 1]
    for ix, p in d.items():
        if any(len(set(ix[i] for i in r)) > 1 for r in rep):
            continue
        key = tuple(ix[i] for i in pos)
        q = out.get(key)
        out[key] = p if q is None else q._exact_addsub(p, 1)
    return {k: p for k, p in out.items() if p.num}, den


def parse_subs(subs, ops):
    subs = subs.replace(' ', '')
    if '...' in subs:
        used = set(subs) - set('.,->')
        free = [c for c in
                'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
                if c not in used]
        ins_s = subs.split('->')[0].split(',')
        nell = max(np.ndim(o) - len(t.replace('...', ''))
                   for t, o in zip(ins_s, ops) if '...' in t)
        ell = ''.join(free[:nell])
        subs2 = []
        for t, o in zip(ins_s, ops):
            if '...' in t:
                n = np.ndim(o) - len(t.replace('...', ''))
                t = t.replace('...', ell[len(ell) - n:] if n else '')
            subs2.append(t)
        rhs = None
        if '->' in subs:
            rhs = subs.split('->')[1].replace('...', ell)
        else:
            flat = ''.join(subs2)
            rhs = ell + ''.join(sorted(c for c in set(flat)
                                       if flat.count(c) == 1 and
                                       c not in ell))
        subs = ','.join(subs2) + '->' + rhs
    if '->' in subs:
        lhs, rhs = subs.split('->')
    else:
        lhs = subs
        flat = lhs.replace(',', '')
        rhs = ''.join(sorted(c for c in set(flat) if flat.count(c) == 1))
    return lhs.split(','), rhs


def s_einsum(*operands, **kw):
    kw.pop('optimize', None)
    kw.pop('order', None)
    kw.pop('casting', None)
    kw.pop('dtype', None)
    out = kw.pop('out', None)
    subs = operands[0]
    if not isinstance(subs, str):
        # interleaved operand/sublist form
        letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
        ops, ts = [], []
        n = len(operands)
        for i in range(0, n - 1, 2):
            ops.append(operands[i])
            ts.append(''.join(letters[j] for j in operands[i + 1]))
        subs = ','.join(ts)
        if n % 2:
            subs += '->' + ''.join(letters[j] for j in operands[-1])
    else:
        ops = list(operands[1:])
    ops = [o if isinstance(o, np.ndarray) else sym_array(o) for o in ops]
    if not any(has_sym(o) for o in ops):
        r = np.einsum(subs, *ops)
        if out is not None:
            out[...] = r
            return out
        return r
    ins, rhs = parse_subs(subs, ops)
    if len(ins) != len(ops):
        raise ValueError('wrong number of operands for einsum')
    for t, o in zip(ins, ops):
        if len(t) != np.ndim(o):
            raise ValueError('einsum: operand has %d dimensions, subscripts '
                             '%s' % (np.ndim(o), t))
    if len(ops) == 1 and out is None:
        t = ins[0]
        if len(set(t)) == len(t) and sorted(t) == sorted(rhs):
            # numpy returns a view here
            return ops[0].transpose([t.index(c) for c in rhs])
    dims = {}
    for t, o in zip(ins, ops):
        for c, n in zip(t, o.shape):
            if c in dims and dims[c] != n:
                if 1 in (dims[c], n):
                    raise Unsupported('einsum broadcasting')
                raise ValueError('einsum: dimension mismatch for index %s in '
                                 '%s' % (c, subs))
            dims[c] = n
    for c in rhs:
        if c not in dims:
            raise ValueError('einsum: output index %s not in input' % c)
    k = kmax([kind_of(o) for o in ops])
    work = [(t, _sparse(o)) for t, o in zip(ins, ops)]
    # drop repeated and purely local summation indices of single operands
    norm = []
    for n, (t, A) in enumerate(work):
        others = set(''.join(x for m, (x, _) in enumerate(work) if m != n))
        keep = ''.join(c for i, c in enumerate(t)
                       if (c in others or c in rhs) and t.index(c) == i)
        norm.append((keep, _unary(A, t, keep)))
    work = norm
    while len(work) > 1:
        best = None
        for i in range(len(work)):
            for j in range(i + 1, len(work)):
                rest = set(rhs) | set(''.join(
                    x for m, (x, _) in enumerate(work) if m not in (i, j)))
                u = set(work[i][0]) | set(work[j][0])
                o = [c for c in u if c in rest]
                size = 1
                for c in o:
                    size *= dims[c]
                cost = 1
                for c in u:
                    cost *= dims[c]
                key = (size, cost)
                if best is None or key < best[0]:
                    best = (key, i, j)
        _, i, j = best
        (ta, A), (tb, B) = work[i], work[j]
        rest = set(rhs) | set(''.join(
            x for m, (x, _) in enumerate(work) if m not in (i, j)))
        to = ''.join(c for n, c in enumerate(ta + tb)
                     if c in rest and (ta + tb).index(c) == n)
        C = _contract2(A, B, ta, tb, to, dims)
        work = [w for m, w in enumerate(work) if m not in (i, j)] + [(to, C)]
    t, A = work[0]
    d, den = _unary(A, t, rhs)
    if rhs == '':
        r = d.get((), ZERO)
        if out is not None:
            out[...] = r
            return out
        return r
    res = np.empty(tuple(dims[c] for c in rhs), dtype=object)
    res.reshape(-1)[:] = ZERO
    for ix, p in d.items():
        res[ix] = p
    res = wrap(res, k)
    if out is not None:
        out[...] = res
        return out
    return res


_LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def _asarr(x):
    return x if isinstance(x, np.ndarray) else sym_array(x, copy=False)


def s_dot(a, b, out=None):
    a, b = _asarr(a), _asarr(b)
    if not has_sym([a, b]):
        return np.dot(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return a*b
    la = _LET[:a.ndim]
    if b.ndim == 1:
        return s_einsum('%s,%s->%s' % (la, la[-1], la[:-1]), a, b)
    lb = _LET[a.ndim:a.ndim + b.ndim]
    lb = lb[:-2] + la[-1] + lb[-1]
    return s_einsum('%s,%s->%s' % (la, lb, la[:-1] + lb[:-2] + lb[-1]), a, b)


def s_matmul(a, b):
    a, b = _asarr(a), _asarr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return s_dot(a, b)
    nb = max(a.ndim, b.ndim) - 2
    batch = _LET[:nb]
    la = (batch[nb - (a.ndim - 2):] + 'XY') if a.ndim > 1 else 'Y'
    lb = (batch[nb - (b.ndim - 2):] + 'YZ') if b.ndim > 1 else 'Y'
    lo = batch + ('X' if a.ndim > 1 else '') + ('Z' if b.ndim > 1 else '')
    return s_einsum('%s,%s->%s' % (la, lb, lo), a, b)


def s_tensordot(a, b, axes=2):
    a, b = _asarr(a), _asarr(b)
    if not has_sym([a, b]):
        return np.tensordot(a, b, axes)
    if isinstance(axes, int):
        axa = list(range(a.ndim - axes, a.ndim))
        axb = list(range(axes))
    else:
        axa, axb = axes
        axa = [axa] if isinstance(axa, int) else list(axa)
        axb = [axb] if isinstance(axb, int) else list(axb)
    la = list(_LET[:a.ndim])
    lb = list(_LET[a.ndim:a.ndim + b.ndim])
    for x, y in zip(axa, axb):
        lb[y] = la[x]
    oa = [c for i, c in enumerate(la) if i not in
          [x % a.ndim for x in axa]]
    ob = [c for i, c in enumerate(lb) if i not in
          [x % b.ndim for x in axb]]
    return s_einsum('%s,%s->%s' % (''.join(la), ''.join(lb),
                                   ''.join(oa + ob)), a, b)


def s_outer(a, b, out=None):
    a, b = _asarr(a).ravel(), _asarr(b).ravel()
    return s_einsum('a,b->ab', a, b)


def s_vdot(a, b):
    a, b = _asarr(a).ravel(), _asarr(b).ravel()
    return s_einsum('a,a->', a.conj(), b)


def s_inner(a, b):
    a, b = _asarr(a), _asarr(b)
    la = _LET[:a.ndim]
    lb = _LET[a.ndim:a.ndim + b.ndim - 1] + la[-1]
    return s_einsum('%s,%s->%s' % (la, lb, la[:-1] + lb[:-1]), a, b)


def s_trace(a, *args, **kw):
    return _asarr(a).trace(*args, **kw)


def s_kron(a, b):
    a, b = _asarr(a), _asarr(b)
    r = s_einsum('ij,kl->ikjl', a, b)
    return r.reshape(a.shape[0]*b.shape[0], a.shape[1]*b.shape[1])


# ------------------------------------------------------------ logic

def _elems(x):
    return list(raw(_asarr(x).astype(object) if not isinstance(x, SArr)
                    else x).reshape(-1)) if isinstance(x, (np.ndarray, list,
                                                           tuple)) else [x]


def s_any(a, axis=None, **kw):
    if not has_sym(a):
        return np.any(a, axis=axis, **kw)
    return _asarr(a).any(axis=axis)


def s_all(a, axis=None, **kw):
    if not has_sym(a):
        return np.all(a, axis=axis, **kw)
    return _asarr(a).all(axis=axis)


def s_array_equal(a, b, **kw):
    if not has_sym([a, b]):
        return bool(np.array_equal(a, b))
    a, b = _asarr(a), _asarr(b)
    if a.shape != b.shape:
        return False
    return s_and([x == y for x, y in zip(_elems(a), _elems(b))])


def s_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if not has_sym([a, b]):
        return np.isclose(a, b, rtol=rtol, atol=atol)
    f = _bcast(lambda x, y: abs(_num(x) - _num(y)) <=
               P.to_fraction(atol) + P.to_fraction(rtol)*abs(_num(y)))
    r = f(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return wrap(r, 'b') if isinstance(r, np.ndarray) else r


def s_allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    r = s_isclose(a, b, rtol, atol)
    return s_and(list(raw(r).reshape(-1)) if isinstance(r, SArr)
                 else (list(np.asarray(r).reshape(-1))
                       if isinstance(r, np.ndarray) else [r]))


def s_where(c, *ab):
    if not ab:
        return _asarr(c).nonzero()
    a, b = ab
    if not has_sym([c, a, b]):
        return np.where(c, a, b)
    r = _bcast(ite)(np.asarray(c, dtype=object), np.asarray(a, dtype=object),
                    np.asarray(b, dtype=object))
    return wrap(r, kmax([kind_of(a), kind_of(b)])) \
        if isinstance(r, np.ndarray) else r


def s_nonzero(a):
    if not has_sym(a):
        return np.nonzero(a)
    return _asarr(a).nonzero()


def s_count_nonzero(a, axis=None, **kw):
    if not has_sym(a):
        return np.count_nonzero(a, axis=axis)
    a = _asarr(a)
    b = wrap(_emap(lambda e: _num(_b2p(sbool_of(e))), raw(a)), 'i')
    return b.sum(axis=axis)


def _b2p(b):
    return b.as_poly() if isinstance(b, SBool) else int(b)


def s_norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return np.linalg.norm(x, ord, axis, keepdims)
    if axis is not None or keepdims:
        raise Unsupported('norm with axis')
    f = _elems(x)
    if ord in (None, 'fro', 2):
        t = P.ZERO
        for e in f:
            e = Poly.const(e) if not isinstance(e, Poly) else e
            t = t + e*e.conjugate()
        return t.sqrt()
    if ord == np.inf:
        return _fold('maximum', [abs(e) for e in f])
    if ord == 1:
        t = P.ZERO
        for e in f:
            t = t + abs(e)
        return t
    raise Unsupported('norm order %r' % ord)


def s_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if not has_sym(a):
        if hasattr(a, '__next__') or isinstance(a, types.GeneratorType):
            return builtins.sum(a)
        return np.sum(a, axis=axis)
    a = _asarr(a)
    if keepdims:
        return a.sum(axis=axis, keepdims=True)
    return a.sum(axis=axis)


def s_prod(a, axis=None, **kw):
    if not has_sym(a):
        return np.prod(a, axis=axis)
    return _asarr(a).prod(axis=axis)


def _method(name):
    real = getattr(np, name)

    def g(a, *args, **kw):
        if not has_sym(a):
            return real(a, *args, **kw)
        return getattr(_asarr(a), name)(*args, **kw)
    return g


def holds_array(a):
    return any(isinstance(e, np.ndarray) or
               isinstance(e, (list, tuple)) and holds_array(e) for e in a)


def _passthrough_kind(name):
    """numpy function whose result holds the same entries as its (list of)
    array argument(s)."""
    real = getattr(np, name)

    def g(*args, **kw):
        if not any(has_sym(a) for a in args):
            return real(*args, **kw)
        k = kmax([kind_of(a) for a in args if has_sym(a) or
                  isinstance(a, np.ndarray)])

        def conv(a):
            if isinstance(a, SArr):
                return raw(a)
            if isinstance(a, (list, tuple)) and holds_array(a):
                return type(a)(conv(e) for e in a)
            if isinstance(a, np.ndarray) and a.dtype != object:
                return a.astype(object)
            if isinstance(a, (list, tuple)) and has_sym(a):
                return raw(sym_array(a))
            return a
        r = real(*[conv(a) for a in args], **kw)
        if isinstance(r, np.ndarray):
            return wrap(r, k)
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(e, k) if isinstance(e, np.ndarray) else e
                           for e in r)
        return r
    return g


def _ufunc_proxy(name):
    real = getattr(np, name)

    def g(*args, **kw):
        if not any(has_sym(a) for a in args) and \
                not any(isinstance(a, Fraction) for a in args):
            return real(*args, **kw)
        args = [sym_array(a) if isinstance(a, (list, tuple)) else a
                for a in args]
        if any(isinstance(a, np.ndarray) for a in args):
            arrs = [a if isinstance(a, (SArr, Poly, SBool)) or
                    not isinstance(a, np.ndarray)
                    else wrap(a.astype(object), kind_of(a)) for a in args]
            if not any(isinstance(a, SArr) for a in arrs):
                raise Unsupported(name)
            return real(*arrs, **kw)
        f = _UFUNCS.get(name)
        if f is not None:
            return f(*args)
        ops = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
               'multiply': lambda a, b: a*b, 'negative': lambda a: -a,
               'power': lambda a, b: a**b, 'mod': lambda a, b: a % b,
               'remainder': lambda a, b: a % b,
               'floor_divide': lambda a, b: a//b}
        if name in ops:
            return ops[name](*args)
        raise Unsupported('numpy.%s of symbolic scalars' % name)
    g.__name__ = name
    g.reduce = lambda a, *x, **k: real.reduce(_asarr(a), *x, **k)
    g.accumulate = lambda a, *x, **k: real.accumulate(_asarr(a), *x, **k)
    g.outer = lambda a, b, **k: g(
        _asarr(a)[(Ellipsis,) + (None,)*np.ndim(b)], _asarr(b), **k)
    if hasattr(real, 'at'):
        g.at = real.at
    return g


# ------------------------------------------------------------ random

class RandomProxy(object):
    """numpy.random whose draws are symbolic values in their range; every
    distinct draw is a distinct unconstrained symbol."""

    def __init__(self):
        self.count = itertools.count()
        self.source = None     # callable (index) -> scalar

    def _draw(self, shape, lo, hi, open_ended=False):
        def one():
            if self.source is None:
                raise Unsupported('random draw outside a harness')
            return self.source(lo, hi)
        if shape is None:
            return one()
        shape = (shape,) if isinstance(shape, (int, np.integer)) \
            else tuple(shape)
        a = np.empty(shape, dtype=object)
        f = a.reshape(-1)
        for i in range(f.size):
            f[i] = one()
        return wrap(a, 'f')

    def random(self, size=None):
        return self._draw(size, 0, 1)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self._draw(shape if shape else None, 0, 1)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(size, low, high)

    def randn(self, *shape):
        return self._draw(shape if shape else None, None, None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw(size, None, None)

    def standard_normal(self, size=None):
        return self._draw(size, None, None)

    def seed(self, *a, **k):
        pass

    def default_rng(self, *a, **k):
        return self

    RandomState = default_rng

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy.random.%s' % n)


class LinalgProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.linalg')

    norm = staticmethod(s_norm)

    @staticmethod
    def multi_dot(arrays, **kw):
        r = arrays[0]
        for a in arrays[1:]:
            r = s_dot(r, a)
        return r

    def __getattr__(self, n):
        real = getattr(np.linalg, n)
        if not callable(real) or isinstance(real, type):
            return real

        def g(*a, **k):
            if any(has_sym(x) for x in a):
                raise Unsupported('numpy.linalg.%s' % n)
            return real(*a, **k)
        return g


def make_proxy():
    m = types.ModuleType('numpy')
    ov = {
        'array': sym_array,
        'asarray': lambda x, dtype=None, **kw: sym_array(x, dtype, False),
        'asanyarray': lambda x, dtype=None, **kw: sym_array(x, dtype, False),
        'ascontiguousarray':
            lambda x, dtype=None, **kw: sym_array(x, dtype, False),
        'copy': lambda a, **kw: sym_array(a),
        'require': lambda a, dtype=None, requirements=None, **kw:
            sym_array(a, dtype, False),
        'asfortranarray': lambda x, dtype=None, **kw:
            sym_array(x, dtype, False),
        'hypot': lambda a, b: m.sqrt(a*a + b*b),
        'float_power': lambda a, b: m.power(a, b)
            if has_sym([a, b]) else np.float_power(a, b),
        'copysign': lambda a, b: s_where(_cmp0(b), -m.abs(a), m.abs(a))
            if has_sym([a, b]) else np.copysign(a, b),
        'heaviside': lambda a, h: s_where(a > 0, 1.0, s_where(
            a < 0, 0.0, h)) if has_sym([a, h]) else np.heaviside(a, h),
        'nansum': s_sum, 'nanmax': _method('max'), 'nanmin': _method('min'),
        'nan_to_num': lambda a, **kw: np.nan_to_num(a, **kw)
            if not has_sym(a) else _wrapk(_bcast(
                lambda x: x if isinstance(x, (Poly, SBool)) else
                np.nan_to_num(x, **kw))(np.asarray(a, dtype=object)),
                kind_of(a)),
        'argsort': lambda a, *x, **kw: _asarr(a).argsort(*x, **kw),
        'bincount': _bincount, 'r_': _Rows(0), 'c_': _Rows(1),
        'zeros': s_zeros, 'ones': s_ones, 'empty': s_empty, 'full': s_full,
        'zeros_like': _like(s_zeros), 'ones_like': _like(s_ones),
        'empty_like': _like(s_empty), 'full_like': _like(s_full),
        'eye': s_eye, 'identity': lambda n, dtype=None: s_eye(n, dtype=dtype),
        'diag': s_diag,
        'einsum': s_einsum, 'dot': s_dot, 'matmul': s_matmul,
        'tensordot': s_tensordot, 'outer': s_outer, 'vdot': s_vdot,
        'inner': s_inner, 'trace': s_trace, 'kron': s_kron,
        'any': s_any, 'all': s_all, 'array_equal': s_array_equal,
        'array_equiv': s_array_equal,
        'isclose': s_isclose, 'allclose': s_allclose, 'where': s_where,
        'nonzero': s_nonzero, 'flatnonzero':
            lambda a: s_nonzero(_asarr(a).ravel())[0],
        'count_nonzero': s_count_nonzero,
        'argwhere': lambda a: np.transpose(s_nonzero(a)),
        'sum': s_sum, 'prod': s_prod,
        'max': _method('max'), 'amax': _method('max'),
        'min': _method('min'), 'amin': _method('min'),
        'argmax': _method('argmax'), 'argmin': _method('argmin'),
        'mean': _method('mean'),
        'real': lambda a: a.real, 'imag': lambda a: a.imag,
        'isrealobj': lambda a: kind_of(a) != 'c',
        'iscomplexobj': lambda a: kind_of(a) == 'c',
        'result_type': lambda *a: np.result_type(
            *[KDT[kind_of(x)] if has_sym(x) else x for x in a]),
        'clip': lambda a, lo, hi, **kw: (
            np.clip(a, lo, hi) if not has_sym([a, lo, hi]) else
            _wrapk(_bcast(lambda x, l, h: s_min2(s_max2(x, l), h))(
                np.asarray(a, dtype=object), lo, hi), kind_of(a))),
        'may_share_memory': lambda a, b: np.may_share_memory(a, b),
        'shares_memory': lambda a, b: np.shares_memory(a, b),
        'vectorize': _Vectorize,
        'ndim': lambda a: 0 if isinstance(a, (Poly, SBool)) else np.ndim(a),
        'shape': lambda a: () if isinstance(a, (Poly, SBool))
            else np.shape(a),
        'size': lambda a, axis=None: 1 if isinstance(a, (Poly, SBool))
            else np.size(a, axis),
        'isscalar': lambda a: isinstance(a, (Poly, SBool)) or np.isscalar(a),
        'fromiter': lambda it, dtype=None, count=-1:
            sym_array(list(it), dtype),
        'int': int, 'float': float, 'bool': bool,
        'array2string': lambda *a, **k: 'array',
        'errstate': np.errstate,
        'piecewise': _piecewise, 'select': _select,
        'ix_': np.ix_,
        'cumsum': _passthrough_kind('cumsum'),
    }
    for n in ('concatenate', 'hstack', 'vstack', 'dstack', 'stack', 'block',
              'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'reshape',
              'ravel', 'squeeze', 'expand_dims', 'repeat', 'tile', 'flip',
              'roll', 'append', 'delete', 'insert', 'split', 'array_split',
              'hsplit', 'vsplit', 'tril', 'triu', 'diagonal', 'take',
              'broadcast_to', 'atleast_1d', 'atleast_2d', 'column_stack',
              'pad', 'rot90'):
        ov[n] = _passthrough_kind(n)
    # a transposed/reshaped view must stay a view: operate on the array itself
    ov['transpose'] = lambda a, axes=None: _asarr(a).transpose(axes) \
        if axes is not None else _asarr(a).transpose()
    ov['reshape'] = lambda a, s, **kw: _asarr(a).reshape(s)
    ov['ravel'] = lambda a, **kw: _asarr(a).ravel()
    for n in ('exp', 'log', 'sqrt', 'expm1', 'log1p', 'abs', 'absolute',
              'fabs', 'add', 'subtract', 'multiply', 'divide', 'true_divide',
              'negative', 'power', 'mod', 'remainder', 'floor_divide',
              'maximum', 'minimum', 'fmax', 'fmin', 'sign', 'isfinite',
              'isnan', 'isinf', 'logical_and', 'logical_or', 'logical_not',
              'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
              'invert', 'conj', 'conjugate', 'square', 'logaddexp',
              'equal', 'not_equal', 'less', 'less_equal', 'greater',
              'greater_equal', 'positive', 'tanh', 'cosh', 'sinh'):
        ov[n] = _ufunc_proxy(n)
    ov['abs'] = ov['absolute']
    ov['conj'] = ov['conjugate']
    ov['random'] = RandomProxy()
    ov['linalg'] = LinalgProxy()
    for k, v in ov.items():
        setattr(m, k, v)
    m.__vf_proxy__ = True
    m.__getattr__ = lambda n: getattr(np, n)
    m.__path__ = np.__path__
    m.__spec__ = np.__spec__
    return m


def _cmp0(b):
    return (b if isinstance(b, (np.ndarray, Poly)) else np.asarray(b)) < 0


def _bincount(x, weights=None, minlength=0):
    if weights is None or not has_sym(weights):
        return np.bincount(np.asarray(x).astype(int), weights, minlength)
    x = [int(e) for e in np.asarray(x).reshape(-1)]
    r = s_zeros(max([minlength] + [e + 1 for e in x]))
    for e, v in zip(x, weights):
        r[e] = r[e] + v
    return r


class _Rows(object):
    """numpy.r_ and numpy.c_ of arrays and numbers"""

    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, key):
        if not has_sym(key):
            return (np.c_ if self.cols else np.r_)[key]
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (str, slice)) for k in key):
            raise Unsupported('numpy.r_ with ranges')
        p = sys.modules['numpy']
        if self.cols:
            return p.column_stack([p.atleast_1d(k) for k in key])
        return p.concatenate([p.atleast_1d(k) for k in key])


def _wrapk(r, k):
    return wrap(r, k) if isinstance(r, np.ndarray) else r


class _Vectorize(object):
    def __init__(self, f, otypes=None, excluded=None, **kw):
        self.f = f
        self.ot = otypes

    def __call__(self, *args, **kw):
        g = lambda *a: self.f(*a, **kw)
        r = _bcast(g)(*[np.asarray(a, dtype=object) for a in args])
        if not isinstance(r, np.ndarray):
            return r
        k = dt_kind(self.ot[0]) if self.ot else kind_of(r)
        return wrap(r, k)


def _select(conds, choices, default=0):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = s_where(c, x, r)
    return r


def _piecewise(x, conds, funcs, *a, **kw):
    x = _asarr(x)
    out = s_zeros(x.shape, KDT[kind_of(x)])
    f = out.reshape(-1)
    conds = [_asarr(c).reshape(-1) for c in conds]
    for i, e in enumerate(raw(x).reshape(-1)):
        done = False
        for c, g in zip(conds, funcs):
            if bool(c[i]):
                f[i] = g(e, *a, **kw) if callable(g) else g
                done = True
        if not done and len(funcs) > len(conds):
            g = funcs[-1]
            f[i] = g(e, *a, **kw) if callable(g) else g
    return out


# ------------------------------------------------------------ conversions

def _one(x):
    """the only entry of an array, or the number itself"""
    return raw(x).reshape(-1)[0] if isinstance(x, SArr) and x.size == 1 else x


def conv_float(*a):
    x = _one(a[0]) if a else 0.0
    if isinstance(x, (Poly, SBool)):
        return cast_scalar(x, 'f')
    return float(*a)


def conv_int(x):
    y = _one(x)
    if isinstance(y, SBool):
        return y.as_poly()
    if isinstance(y, Poly) and not y.is_const() and y.is_integral():
        return y
    return int(x)


def conv_complex(*a, **kw):
    if len(a) == 1 and not kw and isinstance(_one(a[0]), (Poly, SBool)):
        return cast_scalar(_one(a[0]), 'f') if kind_of(_one(a[0])) != 'c' \
            else _one(a[0])
    if len(a) == 2 and has_sym(a):
        raise Unsupported('complex(x, y) of symbolic numbers')
    return complex(*a, **kw)


def conv_isinstance(x, t):
    if isinstance(x, t) or not isinstance(x, (Poly, SBool)):
        return isinstance(x, t)
    k = kind_of(x)
    if k == 'i' and x.is_const():
        raise Unsupported('type of a constant')
    # entries of arrays are numpy's numbers
    return any(issubclass(c, t) for c in {
        'f': (np.float64,), 'c': (np.complex128,), 'i': (np.int64,),
        'b': (np.bool_,)}[k])


def conv_cast(t, *a, **kw):
    """numpy.float64(x) and the like"""
    if len(a) == 1 and not kw and has_sym(a[0]) and t in (
            np.float64, np.complex128):
        if isinstance(a[0], (Poly, SBool)):
            return conv_float(a[0]) if t is np.float64 else \
                conv_complex(a[0])
        return sym_array(a[0], t)
    return t(*a, **kw)


CONVERSIONS = {'int': conv_int, 'float': conv_float, 'complex': conv_complex,
               'isinstance': conv_isinstance, 'cast': conv_cast}
