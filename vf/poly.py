"""Symbolic scalars: sparse polynomials with exact rational coefficients over
registered variables.

A monomial is one Python integer that packs the exponents of all variables
(4 bits per variable), so that multiplying monomials is integer addition.
Variables come in kinds:

  real     any real number
  int      any integer (an SMT Int)
  bit      0/1 integer (an SMT Bool)
  complex  a complex number; its conjugate is a second, paired variable

Non-polynomial operations (division by a non-constant, exp, log, floor, ...)
introduce *atoms*: fresh variables with a defining constraint which is passed
to the solver with every query in which the atom occurs.
"""
from fractions import Fraction
from math import gcd, isinf, isnan

EXPBITS = 4
MAXDEG = (1 << EXPBITS) - 1


class Unsupported(BaseException):
    """The symbolic engine met an operation it has no model for."""


class Var(object):
    __slots__ = ('vid', 'name', 'kind', 'conj', 'mono', 'defs', 'z', 'deps',
                 'origin')

    def __init__(self, vid, name, kind):
        self.vid = vid
        self.name = name
        self.kind = kind
        self.conj = None
        self.mono = 1 << (EXPBITS*vid)
        self.defs = None      # callable returning z3 constraints, for atoms
        self.z = None
        self.deps = ()        # polys an atom's definition mentions
        self.origin = None    # (op, args) for atoms


VARS = []
BYNAME = {}
# the exponent-one monomial bits of all 0/1 variables; x*x = x for those
BITS = 0


def reset():
    global BITS
    BITS = 0
    del VARS[:]
    BYNAME.clear()
    _atoms.clear()


def new_var(name, kind='real'):
    if name in BYNAME:
        raise ValueError('variable %s registered twice' % name)
    v = Var(len(VARS), name, kind)
    VARS.append(v)
    BYNAME[name] = v
    if kind == 'bit':
        global BITS
        BITS |= v.mono
    if kind == 'complex':
        w = Var(len(VARS), name + '~', 'complex')
        VARS.append(w)
        BYNAME[w.name] = w
        v.conj, w.conj = w, v
    return v


_atoms = {}


def mono_items(m):
    """[(vid, exponent)] of a packed monomial."""
    out = []
    vid = 0
    while m:
        low = (m & -m).bit_length() - 1
        skip = low // EXPBITS
        vid += skip
        m >>= EXPBITS*skip
        out.append((vid, m & MAXDEG))
        m >>= EXPBITS
        vid += 1
    return out


_fcache = {}


def to_fraction(x):
    """A number as an exact rational.  A float that is the closest double of a
    simple rational (1/6.0, 0.1, ...) is read as that rational."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    try:
        return _fcache[x]
    except (KeyError, TypeError):
        pass
    f = float(x)
    if isinf(f) or isnan(f):
        raise Unsupported('non-finite number %r in symbolic arithmetic' % x)
    e = Fraction(f)
    s = e.limit_denominator(100000)
    r = s if (float(s) == f) else e
    if len(_fcache) < 10000:
        _fcache[x] = r
    return r


def is_number(x):
    return isinstance(x, (int, float, Fraction)) or \
        (hasattr(x, 'dtype') and getattr(x, 'shape', None) == () and
         x.dtype.kind in 'biuf')


class Poly(object):
    __slots__ = ('num', 'den', 'deg')

    def __init__(self, num, den=1, deg=0):
        self.num = num
        self.den = den
        self.deg = deg

    # ---- construction
    @staticmethod
    def const(x):
        if isinstance(x, Poly):
            return x
        f = to_fraction(x)
        if f == 0:
            return ZERO
        return Poly({0: f.numerator}, f.denominator, 0)

    @staticmethod
    def var(v):
        return Poly({v.mono: 1}, 1, 1)

    # ---- inspection
    def is_const(self):
        n = self.num
        return not n or (len(n) == 1 and 0 in n)

    def const_value(self):
        if not self.num:
            return Fraction(0)
        return Fraction(self.num[0], self.den)

    def key(self):
        g = self.den
        for c in self.num.values():
            g = gcd(g, c)
            if g == 1:
                break
        if g == 1:
            return (self.den, frozenset(self.num.items()))
        return (self.den//g,
                frozenset((m, c//g) for m, c in self.num.items()))

    def same(self, other):
        """Syntactic (= polynomial) identity."""
        if self is other:
            return True
        if len(self.num) != len(other.num):
            return False
        if self.den == other.den:
            return self.num == other.num
        a, b = self.den, other.den
        on = other.num
        for m, c in self.num.items():
            d = on.get(m)
            if d is None or c*b != d*a:
                return False
        return True

    def vids(self):
        u = 0
        for m in self.num:
            u |= m
        return [v for v, _ in mono_items(u)] if u else []

    def is_integral(self):
        if self.den != 1:
            return False
        return all(VARS[v].kind in ('int', 'bit') for v in self.vids())

    def has_complex(self):
        return any(VARS[v].kind == 'complex' for v in self.vids())

    # ---- arithmetic
    def _addsub(self, o, sgn):
        if not isinstance(o, Poly):
            if not is_number(o):
                return NotImplemented
            if _nonfinite(o):
                return sgn*float(o)
            if o == 0:
                return self
            o = Poly.const(o)
        if not o.num:
            return self
        if not self.num:
            return o if sgn == 1 else o.__neg__()
        if ROUND is not None:
            return ROUND(self, o, sgn)
        return self._exact_addsub(o, sgn)

    def _exact_addsub(self, o, sgn):
        a, b = self.den, o.den
        if a == b:
            d = self.num.copy()
            den = a
            mul = sgn
        else:
            g = gcd(a, b)
            den = a//g*b
            f = den//a
            d = {m: c*f for m, c in self.num.items()} if f != 1 \
                else self.num.copy()
            mul = sgn*(den//b)
        for m, c in o.num.items():
            s = d.get(m, 0) + mul*c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
        return Poly(d, den if d else 1, max(self.deg, o.deg))

    def __add__(self, o):
        return self._addsub(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        if not isinstance(o, Poly):
            if not is_number(o):
                return NotImplemented
            if _nonfinite(o):
                return float(o)
            o = Poly.const(o)
        return o._addsub(self, -1)

    def __neg__(self):
        return Poly({m: -c for m, c in self.num.items()}, self.den, self.deg)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if not is_number(o):
                return NotImplemented
            if _nonfinite(o):
                return _inf_times(float(o), self)
            if o == 1:
                return self
            o = Poly.const(o)
        if not self.num or not o.num:
            return ZERO
        deg = self.deg + o.deg
        if deg > MAXDEG:
            if not _fields_fit(self, o):
                raise Unsupported('polynomial degree above %d' % MAXDEG)
            deg = MAXDEG + 1
        a, b = self.num, o.num
        if len(a) > len(b):
            a, b = b, a
        d = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                k = m1 + m2 - (m1 & m2 & BITS)
                s = d.get(k, 0) + c1*c2
                if s:
                    d[k] = s
                else:
                    del d[k]
        den = self.den*o.den
        if den > 1 and d:
            g = den
            for c in d.values():
                g = gcd(g, c)
                if g == 1:
                    break
            if g > 1:
                den //= g
                d = {m: c//g for m, c in d.items()}
        if UNITS:
            d, deg = cancel_units(d)
        return Poly(d, den if d else 1, deg)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, Poly):
            if not is_number(o):
                return NotImplemented
            if _nonfinite(o):
                return 0.0 if isinf(float(o)) else float('nan')
            f = to_fraction(o)
            if f == 0:
                return _div_by_zero(self)
            return self*(1/f)
        if o.is_const():
            f = o.const_value()
            if f == 0:
                return _div_by_zero(self)
            return self*(1/f)
        return self*HOOKS['inverse'](o)

    def __rtruediv__(self, o):
        if not is_number(o):
            return NotImplemented
        if _nonfinite(o):
            return _inf_times(float(o), self)
        return Poly.const(o)/self

    def __pow__(self, n):
        if isinstance(n, Poly):
            if n.is_const():
                n = n.const_value()
            else:
                n = HOOKS['toint'](n)
        if is_number(n):
            f = to_fraction(n)
            if f.denominator == 1 and 0 <= f.numerator <= MAXDEG:
                r = ONE
                for _ in range(f.numerator):
                    r = r*self
                return r
            if f.denominator == 1 and f.numerator < 0:
                return ONE/(self**(-f.numerator))
            if f == Fraction(1, 2):
                return self.sqrt()
        raise Unsupported('power %r' % (n,))

    def __rpow__(self, base):
        # (-1)**p and similar, with an integral symbolic exponent
        if self.is_const():
            return base**(self.const_value())
        if self.is_integral():
            if base in (-1, -1.0):
                return ONE - 2*(self % 2)
            if base in (1, 1.0):
                return ONE
            return base**HOOKS['toint'](self)
        raise Unsupported('symbolic exponent')

    def __mod__(self, o):
        if self.is_const() and is_number(o):
            return Poly.const(self.const_value() % to_fraction(o))
        return HOOKS['mod'](self, o)

    def __floordiv__(self, o):
        if self.is_const() and is_number(o):
            return Poly.const(self.const_value()//to_fraction(o))
        return HOOKS['floordiv'](self, o)

    def __rmod__(self, o):
        return Poly.const(o) % self

    def __rfloordiv__(self, o):
        return Poly.const(o)//self

    def __divmod__(self, o):
        return self//o, self % o

    def __and__(self, o):
        return HOOKS['bit']('and', self, o)

    def __or__(self, o):
        return HOOKS['bit']('or', self, o)

    def __xor__(self, o):
        return HOOKS['bit']('xor', self, o)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __lshift__(self, o):
        return self*2**int(o)

    def __rshift__(self, o):
        return self//2**int(o)

    def __rlshift__(self, o):
        return o << int(self)

    def __rrshift__(self, o):
        return o >> int(self)

    def __abs__(self):
        if self.is_const():
            return Poly.const(abs(self.const_value()))
        return HOOKS['abs'](self)

    # ---- comparisons (build solver terms)
    def _cmp(self, op, o):
        if isinstance(o, complex) and o.imag == 0:
            o = o.real
        if not isinstance(o, Poly):
            if not is_number(o):
                if hasattr(o, 'as_poly'):
                    o = o.as_poly()
                else:
                    return NotImplemented
            elif _nonfinite(o):
                x = float(o)
                if isnan(x):
                    return op == 'ne'
                return {'lt': x > 0, 'le': x > 0, 'gt': x < 0, 'ge': x < 0,
                        'eq': False, 'ne': True}[op]
            else:
                o = Poly.const(o)
        d = self._exact_addsub(o, -1) if o.num else self
        if d.is_const():
            v = d.const_value()
            return {'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0,
                    'eq': v == 0, 'ne': v != 0}[op]
        return HOOKS['cmp'](op, d)

    def __lt__(self, o):
        return self._cmp('lt', o)

    def __le__(self, o):
        return self._cmp('le', o)

    def __gt__(self, o):
        return self._cmp('gt', o)

    def __ge__(self, o):
        return self._cmp('ge', o)

    def __eq__(self, o):
        return self._cmp('eq', o)

    def __ne__(self, o):
        return self._cmp('ne', o)

    def __bool__(self):
        return bool(self._cmp('ne', 0))

    def __hash__(self):
        if self.is_const():
            return hash(self.const_value())
        if self.is_integral():
            return hash(HOOKS['toint'](self))
        return hash(self.key())

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        if self.is_integral():
            return HOOKS['toint'](self)
        raise Unsupported('int() of a symbolic real')

    def __index__(self):
        if self.is_const():
            v = self.const_value()
            if v.denominator != 1:
                raise TypeError('non-integer used as an index')
            return int(v)
        if self.is_integral():
            return HOOKS['toint'](self)
        raise TypeError('symbolic real used as an index')

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        if self.is_integral():
            return float(HOOKS['toint'](self))
        raise Unsupported('float() of a symbolic real')

    def __complex__(self):
        if self.is_const():
            return complex(float(self.const_value()))
        raise Unsupported('complex() of a symbolic number')

    def __round__(self, n=None):
        if self.is_integral():
            return self
        if self.has_complex():
            raise Unsupported('round() of a symbolic complex number')
        return HOOKS['round'](self, n)

    def __trunc__(self):
        return int(self)

    # ---- numpy-style methods (object ufuncs call these)
    def conjugate(self):
        if not self.has_complex():
            return self
        out = {}
        for m, c in self.num.items():
            k = 0
            for v, e in mono_items(m):
                w = VARS[v]
                k += e*(w.conj.mono if w.conj is not None else w.mono)
            out[k] = out.get(k, 0) + c
        return Poly(out, self.den, self.deg)

    conj = conjugate

    @property
    def real(self):
        if not self.has_complex():
            return self
        return (self._exact_addsub(self.conjugate(), 1))*Fraction(1, 2)

    @property
    def imag(self):
        if not self.has_complex():
            return ZERO
        raise Unsupported('imaginary part of a symbolic complex number')

    def sqrt(self):
        if self.is_const():
            v = self.const_value()
            if v >= 0:
                import math
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n*n == v.numerator and d*d == v.denominator:
                    return Poly.const(Fraction(n, d))
        return HOOKS['sqrt'](self)

    def exp(self):
        return HOOKS['exp'](self)

    def log(self):
        return HOOKS['log'](self)

    def expm1(self):
        if 'expm1' in HOOKS:
            return HOOKS['expm1'](self)
        return self.exp() - 1

    def log1p(self):
        if 'log1p' in HOOKS:
            return HOOKS['log1p'](self)
        return (self + 1).log()

    def tanh(self):
        return HOOKS['tanh'](self)

    def square(self):
        return self*self

    def rint(self):
        return round(self)

    def item(self):
        return self

    def __getitem__(self, k):
        # entries of arrays are numpy's numbers: x[()] and x[...]
        if k is Ellipsis or isinstance(k, tuple) and k == ():
            return self
        raise IndexError('invalid index to scalar variable.')

    __iter__ = None

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    # ---- evaluation / calculus
    def evaluate(self, env):
        """env: vid -> number (Fraction, float or complex)."""
        tot = 0
        for m, c in self.num.items():
            t = c
            for v, e in mono_items(m):
                x = env[v]
                t = t*(x if e == 1 else x**e)
            tot = tot + t
        if isinstance(tot, int):
            return Fraction(tot, self.den)
        return tot/self.den

    def diff(self, v):
        """Partial derivative with respect to variable v."""
        sh = EXPBITS*v.vid
        out = {}
        for m, c in self.num.items():
            e = (m >> sh) & MAXDEG
            if e:
                out[m - v.mono] = c*e
        return Poly(out, self.den if out else 1, self.deg)

    def coeff_of(self, v):
        return self.diff(v)

    def subs_zero(self, keepmask):
        """Set every variable outside keepmask (union of variable fields)
        to zero."""
        out = {m: c for m, c in self.num.items() if not (m & ~keepmask)}
        return Poly(out, self.den if out else 1, self.deg)

    def __repr__(self):
        if not self.num:
            return '0'
        ts = []
        for m, c in sorted(self.num.items())[:6]:
            f = Fraction(c, self.den)
            s = '*'.join(VARS[v].name + ('^%d' % e if e > 1 else '')
                         for v, e in mono_items(m))
            ts.append('%s%s' % (f if (f != 1 or not s) else '',
                                ('*' if f != 1 and s else '') + s))
        if len(self.num) > 6:
            ts.append('...(%d terms)' % len(self.num))
        return ' + '.join(ts)


def fullmask(v):
    return MAXDEG << (EXPBITS*v.vid)


ZERO = Poly({}, 1, 0)
ONE = Poly({0: 1}, 1, 0)

# operations that need the path context / solver are installed here
HOOKS = {}
# optional rounding model for additions (set by the finite-temperature checks)
ROUND = None


# pairs of variables whose product is one (cancelled in every product)
UNITS = []


def _fields_fit(p, q):
    mx = {}
    for r in (p, q):
        here = {}
        for m in r.num:
            for v, e in mono_items(m):
                here[v] = max(here.get(v, 0), e)
        for v, e in here.items():
            mx[v] = mx.get(v, 0) + e
    return max(e if VARS[v].kind != 'bit' else 1
               for v, e in mx.items()) <= MAXDEG


def cancel_units(d):
    out = {}
    deg = 0
    for m, c in d.items():
        for a, b in UNITS:
            x = (m >> (EXPBITS*a)) & MAXDEG
            if x:
                y = (m >> (EXPBITS*b)) & MAXDEG
                if y:
                    k = min(x, y)
                    m -= (k << (EXPBITS*a)) + (k << (EXPBITS*b))
        n = sum(e for _, e in mono_items(m))
        if n > MAXDEG:
            raise Unsupported('polynomial degree above %d' % MAXDEG)
        deg = max(deg, n)
        s = out.get(m, 0) + c
        if s:
            out[m] = s
        else:
            out.pop(m, None)
    return out, deg


def set_round(f):
    global ROUND
    ROUND = f


def _nonfinite(o):
    if isinstance(o, (int, Fraction)):
        return False
    f = float(o)
    return isinf(f) or isnan(f)


def _inf_times(x, p):
    if isnan(x):
        return x
    if p.is_const():
        return x*float(p.const_value()) if p.const_value() != 0 \
            else float('nan')
    if p > 0:
        return x
    if p < 0:
        return -x
    return float('nan')


def _div_by_zero(p):
    if p.is_const():
        v = p.const_value()
        if v == 0:
            return float('nan')
        return float('inf') if v > 0 else float('-inf')
    if p > 0:
        return float('inf')
    if p < 0:
        return float('-inf')
    return float('nan')
