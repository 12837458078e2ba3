"""Path-forking symbolic execution on top of the polynomial scalars.

Data-dependent branches in the executed code reach SBool.__bool__, which asks
the solver which outcomes are feasible under the current path condition and
lets the explorer visit every feasible one by re-execution.
"""
from fractions import Fraction

from . import poly as P
from .poly import Poly, VARS, Unsupported, mono_items
from .solver import z3, check


class PathAbort(BaseException):
    """The current path turned out to be infeasible."""


class TooManyPaths(BaseException):
    pass


# ------------------------------------------------------------ z3 conversion

def zvar(v):
    if v.z is None:
        if v.kind == 'bit':
            v.z = z3.Bool(v.name)
        elif v.kind == 'int':
            v.z = z3.Int(v.name)
        else:
            v.z = z3.Real(v.name)
    return v.z


_R0 = z3.RealVal(0)
_R1 = z3.RealVal(1)
_mono_cache = {}


def _mono_real(m):
    """z3 real term of a monomial; bits become a guard."""
    t = _mono_cache.get(m)
    if t is not None:
        return t
    facs = []
    guard = []
    for vid, e in mono_items(m):
        v = VARS[vid]
        if v.kind == 'bit':
            guard.append(zvar(v))
        else:
            z = zvar(v)
            if v.kind == 'int':
                z = z3.ToReal(z)
            facs.extend([z]*e)
    if not facs:
        t = _R1
    elif len(facs) == 1:
        t = facs[0]
    else:
        t = z3.Product(*facs)
    if guard:
        t = z3.If(z3.And(*guard) if len(guard) > 1 else guard[0], t, _R0)
    _mono_cache[m] = t
    return t


def to_z3(p):
    """Real-sorted z3 term of a Poly (or number, or ready-made z3 term)."""
    if isinstance(p, z3.ExprRef):
        return z3.ToReal(p) if p.sort().kind() == z3.Z3_INT_SORT else p
    if not isinstance(p, Poly):
        if isinstance(p, SBool):
            return z3.If(p.z, _R1, _R0)
        f = P.to_fraction(p)
        return z3.RealVal(str(f))
    ts = []
    for m, c in p.num.items():
        if m == 0:
            ts.append(z3.RealVal(str(Fraction(c, p.den))))
            continue
        t = _mono_real(m)
        f = Fraction(c, p.den)
        ts.append(t if f == 1 else z3.RealVal(str(f))*t)
    if not ts:
        return _R0
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def to_z3_int(p):
    if not p.is_integral():
        raise Unsupported('integer operation on a symbolic real')
    ts = []
    for m, c in p.num.items():
        if m == 0:
            ts.append(z3.IntVal(c))
            continue
        facs, guard = [], []
        for vid, e in mono_items(m):
            v = VARS[vid]
            if v.kind == 'bit':
                guard.append(zvar(v))
            else:
                facs.extend([zvar(v)]*e)
        t = z3.IntVal(c)
        for f in facs:
            t = t*f
        if guard:
            t = z3.If(z3.And(*guard), t, z3.IntVal(0))
        ts.append(t)
    if not ts:
        return z3.IntVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def clear_caches():
    _mono_cache.clear()


# ------------------------------------------------------------ booleans

class SBool(object):
    __slots__ = ('z', 'bit')

    def __init__(self, z, bit=None):
        self.z = z
        self.bit = bit

    def __bool__(self):
        return EX.branch(self.z)

    def __and__(self, o):
        o = _bz(o)
        return NotImplemented if o is None else mkbool(z3.And(self.z, o))

    __rand__ = __and__

    def __or__(self, o):
        o = _bz(o)
        return NotImplemented if o is None else mkbool(z3.Or(self.z, o))

    __ror__ = __or__

    def __xor__(self, o):
        o = _bz(o)
        return NotImplemented if o is None else mkbool(z3.Xor(self.z, o))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def logical_not(self):
        return mkbool(z3.Not(self.z))

    def as_poly(self):
        return bool_poly(self)

    def __eq__(self, o):
        z = _bz(o)
        if z is None:
            return self.as_poly() == o
        return mkbool(self.z == z)

    def __ne__(self, o):
        z = _bz(o)
        if z is None:
            return self.as_poly() != o
        return mkbool(self.z != z)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def item(self):
        return self

    def all(self):
        return self

    any = all

    def __repr__(self):
        return 'SBool(%s)' % self.z


def _arith(name):
    def f(self, o):
        if isinstance(o, SBool):
            o = o.as_poly()
        return getattr(self.as_poly(), name)(o)
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv',
           'pow', 'rpow', 'mod', 'floordiv', 'lt', 'le', 'gt', 'ge'):
    setattr(SBool, '__%s__' % _n, _arith('__%s__' % _n))
for _n in ('neg', 'pos', 'abs'):
    setattr(SBool, '__%s__' % _n,
            (lambda nm: lambda self: getattr(self.as_poly(), nm)())(
                '__%s__' % _n))


def _bz(o):
    if isinstance(o, SBool):
        return o.z
    if isinstance(o, bool) or type(o).__name__ in ('bool_', 'bool'):
        return z3.BoolVal(bool(o))
    return None


def mkbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    s = z3.simplify(z) if _small(z) else z
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(z)


def _small(z):
    return True


_bit_atoms = {}


def bool_poly(b):
    """0/1 polynomial of a boolean."""
    if isinstance(b, bool):
        return P.ONE if b else P.ZERO
    k = b.z.get_id()
    hit = _bit_atoms.get(k)
    if hit is None:
        v = P.new_var('bool!%d' % len(VARS), 'bit')
        v.defs = (lambda zz, vv: lambda: [zvar(vv) == zz])(b.z, v)
        v.deps = z3_deps(b.z)
        v.origin = ('bool', b.z)
        hit = (Poly.var(v), b.z)
        _bit_atoms[k] = hit
    return hit[0]


def sbool_of(x):
    """SBool/bool of an arbitrary scalar's truth value, without forking."""
    if isinstance(x, (SBool, bool)):
        return x
    if isinstance(x, Poly):
        return x != 0
    return bool(x)


def s_and(xs):
    zs = []
    for x in xs:
        x = sbool_of(x)
        if isinstance(x, SBool):
            zs.append(x.z)
        elif not x:
            return False
    if not zs:
        return True
    return mkbool(z3.And(*zs)) if len(zs) > 1 else SBool(zs[0])


def s_or(xs):
    zs = []
    for x in xs:
        x = sbool_of(x)
        if isinstance(x, SBool):
            zs.append(x.z)
        elif x:
            return True
    if not zs:
        return False
    return mkbool(z3.Or(*zs)) if len(zs) > 1 else SBool(zs[0])


def s_not(x):
    x = sbool_of(x)
    return mkbool(z3.Not(x.z)) if isinstance(x, SBool) else (not x)


def ite(c, a, b):
    c = sbool_of(c)
    if not isinstance(c, SBool):
        return a if c else b
    if isinstance(a, SBool) or isinstance(b, SBool) or \
            (isinstance(a, bool) and isinstance(b, bool)):
        za, zb = _bz(a), _bz(b)
        if za is not None and zb is not None:
            return mkbool(z3.If(c.z, za, zb))
    w = bool_poly(c)
    if isinstance(a, SBool):
        a = a.as_poly()
    if isinstance(b, SBool):
        b = b.as_poly()
    if any(not isinstance(x, Poly) and P._nonfinite(x) for x in (a, b)):
        return a if bool(c) else b
    a, b = Poly.const(a), Poly.const(b)
    return b._exact_addsub(w*(a._exact_addsub(b, -1)), 1)


# ------------------------------------------------------------ atoms

def z3_deps(z):
    """vids of registered variables occurring in a z3 term."""
    seen, out, todo = set(), set(), [z]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            v = P.BYNAME.get(e.decl().name())
            if v is not None:
                out.add(v.vid)
        todo.extend(e.children())
    return tuple(out)


_atom_cache = {}


def atom(op, args, kind, defs):
    """Poly of a defined variable.  defs(zvar) -> list of z3 constraints."""
    key = (op,) + tuple(a.key() if isinstance(a, Poly) else a for a in args)
    hit = _atom_cache.get(key)
    if hit is not None:
        return hit
    v = P.new_var('%s!%d' % (op, len(VARS)), kind)
    v.defs = lambda: defs(zvar(v))
    deps = set()
    for a in args:
        if isinstance(a, Poly):
            deps.update(a.vids())
    v.deps = tuple(deps)
    v.origin = (op, args)
    p = Poly.var(v)
    _atom_cache[key] = p
    EX.note_atom(v)
    return p


def _inverse(d):
    zd = to_z3(d)
    return atom('inv', (d,), 'real',
                lambda w: [z3.Implies(zd != 0, w*zd == 1)])


def _mod(p, o):
    o = o if isinstance(o, int) else int(o)
    zi = to_z3_int(p)
    if o == 2:
        b = bool_poly(mkbool(zi % 2 == 1))
        return b
    return atom('mod', (p, o), 'int', lambda w: [w == zi % o])


def _floordiv(p, o):
    o = o if isinstance(o, int) else int(o)
    zi = to_z3_int(p)
    if o <= 0:
        raise Unsupported('floor division by %r' % o)
    return atom('floordiv', (p, o), 'int', lambda w: [w == zi/o])


def _abs(p):
    if p.is_integral():
        # |a-b| of two bits is (a-b)^2 and similar; use an ite
        return ite(p >= 0, p, -p)
    zp = to_z3(p)
    return atom('abs', (p,), 'real',
                lambda w: [w == z3.If(zp >= 0, zp, -zp)])


def _sqrt(p):
    zp = to_z3(p)
    return atom('sqrt', (p,), 'real',
                lambda w: [z3.Implies(zp >= 0, z3.And(w >= 0, w*w == zp))])


def _round(p, n):
    # ties are left open
    zp = to_z3(p)
    h = Fraction(1, 2)/Fraction(10)**int(n or 0)
    h = z3.RealVal(str(h))
    return atom('round', (p, n), 'int' if n is None else 'real', lambda w: [
        w - zp <= h, zp - w <= h])


def _toint(p):
    return EX.concretise(p)


def _cmp(op, d):
    if d.has_complex():
        if op not in ('eq', 'ne'):
            raise Unsupported('ordering of complex numbers')
    if d.is_integral():
        z, o = to_z3_int(d), z3.IntVal(0)
    else:
        z, o = to_z3(d), _R0
    r = {'lt': z < o, 'le': z <= o, 'gt': z > o, 'ge': z >= o,
         'eq': z == o, 'ne': z != o}[op]
    return mkbool(r)


P.HOOKS.update(inverse=_inverse, mod=_mod, floordiv=_floordiv, abs=_abs,
               sqrt=_sqrt, toint=_toint, cmp=_cmp, round=_round)


# ------------------------------------------------------------ explorer

def closure_defs(vids):
    """Definitions of all atoms reachable from the given variables."""
    out, todo, seen = [], list(vids), set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        var = VARS[v]
        if var.defs is not None:
            out.extend(var.defs())
            todo.extend(var.deps)
    for ax in EX.axioms(seen):
        out.append(ax)
    return out


class Explorer(object):
    def __init__(self):
        self.max_paths = 20000
        self.timeout_ms = 60000
        self.begin_run()

    def begin_run(self):
        self.prefix = []
        self.stats = {'paths': 0, 'forks': 0, 'unknown_branches': 0,
                      'infeasible': 0}
        self.base = []
        self.axiom_source = None
        self.begin_path()

    def begin_path(self):
        self.pos = 0
        self.trace = []       # [decision, alternative still open]
        self.conds = list(self.base)
        self.loaded_defs = set()
        self.solver = None

    def note_atom(self, v):
        pass

    def axioms(self, vids):
        if self.axiom_source is None:
            return []
        return self.axiom_source(vids)

    def assume(self, z):
        if isinstance(z, SBool):
            z = z.z
        if isinstance(z, bool):
            if not z:
                raise PathAbort()
            return
        self.conds.append(z)
        if self.solver is not None:
            self.solver.add(z)
            self._load_defs(z)

    def _load_defs(self, z):
        need = [v for v in z3_deps(z) if v not in self.loaded_defs]
        if need:
            self.loaded_defs.update(need)
            for d in closure_defs(need):
                self.solver.add(d)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout_ms)
            for c in self.conds:
                self.solver.add(c)
                self._load_defs(c)
        return self.solver

    def feasible(self, z):
        s = self._solver()
        self._load_defs(z)
        s.push()
        s.add(z)
        r = check(s)
        s.pop()
        return r

    def branch(self, z):
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self._commit(z if d[0] else z3.Not(z))
            return d[0]
        rt = self.feasible(z)
        rf = self.feasible(z3.Not(z))
        if rt == z3.unknown or rf == z3.unknown:
            self.stats['unknown_branches'] += 1
        ft, ff = rt != z3.unsat, rf != z3.unsat
        if not ft and not ff:
            raise PathAbort()
        self.pos += 1
        if ft and ff:
            self.stats['forks'] += 1
            d = [True, True]
        elif ft:
            d = [True, False]
        else:
            d = [False, False]
        self.trace.append(d)
        self._commit(z if d[0] else z3.Not(z))
        return d[0]

    def _commit(self, z):
        self.conds.append(z)
        if self.solver is not None:
            self.solver.add(z)
            self._load_defs(z)

    def concretise(self, p):
        """Fork over the feasible values of an integral polynomial."""
        zi = to_z3_int(p)
        for _ in range(10000):
            if self.pos < len(self.prefix):
                val = self.prefix[self.pos][2]
            else:
                s = self._solver()
                self._load_defs(zi)
                if check(s) != z3.sat:
                    raise PathAbort()
                val = s.model().eval(zi, model_completion=True).as_long()
            n = len(self.trace)
            r = self.branch(zi == val)
            if len(self.trace) > n:
                d = self.trace[n]
                if len(d) == 2:
                    d.append(val)
            elif r:
                return val
            if r:
                return val
        raise Unsupported('cannot concretise')

    def explore(self, fn, stop=lambda: False):
        """Run fn() once per feasible path, yielding nothing; fn does its own
        bookkeeping.  Returns the number of completed paths."""
        self.prefix = []
        done = 0
        while True:
            self.begin_path()
            try:
                fn()
                done += 1
                self.stats['paths'] += 1
            except PathAbort:
                self.stats['infeasible'] += 1
            if done + self.stats['infeasible'] > self.max_paths:
                raise TooManyPaths()
            if stop():
                return done
            tr = self.trace
            while tr and not tr[-1][1]:
                tr.pop()
            if not tr:
                return done
            last = tr[-1]
            tr[-1] = [not last[0], False] + last[2:]
            self.prefix = tr


EX = Explorer()


def reset_all():
    P.reset()
    _mono_cache.clear()
    _bit_atoms.clear()
    _atom_cache.clear()
    EX.begin_run()
