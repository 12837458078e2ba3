"""Runs the cases of one property: symbolic execution, solver queries,
counterexample replay on the unmodified package, encoding validation,
evidence."""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import re
import subprocess
import sys
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVIDENCE = os.environ.get('VF_EVIDENCE', os.path.join(ROOT, 'evidence'))
PY = os.environ.get('VF_PYTHON', '/opt/venv/bin/python')
QUERY_MS = 120000
DEADLINE_S = 700


class Case(object):
    def __init__(self, name, fn, params=None, validate=1, timeout=600,
                 axioms=None, note='', max_paths=20000, twin=True,
                 round_model=False, hints=None):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.validate = validate
        self.timeout = timeout
        self.note = note
        self.max_paths = max_paths
        self.twin = twin
        self.round_model = round_model
        self.hints = hints
        self.layout = zlib.crc32(name.encode()) % 3


def prop_module(pid):
    return importlib.import_module('vf.props.' + pid.lower())


def find_case(pid, name):
    m = prop_module(pid)
    for tier in ('quick', 'thorough'):
        for c in m.cases(tier):
            if c.name == name:
                return c
    raise KeyError(name)


# ---------------------------------------------------------------- worker

class Runner(object):
    def __init__(self, pid, case, seed):
        self.pid = pid
        self.case = case
        self.seed = seed
        self.used_modules = set()
        self.rng = random.Random('%s/%s/%s' % (seed, pid, case.name))
        self.out = {'case': case.name, 'params': repr(case.params),
                    'obligations': 0, 'elements': 0, 'paths': 0, 'forks': 0,
                    'violations': [], 'errors': [], 'inconclusive': [],
                    'witness': 0, 'monomials': 0, 'variables': 0,
                    'validate': [], 'probe': [], 'infeasible': 0, 'labels': {},
                    'need': set(), 'seen': set()}

    # -- model handling
    def model_values(self, model, decl):
        from . import poly as P
        from .paths import zvar, z3
        vals = {}
        for name, (kind, lo, hi) in decl.items():
            v = P.BYNAME.get(name)
            if v is None:
                continue
            if kind == 'complex':
                a = model.eval(zvar(v), model_completion=True)
                vals[name] = str(_zfrac(a))
                continue
            if v.z is None:
                continue
            e = model.eval(zvar(v), model_completion=True)
            if kind == 'bit':
                vals[name] = 1 if z3.is_true(e) else 0
            elif kind == 'int':
                vals[name] = e.as_long()
            else:
                vals[name] = str(_zfrac(e))
        return vals

    def nice_cex(self, D, conds, decl):
        """A solver model of path /\\ D != 0 with few nonzero inputs and a
        clearly visible difference, if there is one."""
        from . import poly as P
        from .paths import EX, to_z3, z3, zvar, closure_defs
        from .solver import check
        kinds = {P.VARS[v].kind for v in D.vids()}
        atoms = [v for v in D.vids() if P.VARS[v].defs is not None]
        if not conds and not atoms and 'bit' not in kinds:
            # pick a monomial with smallest support, drop other inputs
            best = None
            for m in D.num:
                sup = P.mono_items(m)
                if best is None or len(sup) < len(best):
                    best = sup
            mask = 0
            for v, _ in best:
                mask |= P.fullmask(P.VARS[v])
                if P.VARS[v].conj is not None:
                    mask |= P.fullmask(P.VARS[v].conj)
            Dr = D.subs_zero(mask)
            s = z3.Solver()
            s.set('timeout', 20000)
            z = to_z3(Dr)
            s.add(z3.Or(z >= z3.Q(1, 8), z <= z3.Q(-1, 8)))
            cplx = False
            for v, _ in best:
                zv = zvar(P.VARS[v])
                s.add(z3.Or(z3.And(zv >= z3.Q(1, 4), zv <= 3),
                            z3.And(zv <= z3.Q(-1, 4), zv >= -3)))
                cplx = cplx or P.VARS[v].kind == 'complex'
            if cplx:
                return None
            if check(s) == z3.sat:
                m = s.model()
                vals = {n: '0' for n, (k, lo, hi) in decl.items()}
                for v, _ in best:
                    vals[P.VARS[v].name] = str(_zfrac(
                        m.eval(zvar(P.VARS[v]), model_completion=True)))
                return vals
        return None

    def random_values(self, decl, scale=7):
        r = self.rng
        vals = {}
        for name, (kind, lo, hi) in decl.items():
            if kind == 'complex':
                vals[name] = [str(Fraction(r.randint(-20, 20), scale)),
                              str(Fraction(r.randint(-20, 20), scale))]
            elif kind == 'bit':
                vals[name] = r.randint(0, 1)
            elif kind == 'int':
                vals[name] = r.randint(lo if lo is not None else -3,
                                       hi if hi is not None else 3)
            else:
                l = Fraction(lo) if lo is not None else Fraction(-2)
                h = Fraction(hi) if hi is not None else Fraction(2)
                vals[name] = str(l + (h - l)*Fraction(r.randint(1, 96), 97))
        return vals

    # -- solver queries for one path
    def discharge(self, ctx):
        from . import poly as P
        from .poly import Poly
        from .paths import (EX, SBool, to_z3, z3, closure_defs, z3_deps)
        from .solver import check
        conds = list(EX.conds)
        seen = {}
        nontriv = {}

        def solver():
            s = z3.Solver()
            s.set('timeout', QUERY_MS)
            for c in conds:
                s.add(c)
            need = set()
            for c in conds:
                need.update(z3_deps(c))
            for d in closure_defs(need):
                s.add(d)
            return s
        s0 = solver()
        loaded = set()
        bound = set()
        for c in conds:
            bound.update(z3_deps(c))

        def free(vids):
            # plain inputs that no path condition mentions
            return not (bound and bound.intersection(vids)) and all(
                P.VARS[v].defs is None for v in vids)

        def query(z, vids):
            need = [v for v in vids if v not in loaded]
            if need:
                loaded.update(need)
                for d in closure_defs(need):
                    s0.add(d)
            s0.push()
            s0.add(z)
            r = check(s0)
            m = s0.model() if r == z3.sat else None
            s0.pop()
            return r, m

        for kind, label, lhs, rhs, extra in ctx.obls:
            self.out['obligations'] += 1
            lab = self.out['labels']
            lab[label] = lab.get(label, 0) + 1
            if kind == 'eq':
                a = lhs if isinstance(lhs, np.ndarray) else \
                    ctx.np.sym_array(lhs, copy=False)
                b = rhs if isinstance(rhs, np.ndarray) else \
                    ctx.np.sym_array(rhs, copy=False)
                a, b = np.asarray(a), np.asarray(b)
                if a.shape != b.shape:
                    self.cex(ctx, conds, label, None,
                             'shape %s instead of %s' % (a.shape, b.shape),
                             s0)
                    continue
                af = a.view(np.ndarray).reshape(-1)
                bf = b.view(np.ndarray).reshape(-1)
                for i in range(af.size):
                    x, y = af[i], bf[i]
                    self.out['elements'] += 1
                    if not isinstance(x, z3.ExprRef) and \
                            not isinstance(y, z3.ExprRef):
                        x, y = _scal(x), _scal(y)
                        if isinstance(x, float) or isinstance(y, float):
                            # a non-finite value
                            if not (isinstance(x, float) and
                                    isinstance(y, float) and x == y):
                                self.cex(ctx, conds, label, None,
                                         'non-finite value %s' % (x,), s0)
                            continue
                        if not extra:
                            self.out['need'].add(label)
                            if x.num:
                                nontriv[label] = x
                        k = (x.key(), y.key())
                        if k in seen:
                            continue
                        seen[k] = True
                        self.out['monomials'] += len(x.num) + len(y.num)
                        D = x._exact_addsub(y, -1) if y.num else x
                        zx, zy = to_z3(x), to_z3(y)
                        vids = set(x.vids()) | set(y.vids())
                        r = None
                        if D.num and free(vids):
                            # try first with most inputs set to zero, which
                            # is a much easier query
                            best = min(D.num, key=lambda m: len(
                                P.mono_items(m)))
                            mask = 0
                            for v, _ in P.mono_items(best):
                                mask |= P.fullmask(P.VARS[v])
                            r, m = query(to_z3(D.subs_zero(mask)) != 0,
                                         vids)
                            if r != z3.sat:
                                r = None
                        if r is None:
                            r, m = query(zx != zy, vids)
                    else:
                        if not isinstance(x, z3.ExprRef):
                            x = _scal(x)
                        if not isinstance(y, z3.ExprRef):
                            y = _scal(y)
                        vids = set()
                        for t in (x, y):
                            vids.update(t.vids() if isinstance(t, Poly)
                                        else z3_deps(t))
                        if not extra:
                            nontriv[label] = x
                        r, m = query(to_z3(x) != to_z3(y), vids)
                        D = None
                        if r == z3.sat:
                            d = to_z3(x) - to_z3(y)
                            r2, m2 = query(z3.Or(d >= z3.Q(1, 8),
                                                 d <= z3.Q(-1, 8)), vids)
                            if r2 == z3.sat:
                                m = m2
                    if r == z3.unsat:
                        continue
                    if r == z3.unknown:
                        if D is not None and D.num and free(D.vids()):
                            # nonzero polynomial: look for a nicer point
                            pass
                        else:
                            self.out['inconclusive'].append(
                                '%s[%d]: solver unknown' % (label, i))
                            continue
                    ix = tuple(int(j) for j in np.unravel_index(i, a.shape)) \
                        if a.shape else ()
                    self.cex(ctx, conds, label, m, 'element %s' % (ix,), s0,
                             D)
                    break
            elif kind == 'true':
                c = lhs
                if isinstance(c, np.bool_):
                    c = bool(c)
                self.out['elements'] += 1
                if isinstance(c, bool):
                    if not c:
                        self.cex(ctx, conds, label, None,
                                 'condition is false', s0)
                    continue
                z = c.z if isinstance(c, SBool) else c
                r, m = query(z3.Not(z), set(z3_deps(z)))
                if r == z3.unknown:
                    self.out['inconclusive'].append(
                        '%s: solver unknown' % label)
                elif r == z3.sat:
                    self.cex(ctx, conds, label, m, 'condition is false', s0)
            elif kind == 'close':
                self.out['elements'] += 1
                bad = [t for t in (lhs, rhs) if isinstance(t, float) and
                       (t != t or t in (float('inf'), float('-inf')))]
                if bad:
                    self.cex(ctx, conds, label, None,
                             'non-finite value', s0)
                    continue
                a, b, e = _scal(lhs), _scal(rhs), _scal(extra)
                d = a._exact_addsub(b, -1) if b.num else a
                zd, ze = to_z3(d), to_z3(e)
                vids = set(d.vids()) | set(e.vids())
                if self.case.round_model:
                    from . import ftmodel
                    ok, lm = ftmodel.relaxed(
                        [d._exact_addsub(e, -1), -d._exact_addsub(e, 1)],
                        conds)
                    if ok:
                        continue
                    s0.set('timeout', 20000)
                    r, m = query(z3.Or(zd > ze, -zd > ze), vids)
                    s0.set('timeout', QUERY_MS)
                    if r == z3.unknown and lm is not None:
                        r, m = z3.sat, lm
                else:
                    r, m = query(z3.Or(zd > ze, -zd > ze), vids)
                if r == z3.unknown:
                    self.out['inconclusive'].append(
                        '%s: solver unknown' % label)
                elif r == z3.sat:
                    self.cex(ctx, conds, label, m, 'outside the bound', s0)
        # vacuity: the twin claim "this result is always zero" must fail
        for label, x in nontriv.items():
            if label in self.witnessed:
                continue
            vids = set(x.vids()) if isinstance(x, Poly) else set(z3_deps(x))
            if isinstance(x, Poly) and x.num and free(x.vids()) and \
                    len(x.num) > 1:
                best = min(x.num, key=lambda m: len(P.mono_items(m)))
                mask = 0
                for v, _ in P.mono_items(best):
                    mask |= P.fullmask(P.VARS[v])
                x = x.subs_zero(mask)
                vids = set(x.vids())
            r, m = query(to_z3(x) != 0, vids)
            if r == z3.sat:
                self.witnessed.add(label)
                self.out['witness'] += 1
        if self.case.round_model:
            from . import ftmodel
            for z in ftmodel.witnesses(ctx):
                r, m = query(z, set(z3_deps(z)))
                if r == z3.sat:
                    self.out['witness'] += 1
                    break
        elif not conds or self.out['paths'] < 3:
            r, m = query(z3.BoolVal(True), set())
            if r == z3.sat:
                self.out['witness'] += 1

    def cex(self, ctx, conds, label, model, what, solver, D=None):
        """Record a counterexample candidate for replay."""
        from .paths import z3
        from .solver import check
        key = (label,)
        if self.cexcount.get(key, 0) >= 2 or \
                len(self.out['violations']) >= 8:
            self.out['more_violations'] = True
            return
        self.cexcount[key] = self.cexcount.get(key, 0) + 1
        cands = []
        if D is not None and D.num:
            v = self.nice_cex(D, conds, ctx.decl)
            if v is not None:
                cands.append(v)
            if conds and solver is not None and not D.has_complex():
                # a point on this path where the difference is visible
                from .paths import to_z3
                z = to_z3(D)
                solver.push()
                solver.set('timeout', 20000)
                solver.add(z3.Or(z >= z3.Q(1, 8), z <= z3.Q(-1, 8)))
                if check(solver) == z3.sat:
                    cands.append(self.model_values(solver.model(), ctx.decl))
                solver.pop()
                solver.set('timeout', QUERY_MS)
        if model is None and solver is not None:
            if check(solver) == z3.sat:
                model = solver.model()
        if model is not None:
            v = self.model_values(model, ctx.decl)
            cands.append(v)
            # same branch decisions, generic values for inputs the model
            # leaves free or that carry no constraint
            w = self.random_values(ctx.decl)
            for n in w:
                if ctx.decl[n][0] in ('bit', 'int') and n in v:
                    w[n] = v[n]
            cands.append(w)
        if not conds or model is None:
            for _ in range(3):
                cands.append(self.random_values(ctx.decl))
        if self.case.hints is not None:
            cands.extend(self.case.hints(cands))
        self.out['violations'].append(
            {'case': self.case.name, 'label': label, 'what': what,
             'candidates': cands})

    # -- main
    def run(self):
        from . import poly as P, paths, loader
        from .paths import EX, TooManyPaths
        from .poly import Unsupported
        from .ctx import SymCtx
        from .solver import STATS, reset_stats
        t0 = time.time()
        reset_stats()
        loader.install_symbolic()
        paths.reset_all()
        EX.max_paths = self.case.max_paths
        self.witnessed = set()
        self.cexcount = {}
        ctx = SymCtx(self)
        ctx.layout = self.case.layout
        if self.case.round_model:
            from . import ftmodel
            ftmodel.install()
        last = []

        def once():
            ctx.fresh_path()
            try:
                self.case.fn(ctx, **self.case.params)
            except Unsupported:
                # no verdict for the path, but claims made so far count
                try:
                    self.discharge(ctx)
                except Exception:
                    pass
                raise
            except Exception as e:
                # an exception of the code under test on a feasible path
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if 'cqcpy' in f.filename]
                msg = '%s: %s' % (type(e).__name__, e)
                # a container of blocks that lacks one of its blocks
                absent = isinstance(e, AttributeError) and re.fullmatch(
                    '[ov]{2}|[ov]{4}', str(e.name))
                if not where and not absent and isinstance(
                        e, (AttributeError, NameError, ImportError,
                            LookupError)):
                    # the harness itself is at fault: no verdict
                    raise
                if where:
                    msg += ' at %s:%d' % (os.path.basename(
                        where[-1].filename), where[-1].lineno)
                self.cex(ctx, list(EX.conds), 'raises', None, msg,
                         EX._solver())
                self.out['raised'] = msg + '\n' + traceback.format_exc()
                return
            self.discharge(ctx)
            self.out['paths'] += 1
            if len(last) < 40:
                last.append((ctx.obls, dict(ctx.decl), list(EX.conds)))
            elif self.rng.random() < 0.05:
                last[self.rng.randrange(40)] = (
                    ctx.obls, dict(ctx.decl), list(EX.conds))

        try:
            # a case with counterexamples need not be explored to the end
            EX.explore(once, lambda: self.out['violations'] and
                       time.time() - t0 > 20)
        except Unsupported as e:
            self.out['errors'].append('unsupported: %s\n%s' % (
                e, traceback.format_exc()))
        except TooManyPaths:
            self.out['errors'].append('path limit %d exceeded'
                                      % EX.max_paths)
        except Exception:
            self.out['errors'].append(traceback.format_exc())
        if last and not self.out['errors']:
            try:
                self.validation_points(last)
            except Unsupported as e:
                self.out['errors'].append('unsupported in validation: %s' % e)
            except Exception:
                self.out['errors'].append(traceback.format_exc())
        if self.out['errors'] and not self.out['violations'] and ctx.decl:
            # without a verdict the case is an error; inputs on which the
            # real code visibly fails are still reported
            for _ in range(6):
                self.out['probe'].append(self.random_values(ctx.decl))
        if EX.stats['unknown_branches']:
            self.out['unknown_branches'] = EX.stats['unknown_branches']
        if EX.stats.get('narrow_dtype'):
            self.out['narrow_dtype'] = EX.stats['narrow_dtype']
        self.out['forks'] = EX.stats['forks']
        self.out['infeasible'] = EX.stats['infeasible']
        self.out['variables'] = len(P.VARS)
        self.out['solver'] = dict(STATS)
        self.out['wall'] = time.time() - t0
        self.out['modules'] = sorted(self.used_modules)
        self.out['seen'] = set(self.witnessed)
        return self.out

    def validation_points(self, last):
        """Concrete inputs on which encoding and real run are compared."""
        from . import poly as P
        from .paths import z3, zvar, closure_defs, z3_deps, EX, SBool
        from .poly import Poly
        n = self.case.validate
        for k in range(n):
            obls, decl, conds = last[self.rng.randrange(len(last))] \
                if k else last[-1]
            vals = self.random_values(decl)
            if conds:
                s = z3.Solver()
                s.set('timeout', 10000)
                for c in conds:
                    s.add(c)
                need = set()
                for c in conds:
                    need.update(z3_deps(c))
                for d in closure_defs(need):
                    s.add(d)
                from .solver import check
                if check(s) != z3.sat:
                    continue
                m = s.model()
                mv = self.model_values(m, decl)
                todo, reach = list(need), set()
                while todo:
                    v = todo.pop()
                    if v not in reach:
                        reach.add(v)
                        todo.extend(P.VARS[v].deps)
                touched = {P.VARS[v].name for v in reach}
                for nme in mv:
                    if nme in touched:
                        vals[nme] = mv[nme]
            if self.case.round_model:
                from . import ftmodel
                env = ftmodel.precise(Env)(vals, decl)
            else:
                env = Env(vals, decl)
            exp = []
            for kind, label, lhs, rhs, extra in obls:
                if kind in ('eq', 'close'):
                    exp.append((label, env.array(lhs), env.array(rhs)))
                else:
                    exp.append((label, None, None))
            self.out['validate'].append({'values': vals, 'expect': exp})


class Env(object):
    """Evaluates polynomials (including atoms) at a concrete point."""

    def __init__(self, vals, decl):
        from . import poly as P
        self.P = P
        self.v = {}
        for name, (kind, lo, hi) in decl.items():
            var = P.BYNAME.get(name)
            if var is None:
                continue
            x = vals.get(name, 0)
            if kind == 'complex':
                if isinstance(x, (list, tuple)):
                    z = complex(Fraction(x[0]), Fraction(x[1]))
                else:
                    z = complex(Fraction(x))
                self.v[var.vid] = z
                self.v[var.conj.vid] = z.conjugate()
            else:
                self.v[var.vid] = Fraction(x)

    def __getitem__(self, vid):
        if vid in self.v:
            return self.v[vid]
        var = self.P.VARS[vid]
        if var.origin is None:
            return Fraction(0)
        self.v[vid] = x = self.atom(var)
        return x

    def atom(self, var):
        import cmath
        import math
        from .paths import z3
        op, a = var.origin
        if op == 'bool':
            return Fraction(1 if self.zbool(a) else 0)
        e = [x.evaluate(self) if hasattr(x, 'num') else x for x in a] \
            if isinstance(a, tuple) else []
        if op == 'inv':
            return 1/e[0] if e[0] != 0 else Fraction(0)
        if op == 'mod':
            return e[0] % e[1]
        if op == 'floordiv':
            return Fraction(e[0]//e[1])
        if op == 'abs':
            return abs(e[0])
        if op in ('sqrt', 'exp', 'log') and isinstance(e[0], complex):
            return getattr(cmath, op)(e[0])
        if op == 'sqrt':
            return math.sqrt(float(e[0]))
        if op == 'trunc':
            return Fraction(int(e[0]))
        if op == 'round':
            return Fraction(round(float(e[0]), e[1]))
        if op == 'exp':
            return math.exp(float(e[0]))
        if op == 'log':
            return math.log(float(e[0]))
        if op == 'rnd':
            return e[0]
        raise KeyError(op)

    def zbool(self, z):
        from .paths import z3, z3_deps
        subs = []
        if any(isinstance(self[vid], complex) for vid in z3_deps(z)):
            return bool(self.zcomplex(z))
        for vid in z3_deps(z):
            var = self.P.VARS[vid]
            x = self[vid]
            if isinstance(x, float):
                x = Fraction(x)
            if var.kind == 'bit':
                c = z3.BoolVal(x != 0)
            elif var.kind == 'int':
                c = z3.IntVal(int(x))
            else:
                c = z3.RealVal(str(Fraction(x)))
            subs.append((var.z, c))
        return z3.is_true(z3.simplify(z3.substitute(z, *subs)))

    def zcomplex(self, z):
        """Value of a solver term in which some variables are complex."""
        from .paths import z3, z3_deps
        if z3.is_rational_value(z) or z3.is_int_value(z):
            return float(_zfrac(z))
        if z3.is_true(z) or z3.is_false(z):
            return z3.is_true(z)
        if z.num_args() == 0:
            vid, = z3_deps(z)
            x = self[vid]
            if self.P.VARS[vid].kind == 'bit':
                return x != 0
            return x if isinstance(x, complex) else float(x)
        a = [self.zcomplex(c) for c in z.children()]
        k = z.decl().kind()
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in a:
                r = r*x
            return r
        if k == z3.Z3_OP_DIV:
            return a[0]/a[1]
        if k == z3.Z3_OP_POWER:
            return a[0]**a[1]
        if k == z3.Z3_OP_ITE:
            return a[1] if a[0] else a[2]
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return a[0] != a[1]
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_AND:
            return all(a)
        if k == z3.Z3_OP_OR:
            return any(a)
        if k == z3.Z3_OP_TO_REAL:
            return a[0]
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            if any(isinstance(x, complex) for x in a):
                raise self.P.Unsupported('order of complex numbers')
            return {z3.Z3_OP_LE: a[0] <= a[1], z3.Z3_OP_LT: a[0] < a[1],
                    z3.Z3_OP_GE: a[0] >= a[1], z3.Z3_OP_GT: a[0] > a[1]}[k]
        raise self.P.Unsupported('solver term with complex variables')

    def scalar(self, x):
        from .paths import SBool, z3
        if isinstance(x, z3.ExprRef):
            from .paths import z3_deps
            subs = []
            for vid in z3_deps(x):
                var = self.P.VARS[vid]
                v = self[vid]
                if var.kind == 'bit':
                    c = z3.BoolVal(v != 0)
                elif var.kind == 'int':
                    c = z3.IntVal(int(v))
                else:
                    c = z3.RealVal(str(Fraction(v)))
                subs.append((var.z, c))
            r = z3.simplify(z3.substitute(x, *subs))
            return float(_zfrac(r))
        if isinstance(x, SBool):
            return float(self.zbool(x.z))
        if hasattr(x, 'num'):
            r = x.evaluate(self)
            return [r.real, r.imag] if isinstance(r, complex) else float(r)
        if isinstance(x, complex):
            return [x.real, x.imag]
        return float(x)

    def array(self, a):
        from . import symnp
        a = a if isinstance(a, np.ndarray) else symnp.sym_array(a,
                                                                copy=False)
        f = np.asarray(a).view(np.ndarray).reshape(-1)
        vals = [self.scalar(x) for x in f]
        return {'shape': list(a.shape), 'v': vals}


def _scal(x):
    from .poly import Poly
    from .paths import SBool
    import math
    if isinstance(x, Poly):
        return x
    if isinstance(x, SBool):
        return x.as_poly()
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            x = x.real
        else:
            from .poly import Unsupported
            raise Unsupported('complex constant')
    if isinstance(x, (float, np.floating)) and not math.isfinite(x):
        return float(x)
    return Poly.const(x)


def _zfrac(e):
    from .paths import z3
    if z3.is_algebraic_value(e):
        e = e.approx(20)
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


def _work(args):
    pid, name, tier, seed = args
    sys.setrecursionlimit(100000)
    case = [c for c in prop_module(pid).cases(tier) if c.name == name][0]
    try:
        return Runner(pid, case, seed).run()
    except BaseException:
        return {'case': name, 'errors': [traceback.format_exc()],
                'violations': [], 'inconclusive': [], 'validate': []}


# ---------------------------------------------------------------- replay

def replay_file(path):
    """Run one recorded input on the real package; used by replay.py."""
    with open(path) as f:
        rec = json.load(f)
    return replay_values(rec['property'], rec['case'], rec['values'])


def replay_values(pid, name, values):
    from .ctx import RealCtx, AssumptionFailed
    case = find_case(pid, name)
    ctx = RealCtx(values)
    ctx.layout = case.layout
    res = {'raised': None, 'fails': [], 'obl': []}
    try:
        with np.errstate(all='ignore'):
            case.fn(ctx, **case.params)
    except AssumptionFailed:
        res['skipped'] = True
        return res
    except Exception as e:
        res['raised'] = '%s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()
    for label, bad, a, b in ctx.results:
        if bad:
            res['fails'].append((label, bad))
        res['obl'].append((label, _pack(a), _pack(b)))
    return res


def _pack(a):
    if a is None:
        return None
    f = np.asarray(a).reshape(-1)
    return {'shape': list(np.asarray(a).shape),
            'v': [[x.real, x.imag] if np.iscomplexobj(f) else float(x)
                  for x in f]}


def batch_replay(jobs, timeout=900):
    """jobs: [(pid, case, values)] -> results, in fresh processes running the
    unmodified package on the real libraries."""
    if not jobs:
        return []
    nproc = min(8, max(1, len(jobs)//6 + 1))
    chunks = [jobs[i::nproc] for i in range(nproc)]
    procs = []
    for c in chunks:
        p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(
            ROOT, 'replay.py'), '--batch'], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ROOT,
            env=_env())
        procs.append((p, json.dumps(c).encode()))
    import threading
    outs = [None]*len(procs)

    def go(k):
        p, data = procs[k]
        try:
            outs[k] = p.communicate(data, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            outs[k] = p.communicate()
    th = [threading.Thread(target=go, args=(k,)) for k in range(len(procs))]
    for t in th:
        t.start()
    for t in th:
        t.join()
    res = [None]*len(jobs)
    for k, (o, e) in enumerate(outs):
        try:
            r = json.loads(o.decode())
        except ValueError:
            raise RuntimeError('replay process failed: %s'
                               % e.decode()[-2000:])
        for n, x in enumerate(r):
            res[k + n*nproc] = x
    return res


def _env():
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['OMP_NUM_THREADS'] = '1'
    e.setdefault('PYTHONHASHSEED', '0')
    return e


# ---------------------------------------------------------------- parent

def known_findings():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(x.split('=', 1) for x in line[6:].split()
                         if '=' in x)
                d['text'] = line
                out.append(d)
    return out


def run_property(pid, tier, seed, only=None, verbose=False):
    t0 = time.time()
    m = prop_module(pid)
    cases = [c for c in m.cases(tier) if not only or c.name in only]
    evdir = EVIDENCE
    os.makedirs(evdir, exist_ok=True)
    nproc = int(os.environ.get('VF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    os.environ.update({'OMP_NUM_THREADS': '1',
                       'PYTHONDONTWRITEBYTECODE': '1'})
    args = [(pid, c.name, tier, seed) for c in cases]
    mp = multiprocessing.get_context('fork')
    results = []
    with mp.Pool(min(nproc, max(1, len(args))), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_work, args, chunksize=1)
        limit = t0 + (DEADLINE_S if tier == 'quick' else 10*DEADLINE_S)
        while len(results) < len(args):
            try:
                r = it.next(timeout=max(1, limit - time.time()))
            except multiprocessing.TimeoutError:
                done = {r['case'] for r in results}
                for a in args:
                    if a[1] not in done:
                        results.append({
                            'case': a[1], 'errors': [], 'violations': [],
                            'inconclusive': ['time limit'], 'validate': []})
                pool.terminate()
                break
            results.append(r)
            if verbose:
                print('%-40s %6.1fs paths=%s obl=%s viol=%d err=%d inc=%d'
                      % (r['case'], r.get('wall', 0), r.get('paths'),
                         r.get('obligations'), len(r['violations']),
                         len(r['errors']), len(r['inconclusive'])),
                      flush=True)
    errors, inconclusive = [], []
    for r in results:
        for e in r['errors']:
            errors.append('%s: %s' % (r['case'], e))
        for e in r['inconclusive']:
            inconclusive.append('%s: %s' % (r['case'], e))
        if r.get('unknown_branches'):
            # an unknown branch is explored on both sides, which is sound
            pass
    # --- replay counterexample candidates on the unmodified package
    viol_recs = []
    jobs, owners = [], []
    for r in results:
        for v in r['violations']:
            for c in v['candidates']:
                jobs.append((pid, r['case'], c))
                owners.append(v)
    for (j, v, rr) in zip(jobs, owners, batch_replay(jobs)):
        if rr.get('skipped'):
            continue
        if rr['raised'] or rr['fails']:
            v.setdefault('confirmed', []).append((j[2], rr))
    for r in results:
        for v in r['violations']:
            if v.get('confirmed'):
                vals, rr = v['confirmed'][0]
                viol_recs.append((r['case'], v['label'], v['what'], vals,
                                  rr, 'solver'))
            else:
                errors.append(
                    '%s: counterexample for "%s" (%s) did not reproduce on '
                    'the real code\n%s' % (r['case'], v['label'], v['what'],
                                           r.get('raised', '')))
    # --- encoding validation: same inputs through encoding and real code
    validated = 0
    jobs, owners = [], []
    for r in results:
        for v in r['validate']:
            jobs.append((pid, r['case'], v['values']))
            owners.append((r, v))
    for (j, (r, v), rr) in zip(jobs, owners, batch_replay(jobs)):
        if rr.get('skipped'):
            continue
        if rr['raised'] or rr['fails']:
            # the real code violates the property at this input
            viol_recs.append((r['case'],
                              rr['fails'][0][0] if rr['fails'] else 'raises',
                              'found while validating the encoding',
                              j[2], rr, 'validation'))
            continue
        bad = compare(v['expect'], rr['obl'])
        if bad:
            errors.append('%s: encoding and real run disagree: %s'
                          % (r['case'], bad))
        else:
            validated += 1
    # --- cases without a verdict: does the real code fail visibly?
    jobs = [(pid, r['case'], v) for r in results for v in r.get('probe', ())]
    seen = set()
    for j, rr in zip(jobs, batch_replay(jobs)):
        if rr.get('skipped') or j[1] in seen:
            continue
        if rr['fails']:
            seen.add(j[1])
            viol_recs.append((j[1], rr['fails'][0][0], 'case without a '
                              'verdict, real run fails', j[2], rr, 'probe'))
    # --- vacuity
    for r in results:
        if not r['errors'] and not r['violations'] and \
                not r['inconclusive'] and not r.get('witness'):
            errors.append('%s: no reachable nontrivial obligation (vacuous)'
                          % r['case'])
    need, seen = set(), set()
    for r in results:
        need |= r.get('need', set())
        seen |= r.get('seen', set())
    if not only:
        for l in sorted(need - seen):
            if not any(v['label'] == l for r in results
                       for v in r['violations']):
                errors.append('"%s" compares zero with zero in every case '
                              '(vacuous)' % l)
    # --- report
    known = known_findings()
    lines = []
    nviol = 0
    known_hit = []
    rdir = os.path.join(evdir, 'replays')
    vio_out = []
    for case, label, what, vals, rr, origin in viol_recs:
        hit = [k for k in known if k.get('property') == pid and
               k.get('case') == case and
               (k.get('label', label) == label.replace(' ', '_'))]
        text = '%s / %s: %s' % (case, label,
                                rr['raised'] or '; '.join(
                                    '%s %s' % tuple(f)
                                    for f in rr['fails'][:2]))
        if hit:
            if hit[0]['text'] not in known_hit:
                known_hit.append(hit[0]['text'])
                lines.append('KNOWN-FINDING: property=%s %s' % (pid, text))
            continue
        nviol += 1
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(('%s%s%s' % (case, label, json.dumps(
            vals, sort_keys=True))).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (pid, h))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': case, 'label': label,
                       'what': what, 'values': vals, 'observed': text,
                       'origin': origin}, f, indent=1)
        vio_out.append({'case': case, 'label': label, 'observed': text,
                        'replay': path, 'origin': origin})
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        lines.append('  %s' % text[:600])
    wall = time.time() - t0
    write_evidence(m, pid, tier, seed, results, wall, validated, vio_out,
                   errors, inconclusive, known_hit)
    for l in lines:
        print(l)
    if nviol:
        return 1
    for e in errors:
        print('ERROR %s %s' % (pid, e[:3000]))
    for e in inconclusive:
        print('INCONCLUSIVE %s %s' % (pid, e))
    if errors:
        return 3
    if inconclusive:
        return 4
    st = totals(results)
    print('HELD property=%s tier=%s cases=%d paths=%d obligations=%d '
          'elements=%d queries=%d solver_s=%.2f validated=%d wall=%.1fs'
          % (pid, tier, len(results), st['paths'], st['obligations'],
             st['elements'], st['queries'], st['solver_s'], validated, wall))
    return 0


def compare(exp, obl, tol=1e-6):
    if len(exp) != len(obl):
        return 'different number of obligations (%d, %d)' % (len(exp),
                                                             len(obl))
    for (l1, a1, b1), (l2, a2, b2) in zip(exp, obl):
        if l1 != l2:
            return 'obligation order differs (%s, %s)' % (l1, l2)
        for x, y in ((a1, a2), (b1, b2)):
            if x is None or y is None:
                continue
            if x['shape'] != y['shape']:
                return '%s: shapes differ' % l1
            for p, q in zip(x['v'], y['v']):
                p = complex(*p) if isinstance(p, list) else complex(p)
                q = complex(*q) if isinstance(q, list) else complex(q)
                if not abs(p - q) <= tol*max(1, abs(p), abs(q)):
                    if p == q or (p != p and q != q):
                        continue
                    return '%s: %s (encoding) vs %s (real)' % (l1, p, q)
    return None


def totals(results):
    t = {'paths': 0, 'obligations': 0, 'elements': 0, 'queries': 0,
         'solver_s': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'forks': 0,
         'monomials': 0, 'witness': 0, 'infeasible': 0}
    for r in results:
        for k in ('paths', 'obligations', 'elements', 'forks', 'monomials',
                  'witness', 'infeasible'):
            t[k] += r.get(k, 0)
        s = r.get('solver', {})
        t['queries'] += s.get('queries', 0)
        t['solver_s'] += s.get('time', 0)
        for k in ('unsat', 'sat', 'unknown'):
            t[k] += s.get(k, 0)
    return t


def write_evidence(m, pid, tier, seed, results, wall, validated, vio, errors,
                   inconclusive, known_hit):
    t = totals(results)
    from . import solver
    mods = sorted({x for r in results for x in r.get('modules', [])})
    samples = []
    for r in sorted(results, key=lambda r: r['case'])[:6]:
        samples.append({'case': r['case'], 'params': r.get('params'),
                        'paths': r.get('paths'),
                        'variables': r.get('variables'),
                        'labels': dict(list(r.get('labels', {}).items())[:8]),
                        'solver': r.get('solver')})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking', 'wall_s': round(wall, 3),
        'coverage': {
            'states': t['paths'],
            'transitions': t['queries'],
            'traces_validated_against_impl': validated,
            'samples': samples,
            'explanation': 'states = symbolic paths executed to the end; '
            'transitions = solver queries; traces validated = concrete '
            'inputs pushed through both the encoding and the real code '
            'with equal results',
            'cases': len(results),
            'functions_encoded': getattr(m, 'FUNCTIONS', []),
            'modules_encoded': mods,
            'bounds': m.BOUNDS,
            'obligations': t['obligations'],
            'elements_compared': t['elements'],
            'queries_unsat': t['unsat'], 'queries_sat': t['sat'],
            'queries_unknown': t['unknown'],
            'solver_s': round(t['solver_s'], 3),
            'solver': 'z3 %s' % solver.version(),
            'branch_forks': t['forks'], 'infeasible_paths': t['infeasible'],
            'monomials_encoded': t['monomials'],
            'nonvacuity_witnesses': t['witness'],
            'case_wall_s': {r['case']: round(r.get('wall', 0), 2)
                            for r in results},
        },
        'assumptions': m.ASSUMPTIONS,
        'violations': vio,
    }
    if errors:
        ev['coverage']['errors'] = [e[:500] for e in errors]
    if inconclusive:
        ev['coverage']['inconclusive'] = inconclusive
    if known_hit:
        ev['coverage']['known_findings'] = known_hit
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
