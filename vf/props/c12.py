"""Results depend on the current argument values only; arguments are left
alone; returned arrays are the caller's own."""
import numpy as np

from ..runner import Case
from .. import ccsys

G1 = [('lccd_simple', 'F I T2'), ('lccsd_simple', 'F I T1 T2'),
      ('ccd_simple', 'F I T2'), ('ccd_ladder_simple', 'I T2'),
      ('ccd_ring_simple', 'I T2'), ('ccsd_simple', 'F I T1 T2'),
      ('ccsd_stanton', 'F I T1 T2'), ('ccd_stanton', 'F I T2'),
      ('ccd_lambda_simple', 'F I L2 T2'),
      ('ccsd_lambda_simple', 'F I L1 L2 T1 T2'),
      ('ccsd_lambda_opt', 'F I L1 L2 T1 T2'),
      ('ccsd_lambda_stanton', 'F I L1 L2 T1 T2'),
      ('ccsd_lambda_opt_int', 'F I L1 L2 T1 T2 intor')] + \
    [('ccsd_1rdm_' + b + o, 'T1 T2 L1 L2') for b in ('ba', 'ji', 'ai')
     for o in ('', '_opt')] + \
    [('ccsd_2rdm_' + b + o, 'T1 T2 L1 L2')
     for b in ('cdab', 'ciab', 'bcai', 'bjai', 'abij', 'jkai', 'kaij',
               'klij') for o in ('', '_opt')]
UL = 'T1a T1b T2aa T2ab T2bb L1a L1b L2aa L2ab L2bb'
U1 = [('uccsd_stanton', 'Fab Fbb Iaa_b Ibb_b Iab_b t1 t2'),
      ('uccsd_lambda_opt', 'Fab Fbb Iaa_b Ibb_b Iab_b l1 l2 t1 t2')] + \
    [('uccsd_1rdm_' + b, UL) for b in ('ba', 'ji', 'ai')] + \
    [('uccsd_2rdm_' + b, UL)
     for b in ('cdab', 'ciab', 'bcai', 'bjai', 'abij', 'jkai', 'kaij',
               'klij')]
R1 = [('rccsd_stanton', 'F_b I_b T1 T2'),
      ('rccsd_lambda_opt', 'F_b I_b L1 L2 T1 T2')] + \
    [('rccsd_1rdm_' + b, 'T1 T2 L1 L2') for b in ('ba', 'ji', 'ai')] + \
    [('rccsd_2rdm_' + b, 'T1 T2 L1 L2')
     for b in ('cdab', 'ciab', 'bcai', 'bjai', 'bjia', 'abij', 'jkai',
               'kaij', 'klij')]
EN = [('g', 'cc_energy', 'T1 T2 F.ov I.oovv'),
      ('g', 'mp2_energy', 'T1 T2 F.ov I.oovv'),
      ('u', 'ucc_energy',
       't1 t2 Fab.ov Fbb.ov Iaa_b.oovv Ibb_b.oovv Iab_b.oovv'),
      ('u', 'ump2_energy',
       't1 t2 Fab.ov Fbb.ov Iaa_b.oovv Ibb_b.oovv Iab_b.oovv'),
      ('r', 'rcc_energy', 'T1 T2 F_b.ov I_b.oovv')]
SP = [('F_to_spin', 'Fab Fbb', False), ('T1_to_spin', 'T1a T1b', False),
      ('T2_to_spin', 'T2aa T2ab T2bb', False),
      ('D2_to_spin', 'T2aa T2ab T2bb', False),
      ('int_to_spin', 'Iaa_f Ibb_f Iab_b', False),
      ('int_to_spin2', 'Iaa_b Ibb_b Iab_b', False)]
FUNCTIONS = ['cc_equations.' + f for f, _ in G1 + U1 + R1] + \
            ['cc_energy.' + f for _, f, _ in EN] + \
            ['spin_utils.' + f for f, _, _ in SP]
BOUNDS = {'quick': 'spin orbitals 2x2, unrestricted (2,1,1,2), restricted '
          '2x1; histories of other values, these values (three times) and '
          'the same arrays changed in place one argument after the other; '
          'all entries symbolic reals',
          'thorough': 'also 3x2, (1,2,2,2), 2x2',
          'outside': 'longer histories; larger orbital spaces'}
ASSUMPTIONS = [
    'exact real arithmetic',
    'pyscf.lib.einsum computes the Einstein summation of its arguments and '
    'does not write to them',
]


def flat(x, out=None):
    """arrays (and scalars) reachable from a result or argument"""
    out = [] if out is None else out
    if isinstance(x, (tuple, list)):
        for y in x:
            flat(y, out)
    elif isinstance(x, np.ndarray) or x is None or np.isscalar(x) or \
            hasattr(x, 'num'):
        if x is not None:
            out.append(x)
    elif hasattr(x, '__dict__'):
        for k in sorted(vars(x)):
            flat(vars(x)[k], out)
    return out


def remap(x, f):
    """rebuild an argument with f applied to every array"""
    if isinstance(x, tuple):
        return tuple(remap(y, f) for y in x)
    if isinstance(x, np.ndarray):
        return f(x)
    if x is not None and hasattr(x, '__dict__') and not hasattr(x, 'num'):
        import copy
        y = copy.copy(x)
        for k, v in vars(x).items():
            setattr(y, k, remap(v, f))
        return y
    return x


def get(ctx, s, m, spec):
    args = []
    for a in spec.split():
        if a == 'intor':
            args.append(m.lambda_int(s.F, s.I, s.T1, s.T2))
            continue
        obj = s
        for part in a.split('.'):
            obj = getattr(obj, part)
        args.append(obj)
    return args


def system(ctx, group, dims, kind='f'):
    if group == 'g':
        return ccsys.GSys(ctx, *dims, kind=kind, L=True)
    if group == 'u':
        s = ccsys.USys(ctx, *dims, kind=kind, L=True)
        noa, nva, nob, nvb = dims
        s.Iaa_f = ccsys.two_blocks(ctx, s.Ia, noa, full=True)
        s.Ibb_f = ccsys.two_blocks(ctx, s.Ib, nob, full=True)
        return s
    return ccsys.RSys(ctx, *dims, kind=kind, L=True)


def purity(ctx, module, fn, group, spec, dims, alias=True):
    m = ctx.mod(module)
    s = system(ctx, group, dims)
    args = get(ctx, s, m, spec)
    extra = tuple(dims) if module == 'spin_utils' else ()
    f = getattr(m, fn)
    # an earlier call with other values
    first = flat(f(*[remap(a, lambda x: x*2) for a in args], *extra))
    kept = [ctx.snapshot(x) if isinstance(x, np.ndarray) else x
            for x in first]
    w = ccsys.Watch(ctx)
    for k, a in enumerate(args):
        w.add('argument %d' % (k + 1), a)
    r = f(*args, *extra)
    w.check('the call')
    for x, y in zip(first, kept):
        ctx.require('earlier result unchanged by a later call', x, y,
                    zero_ok=True)
    ref = getattr(ctx.fresh_mod(module), fn)(
        *[remap(a, lambda x: x.copy()) for a in args], *extra)
    same(ctx, 'same value as in a fresh process', r, ref)
    again = f(*args, *extra)
    same(ctx, 'same value when called again', again, ref)
    if alias:
        fl = flat(r)
        for k, x in enumerate(fl):
            if not isinstance(x, np.ndarray) or x.shape == ():
                continue
            snaps = [ctx.snapshot(y) for y in fl
                     if isinstance(y, np.ndarray)]
            x[...] = 7.0
            j = 0
            for i, y in enumerate(fl):
                if not isinstance(y, np.ndarray):
                    continue
                if i != k:
                    ctx.require('results do not share memory', y, snaps[j],
                                zero_ok=True)
                j += 1
        w.check('writing to the result')
        third = f(*args, *extra)
        same(ctx, 'unaffected by writing to an earlier result', third, ref)
    # the caller updates its arrays in place, one argument at a time, and
    # calls again
    done = set()
    for a in args:
        for x in flat(a):
            if isinstance(x, np.ndarray) and id(x) not in done:
                done.add(id(x))
                x *= 3
        ref2 = getattr(ctx.fresh_mod(module), fn)(
            *[remap(b, lambda x: x.copy()) for b in args], *extra)
        same(ctx, 'follows in-place updates of its arguments',
             f(*args, *extra), ref2)


def same(ctx, label, x, y):
    fx, fy = flat(x), flat(y)
    ctx.require_true(label + ' (number of results)', len(fx) == len(fy))
    for a, b in zip(fx, fy):
        ctx.require(label, a, b)


def cases(tier):
    gd, ud, rd = [(2, 2)], [(2, 1, 1, 2)], [(2, 1)]
    if tier == 'thorough':
        gd, ud, rd = gd + [(3, 2)], ud + [(1, 2, 2, 2)], rd + [(2, 2)]
    out = []

    def add(module, fn, group, spec, dims, **kw):
        out.append(Case('%s-%s' % (fn, '-'.join(map(str, dims))), purity,
                        dict(module=module, fn=fn, group=group, spec=spec,
                             dims=dims, **kw)))
    for group, ds, tab in (('g', gd, G1), ('u', ud, U1), ('r', rd, R1)):
        for d in ds:
            for fn, spec in tab:
                add('cc_equations', fn, group, spec, d)
            for g, fn, spec in EN:
                if g == group:
                    add('cc_energy', fn, g, spec, d)
    for d in ud:
        for fn, spec, _ in SP:
            add('spin_utils', fn, 'u', spec, d)
    return out
