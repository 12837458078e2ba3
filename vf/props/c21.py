"""Fermi functions: accuracy for every temperature and energy."""
from fractions import Fraction

from ..runner import Case
from .. import ftmodel as ft

FUNCTIONS = ['ft_utils.fermi_function', 'ft_utils.vfermi_function',
             'ft_utils.ff', 'ft_utils.ffv']
TOL = '1e-9'
FLOOR = '1e-300'
BOUNDS = {'quick': 'beta in [1e-3, 1e3], mu in [-10, 10], every real x = '
          'beta*(epsilon - mu) with |x| <= 1e6, split into intervals; '
          'vectors of up to 3 levels',
          'thorough': 'narrower intervals, more vectors',
          'outside': 'longer vectors'}
ASSUMPTIONS = ['sums of exponentials/logarithms carry a relative rounding '
               'error of up to 2^-52; products, quotients, exp and sums of '
               'plain inputs are exact', 'exp overflows above 709.78 and '
               'underflows below -745.13']


def want(ctx, label, got, truth):
    ft.close(ctx, label, got, [], (truth, ctx.one), TOL, FLOOR)
    ctx.require_true(label + ' not negative', got >= 0)
    ctx.require_true(label + ' at most one', got <= 1 + Fraction(1, 2**50))


def scalar(ctx, lo, hi):
    m = ctx.mod('ft_utils')
    beta, mu = ft.beta_mu(ctx)
    L = ft.Level(ctx, beta, mu, lo, hi)
    want(ctx, 'occupation', m.fermi_function(beta, L.eps, mu), L.f)
    want(ctx, 'complement', m.vfermi_function(beta, L.eps, mu), L.v)


def vector(ctx, regs, integer=False):
    m = ctx.mod('ft_utils')
    beta, mu, Ls, eps = ft.levels(ctx, regs, integer)
    for name, fn, pick in (('occupation', m.ff, 'f'),
                           ('complement', m.ffv, 'v')):
        sn = ctx.snapshot(eps)
        got = fn(beta, eps, mu)
        ctx.require_true('vector of %ss has the right length' % name,
                         tuple(got.shape) == (len(regs),))
        for i, L in enumerate(Ls):
            want(ctx, 'vector of %ss' % name, got[i], getattr(L, pick))
        ctx.require('energies unchanged', eps, sn, zero_ok=True)


def cases(tier):
    out = []
    for lo, hi in ft.regions(1 if tier == 'thorough' else 2):
        out.append(Case('scalar[%s,%s]' % (lo, hi), scalar,
                        dict(lo=lo, hi=hi), round_model=True))
    for name, regs, integer in ft.vectors(tier):
        out.append(Case('vector-' + name, vector,
                        dict(regs=regs, integer=integer), round_model=True))
    return out
