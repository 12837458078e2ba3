"""Derivatives of the grand potential with respect to the inverse
temperature."""
from ..runner import Case
from .. import ftmodel as ft
from .c21 import ASSUMPTIONS    # noqa: F401

FUNCTIONS = ['ft_utils.dgrand_potential0', 'ft_utils.dGP0']
TOL = '1e-4'
FLOOR = '1e-290'
BOUNDS = {'quick': 'beta in [1e-3, 1e3], mu in [-10, 10], every real x = '
          'beta*(epsilon - mu) with |x| <= 1e6, split into intervals; '
          'vectors of up to 3 levels',
          'thorough': 'narrower intervals, more vectors',
          'outside': 'longer vectors'}


def want(ctx, label, got, beta, L):
    ft.close(ctx, label, got, [beta, beta], (L.deriv, ctx.one), TOL, FLOOR)


def scalar(ctx, lo, hi):
    m = ctx.mod('ft_utils')
    beta, mu = ft.beta_mu(ctx)
    L = ft.Level(ctx, beta, mu, lo, hi)
    want(ctx, 'derivative', m.dgrand_potential0(beta, L.eps, mu), beta, L)


def vector(ctx, regs, integer=False):
    m = ctx.mod('ft_utils')
    beta, mu, Ls, eps = ft.levels(ctx, regs, integer)
    sn = ctx.snapshot(eps)
    got = m.dGP0(beta, eps, mu)
    ctx.require_true('vector has the right length',
                     tuple(got.shape) == (len(regs),))
    for i, L in enumerate(Ls):
        want(ctx, 'vector of derivatives', got[i], beta, L)
    ctx.require('energies unchanged', eps, sn, zero_ok=True)


def cases(tier):
    out = []
    for lo, hi in ft.regions(1 if tier == 'thorough' else 2):
        out.append(Case('scalar[%s,%s]' % (lo, hi), scalar,
                        dict(lo=lo, hi=hi), round_model=True))
    for name, regs, integer in ft.vectors(tier):
        out.append(Case('vector-' + name, vector,
                        dict(regs=regs, integer=integer), round_model=True))
    return out
