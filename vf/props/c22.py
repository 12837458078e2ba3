"""Zeroth-order grand potentials: accuracy in every regime."""
from ..runner import Case
from .. import ftmodel as ft
from .c21 import ASSUMPTIONS    # noqa: F401

FUNCTIONS = ['ft_utils.grand_potential0', 'ft_utils.GP0', 'ft_utils.uGP0']
TOL = '1e-4'
FLOOR = '1e-300'
BOUNDS = {'quick': 'beta in [1e-3, 1e3], mu in [-10, 10], every real x = '
          'beta*(epsilon - mu) with |x| <= 1e6, split into intervals; '
          'vectors of up to 3 levels',
          'thorough': 'narrower intervals, more vectors',
          'outside': 'longer vectors'}


def want(ctx, label, got, beta, L):
    ft.close(ctx, label, got, [beta], (L.omega, -ctx.one), TOL, FLOOR)


def scalar(ctx, lo, hi):
    m = ctx.mod('ft_utils')
    beta, mu = ft.beta_mu(ctx)
    L = ft.Level(ctx, beta, mu, lo, hi)
    want(ctx, 'grand potential', m.grand_potential0(beta, L.eps, mu), beta,
         L)


def vector(ctx, regs, integer=False):
    m = ctx.mod('ft_utils')
    beta, mu, Ls, eps = ft.levels(ctx, regs, integer)
    sn = ctx.snapshot(eps)
    got = m.GP0(beta, eps, mu)
    ctx.require_true('vector has the right length',
                     tuple(got.shape) == (len(regs),))
    for i, L in enumerate(Ls):
        want(ctx, 'vector of grand potentials', got[i], beta, L)
    ctx.require('energies unchanged', eps, sn, zero_ok=True)


def spins(ctx, ra, rb):
    m = ctx.mod('ft_utils')
    beta, mu, Ls, _ = ft.levels(ctx, list(ra) + list(rb))
    na = len(ra)
    ea = ctx.array([L.eps for L in Ls[:na]], 'f')
    eb = ctx.array([L.eps for L in Ls[na:]], 'f')
    sn = ctx.snapshot(ea), ctx.snapshot(eb)
    ga, gb = m.uGP0(beta, ea, eb, mu)
    ctx.require_true('spin vectors have the right lengths',
                     tuple(ga.shape) == (na,) and
                     tuple(gb.shape) == (len(rb),))
    for i, L in enumerate(Ls):
        want(ctx, 'alpha grand potentials' if i < na else
             'beta grand potentials', ga[i] if i < na else gb[i - na], beta,
             L)
    ctx.require('energies unchanged', ea, sn[0], zero_ok=True)
    ctx.require('energies unchanged', eb, sn[1], zero_ok=True)


def cases(tier):
    out = []
    for lo, hi in ft.regions(1 if tier == 'thorough' else 2):
        out.append(Case('scalar[%s,%s]' % (lo, hi), scalar,
                        dict(lo=lo, hi=hi), round_model=True))
    for name, regs, integer in ft.vectors(tier):
        out.append(Case('vector-' + name, vector,
                        dict(regs=regs, integer=integer), round_model=True))
    m, p, z, c = (-60, -40), (40, 60), (-2, 0), (4, 6)
    for k, (ra, rb) in enumerate((([m], [p]), ([z, p], [c]),
                                  ([c], [m, z]), ([c, z], [z, m]))):
        out.append(Case('spins-%d' % k, spins, dict(ra=ra, rb=rb),
                        round_model=True))
    return out
