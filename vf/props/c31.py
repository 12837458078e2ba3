"""Conversion of thermal energies to kelvin."""
from fractions import Fraction

from ..runner import Case

FUNCTIONS = ['ft_utils.HtoK']
BOUNDS = {'quick': 'every real temperature (scalar), arrays of up to 4 '
          'entries, integers -1000..1000',
          'thorough': 'the same',
          'outside': 'rounding of the product and the quotient'}
ASSUMPTIONS = ['exact real arithmetic; one hartree is 315775.02 K times the '
               'Boltzmann constant (CODATA), compared to one part in 10^5']
KELVIN = Fraction('315775.02')
TOL = Fraction(1, 10**5)


def near(ctx, label, got, t):
    """|got - KELVIN t| <= TOL KELVIN |t|, as a polynomial inequality"""
    k, e = (float(KELVIN), float(TOL)) if ctx.mode == 'real' else \
        (KELVIN, TOL)
    d = got - k*t
    ctx.require_true(label, d*d <= (e*k)*(e*k)*t*t)


def scalar(ctx, integer):
    m = ctx.mod('ft_utils')
    t = ctx.integer('T', -1000, 1000) if integer else ctx.real('T')
    near(ctx, 'kelvin', m.HtoK(t), t)


def array(ctx, shape):
    m = ctx.mod('ft_utils')
    t = ctx.tensor('T', shape)
    s = ctx.snapshot(t)
    r = m.HtoK(t)
    ctx.require_true('shape', tuple(r.shape) == tuple(shape))
    import itertools
    for ix in itertools.product(*[range(n) for n in shape]):
        near(ctx, 'kelvin', r[ix], s[ix])
    ctx.require('argument unchanged', t, s)


def cases(tier):
    return [Case('real', scalar, dict(integer=False)),
            Case('integer', scalar, dict(integer=True)),
            Case('vector', array, dict(shape=(3,))),
            Case('matrix', array, dict(shape=(2, 2)))]
