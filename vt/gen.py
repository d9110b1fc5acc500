"""Hypothesis strategies for expressions and problems, as plain data."""
from hypothesis import strategies as st

STATE_NAMES = ['x', 'y', 'v', 'h', 'theta', 'gam', 'q', 'z', 'E', 'S', 'N', 'beta', 'Q', 'I', 'x2', 'mass']
CONTROL_NAMES = ['u', 'w', 'alfa', 'a', 'gamma', 'zeta']
CONST_NAMES = ['c1', 'c2', 'k', 'g', 'mu', 'rho0', 'H', 'b']

COEF = ['0.5', '2', '1.5', '3', '0.25', '-1', '-0.75', '1', '-2']


def coef():
    return st.sampled_from(COEF)


def factor(var):
    """A smooth factor in one variable, finite for values in [0.2, 2]."""
    return st.sampled_from([
        var, var, var, var + '**2', 'sin(%s)' % var, 'cos(%s)' % var, 'exp(-0.5*%s)' % var, 'log(1 + %s**2)' % var,
        'sqrt(1 + %s**2)' % var, '1/(2 + %s**2)' % var, 'tanh(%s)' % var, '%s**3' % var, 'sqrt(%s)' % var,
        '1/%s' % var, 'atan(%s)' % var])


@st.composite
def term(draw, names, max_factors=3):
    k = draw(st.integers(1, max_factors))
    fs = [draw(factor(draw(st.sampled_from(names)))) for _ in range(k)]
    return draw(coef()) + '*' + '*'.join(fs)


@st.composite
def expr(draw, names, max_terms=3, max_factors=3):
    k = draw(st.integers(1, max_terms))
    return ' + '.join('(' + draw(term(names, max_factors)) + ')' for _ in range(k))


def point(n):
    return st.lists(st.integers(20, 200).map(lambda i: i / 100.0), min_size=n, max_size=n)


def signed(n, lo=-200, hi=200):
    return st.lists(st.integers(lo, hi).filter(bool).map(lambda i: i / 100.0), min_size=n, max_size=n)
