"""Angle helpers and Bernoulli draws."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'all angles within +-720 degrees, probabilities 0-1 (scalar and per element), all draws; arrays of up to 2x2x2 elements; both precisions'
ASSUMPTIONS = ['a uniform draw equal to the probability (measure zero) is excluded; draws are below one']


@harness([dict(shape=()), dict(shape=(2, 2))])
def conversions(env, shape):
    shape = tuple(shape)
    U = env.mod('OpenNTN.utils')
    x = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        x[i] = env.real('x' + '_'.join(map(str, i)), -720.0, 720.0)
    r = env.arr(U.deg_2_rad(env.t(x)))
    d = env.arr(U.rad_2_deg(env.t(x)))
    back = env.arr(U.rad_2_deg(U.deg_2_rad(env.t(x))))
    w = U.wrap_angle_0_360(env.t(x))
    for y in (w,):
        env.shape('wrapped', y, shape)
    w = env.arr(w)
    for i in np.ndindex(*shape):
        env.close(f'radians {i}', r[i], x[i] * (PI / 180), tol=1e-9)
        env.close(f'degrees {i}', d[i], x[i] * (180 / PI), tol=1e-9)
        env.close(f'there and back {i}', back[i], x[i], tol=1e-9)
        env.holds(f'wrapped {i} in [0, 360)', S.and_(S.le(-1e-9, w[i]), S.lt(w[i], 360.0 + 1e-9)))
        k = (x[i] - w[i]) / 360.0
        env.holds(f'wrapped {i} equivalent', S.le(S.abs1(k - S.floor(k + 0.5)), 1e-9))


@harness([dict(shape=(2, 2), p='scalar'), dict(shape=(2, 2), p='each'), dict(shape=(2, 2, 2), p='each')], [dict(shape=z, p=p, precision=q) for z in ((3,), (2, 2), (2, 2, 2)) for p in ('scalar', 'each') for q in ('single', 'double')])
def bernoulli(env, shape, p, precision=None):
    shape = tuple(shape)
    U = env.mod('OpenNTN.utils')
    prec = precision or env.precision
    env.precision = prec
    pr = env.real('p', 0.0, 1.0)
    P = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        P[i] = pr if p == 'scalar' else env.real('p' + '_'.join(map(str, i)), 0.0, 1.0)
    mark = len(env.drawlog)
    ptens = env.t(np.array(pr, dtype=object).reshape(())) if p == 'scalar' else env.t(P)
    z = U.sample_bernoulli(list(shape), ptens, precision=prec)
    env.shape('draws', z, shape)
    z = env.arr(z)
    names = [n for g in tensor_draws(env, mark, 'uniform') for n in g]
    env.holds('one uniform draw per element', len(names) == z.size)
    for n, i in zip(names, np.ndindex(*shape)):
        u = draw_value(env, n, 'uniform', 0.0, 1.0)
        env.assume(S.or_(S.le(1e-6, u - P[i]), S.le(u - P[i], -1e-6)))
        env.assume(S.le(u, 1 - 1e-6))
        env.close(f'element {i}', z[i], S.lt(u, P[i]))


@harness([dict(p=0.0), dict(p=1.0)])
def extremes(env, p):
    U = env.mod('OpenNTN.utils')
    mark = len(env.drawlog)
    z = env.arr(U.sample_bernoulli([2, 2], p, precision=env.precision))
    for n in [n for g in tensor_draws(env, mark, 'uniform') for n in g]:
        u = draw_value(env, n, 'uniform', 0.0, 1.0)
        env.assume(S.and_(S.le(0.0, u), S.le(u, 1 - 1e-6)))
    for i in np.ndindex(2, 2):
        env.close(f'element {i} for p = {p}', z[i], p == 1.0)
