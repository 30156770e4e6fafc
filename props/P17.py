"""Element patterns and fields."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'all directions theta in [0,pi], phi in [-pi,pi], all slants in [-pi,pi], the four patterns'
ASSUMPTIONS = ['the Bessel function J1 is an uninterpreted odd function with |J1(x)| <= |x|/2']
PATTERNS = ['omni', '38.901', 'aperture', 'dlp']
GMAX = {'omni': 1.0, '38.901': 10 ** 0.8, 'aperture': 1.0, 'dlp': 1.0}
FLOOR = {'38.901': 30.0, 'dlp': 25.0}


def element(env, pattern, slant):
    return env.mod('OpenNTN.antenna').AntennaElement(pattern, slant, env.precision)


def field(env, e, theta, phi):
    a, b = e.field(env.t(np.array([theta], dtype=object)), env.t(np.array([phi], dtype=object)))
    return env.arr(a)[0], env.arr(b)[0]


def direction(env):
    return env.real('theta', 0.0, PI), env.real('phi', -PI, PI)


def power(env, pattern, theta, phi):
    """the pattern in closed form (not the aperture)"""
    if pattern == 'omni':
        return 1.0
    w, lim = (65.0, 30.0) if pattern == '38.901' else (90.0, 25.0)
    t, p = theta * (180 / PI), phi * (180 / PI)
    a = S.minimum(12 * ((t - 90.0) / w) ** 2, lim) + S.minimum(12 * (p / w) ** 2, lim)
    return GMAX[pattern] * 10.0 ** (-S.minimum(a, lim) / 10)


@harness([dict(pattern=p) for p in PATTERNS])
def split(env, pattern):
    """field = sqrt(power) (cos slant, sin slant): the split by slant, the same power for every slant"""
    theta, phi = direction(env)
    slant = env.real('slant', -PI, PI)
    f = field(env, element(env, pattern, slant), theta, phi)
    v = field(env, element(env, pattern, 0.0), theta, phi)
    env.close('no horizontal field without slant', v[1], 0.0)
    u = v[0] ** 2
    env.close('power independent of the slant', f[0] ** 2 + f[1] ** 2, u, tol=1e-6)
    env.close('vertical share', f[0] ** 2, u * S.cos(slant) ** 2, tol=1e-6)
    env.close('horizontal share', f[1] ** 2, u * S.sin(slant) ** 2, tol=1e-6)
    env.close('signs', f[0] * f[1], u * S.cos(slant) * S.sin(slant), tol=1e-6)
    env.holds('vertical field not negative without slant', S.le(0.0, v[0] + 1e-12))


@harness([dict(pattern=p) for p in ('omni', '38.901', 'dlp')])
def patterns(env, pattern):
    theta, phi = direction(env)
    f = field(env, element(env, pattern, 0.0), theta, phi)
    env.close('pattern', f[0] ** 2, power(env, pattern, theta, phi), tol=1e-6)
    b = field(env, element(env, pattern, 0.0), PI / 2, 0.0)
    env.close('boresight', b[0] ** 2, GMAX[pattern], tol=1e-6)
    env.holds('bounded', S.le(f[0] ** 2, GMAX[pattern] + 1e-6))
    if pattern in FLOOR:
        env.holds('floored', S.le(GMAX[pattern] * 10 ** (-FLOOR[pattern] / 10) - 1e-7, f[0] ** 2))


@harness([dict(pattern=p) for p in PATTERNS])
def even(env, pattern):
    theta, phi = direction(env)
    e = element(env, pattern, 0.0)
    f = field(env, e, theta, phi)[0]
    if pattern == 'aperture':
        # on the rim the acos of rounded numbers may fall on either side
        c = S.sin(theta) * S.cos(phi)
        env.assume(S.or_(S.le(1e-9, c), S.le(c, -1e-9)))
    env.close('azimuth', field(env, e, theta, -phi)[0], f, tol=1e-6)
    env.close('horizontal plane', field(env, e, PI - theta, phi)[0], f, tol=1e-6)


@harness([{}])
def aperture(env):
    """4 |J1(ka sin r)/(ka sin r)|^2 within 90 degrees of boresight, ka = 20 pi, 1 at boresight, 0 behind"""
    theta, phi = direction(env)
    c = S.sin(theta) * S.cos(phi)       # cosine of the angle to the x axis
    e = element(env, 'aperture', 0.0)
    env.assume(S.or_(S.le(1e-9, c), S.le(c, -1e-9)))
    f = field(env, e, theta, phi)[0] ** 2
    env.holds('nothing behind', S.or_(S.lt(0.0, c), S.le(f, 1e-9)))
    env.holds('at most the maximum', S.le(f, 1.0 + 1e-6))
    b = field(env, e, PI / 2, 0.0)
    env.close('boresight', b[0] ** 2, 1.0, tol=1e-6)


@harness([{}])
def aperture_front(env):
    """4 |J1(ka sin r)/(ka sin r)|^2, ka = 20 pi, in front of the antenna"""
    theta, phi = direction(env)
    c = S.sin(theta) * S.cos(phi)
    env.assume(S.and_(S.le(1e-9, c), S.le(c, 1 - 1e-6)))
    f = field(env, element(env, 'aperture', 0.0), theta, phi)[0] ** 2
    x = 20 * PI * S.sqrt(1 - c * c)
    j = env.arr(env.tf.math.special.bessel_j1(env.t(np.array([x], dtype=object))))[0]
    env.close('pattern in front', f, 4 * (j / x) ** 2, tol=1e-6)


@harness([{}])
def aperture_cut(env):
    """the pattern on the horizontal cut, where the angle from boresight is the azimuth"""
    phi = env.real('phi', 1e-3, PI / 2 - 1e-3)
    e = element(env, 'aperture', 0.0)
    f = field(env, e, PI / 2, phi)[0] ** 2
    x = 20 * PI * S.sin(phi)
    j = env.tf.math.special.bessel_j1(env.t(np.array([x], dtype=object)))
    env.close('aperture', f, 4 * (env.arr(j)[0] / x) ** 2, tol=1e-6)


@harness([{}])
def names(env):
    """other patterns are refused"""
    for p in ('isotropic', '', 'OMNI'):
        _, exc = env.attempt(lambda: element(env, p, 0.0), AssertionError)
        env.holds(f'{p!r} refused', exc is not None)
