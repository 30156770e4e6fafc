"""Satellite speed and Doppler."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'all satellite heights 200-36000 km, elevations 10-90 degrees, carriers 1.9-40 GHz, all draws; 1-2 examples, 1-2 satellites'
ASSUMPTIONS = []
GM = 6.6743e-11 * 5.972e24
V_LIGHT = 299792458.0


def heights(env, shape, name='h'):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = env.real(name + '_'.join(map(str, i)), 200e3, 36000e3)
    return out


@harness([dict(shape=()), dict(shape=(2, 2))])
def speed(env, shape):
    shape = tuple(shape)
    h = heights(env, shape)
    v = env.mod('OpenNTN.utils').compute_satellite_speed(env.t(h))
    env.shape('speed', v, shape)
    v = env.arr(v)
    for i in np.ndindex(*shape):
        env.close(f'speed {i}', v[i] / 1e3, S.sqrt(GM / (R_E + h[i])) / 1e3, tol=1e-7)


@harness([{}])
def monotone(env):
    h, k = env.real('h', 200e3, 36000e3), env.real('k', 200e3, 36000e3)
    env.assume(S.le(h + 1.0, k))
    f = env.mod('OpenNTN.utils').compute_satellite_speed
    v, w = env.arr(f(env.t(h)))[()], env.arr(f(env.t(k)))[()]
    env.holds('a higher satellite is slower', S.lt(w, v))


@harness([dict(elev=None), dict(elev=90.0), dict(elev=10)])
def doppler(env, elev):
    h, fc = env.real('h', 200e3, 36000e3), env.real('fc', 1.9e9, 40e9)
    e = env.real('e', 10.0, 90.0) if elev is None else elev
    r = env.arr(env.mod('OpenNTN.utils').compute_stallite_doppler(env.t(h), e, fc))[()]
    shift = r - fc
    v = S.sqrt(GM / (R_E + h))
    c = S.cos(e * (PI / 180))
    env.close('relative shift', shift / fc * 1e6, v / V_LIGHT * (R_E / (R_E + h)) * c * 1e6, tol=1e-6)
    if elev == 90.0:
        env.close('no shift at the zenith', shift / fc * 1e6, 0.0, tol=1e-6)
    else:
        env.holds('not negative', S.le(-1e-9, shift / fc * 1e3))


@harness([dict(nb=b, ns=s, e=e, moving=m) for b, s, e, m in ((1, 1, None, 'rx'), (2, 2, None, 'tx'), (2, 1, 90.0, 'rx'), (1, 2, 10, 'rx'))])
def topology(env, nb, ns, e, moving):
    """the speed seen by the users"""
    elev = env.real('e', 10.0, 90.0) if e is None else e
    h = heights(env, (nb, ns))
    nu = 2
    z = lambda *s: env.t(np.full(s, 0.3).astype(object))
    L = (nb, ns, nu) if moving == 'rx' else (nb, nu, ns)
    T = env.mod('OpenNTN.channel_coefficients').Topology(z(nb, nu, 3), moving, z(*L), z(*L), z(*L), z(*L), env.t(np.full(L, True, dtype=object), 'b'), z(*L), z(nb, L[1], 3), z(nb, L[2], 3), env.t(h), elev, True)
    env.shape('satellite speeds', T.sat_speed, (nb, ns))
    v = env.arr(T.sat_speed)
    c = S.cos(elev * (PI / 180))
    for i in np.ndindex(nb, ns):
        m = c * S.sqrt(GM / (R_E + h[i]))
        env.holds(f'speed {i} at most the projected orbital speed', S.and_(S.le(v[i], m * (1 + 1e-6) + 1e-3), S.le(-1 * m * (1 + 1e-6) - 1e-3, v[i])))
