"""Distances and line-of-sight angles."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = ('user and satellite coordinates symbolic (+-3000 km horizontally, users 0-50 m, satellites 600-36000 km high), elevation symbolic over [10,90], LoS states symbolic; 2 batch examples x 2 satellites x 3 users; '
          'directions for user-satellite distances above 1 m; 3 scenarios x 2 directions')
ASSUMPTIONS = ['angles are compared through the unit vectors they stand for']


def geometry(env, scen, direction, size, elev):
    nb, ns, nu = size
    s = scenario(env, scen, 2e9, direction, elev)
    t = topo(env, nb, nu, ns, symbolic=('ut_loc', 'bs_loc', 'h'))
    s.set_topology(**t)
    return s, env.arr(t['ut_loc']), env.arr(t['bs_loc'])


@harness([dict(scen=s, direction=d, size=z) for s, d, z in (('dur', 'downlink', (2, 2, 3)), ('urb', 'uplink', (2, 2, 3)), ('sur', 'downlink', (1, 1, 2)))],
         product(scen=list(SCEN), direction=['downlink', 'uplink'], size=[(2, 2, 3), (1, 2, 2)]))
def distances(env, scen, direction, size):
    nb, ns, nu = size
    el = env.real('elev', 10.0, 90.0)
    s, ut, bs = geometry(env, scen, direction, size, el)
    d2, d3, m = env.arr(s.distance_2d), env.arr(s.distance_3d), env.arr(s.matrix_ut_distance_2d)
    env.shape('horizontal distance', s.distance_2d, (nb, ns, nu))
    env.shape('slant range', s.distance_3d, (nb, ns, nu))
    env.shape('user distances', s.matrix_ut_distance_2d, (nb, nu, nu))
    sq = lambda x: x * x
    si = R_E * S.sin(el * (PI / 180))
    for b in range(nb):
        for u in range(nu):
            for a in range(ns):
                env.close(f'horizontal distance {b, a, u}', d2[b, a, u], S.sqrt(sq(ut[b, u, 0] - bs[b, a, 0]) + sq(ut[b, u, 1] - bs[b, a, 1])))
                h = bs[b, a, 2]
                env.close(f'slant range {b, a, u}', d3[b, a, u], S.sqrt(si * si + h * h + 2 * h * R_E) - si)
            for v in range(nu):
                env.close(f'user distance {b, u, v}', m[b, u, v], S.sqrt(sq(ut[b, u, 0] - ut[b, v, 0]) + sq(ut[b, u, 1] - ut[b, v, 1])))


@harness([dict(scen=s, direction=d, size=z) for s, d, z in (('dur', 'downlink', (1, 2, 2)), ('urb', 'uplink', (2, 1, 1)), ('sur', 'downlink', (1, 1, 1)), ('sur', 'uplink', (1, 1, 3)), ('urb', 'downlink', (3, 1, 1)), ('dur', 'uplink', (1, 3, 1)))],
         product(scen=list(SCEN), direction=['downlink', 'uplink'], size=[(2, 2, 2)]))
def angles(env, scen, direction, size):
    nb, ns, nu = size
    s, ut, bs = geometry(env, scen, direction, size, 45.0)
    dg = PI / 180
    for n in ('los_aod', 'los_zod', 'los_aoa', 'los_zoa'):
        env.shape(n, getattr(s, n), (nb, ns, nu))
    aod, zod, aoa, zoa = [env.arr(getattr(s, n)) for n in ('los_aod', 'los_zod', 'los_aoa', 'los_zoa')]
    for i in np.ndindex(nb, ns, nu):
        b, a, u = i
        d = [ut[b, u, k] - bs[b, a, k] for k in range(3)]
        r2 = d[0] * d[0] + d[1] * d[1]
        env.assume(S.le(1.0, r2))
        n = S.sqrt(r2 + d[2] * d[2])
        for what, az, ze, sg in (('departure', aod[i], zod[i], 1.0), ('arrival', aoa[i], zoa[i], -1.0)):
            v = [S.sin(ze * dg) * S.cos(az * dg), S.sin(ze * dg) * S.sin(az * dg), S.cos(ze * dg)]
            for k in range(3):
                env.close(f'{what} direction {i} component {k}', v[k], sg * d[k] / n, tol=1e-6)
            env.holds(f'{what} zenith {i} within [0,180]', S.and_(S.le(-1e-6, ze), S.le(ze, 180 + 1e-6)))
