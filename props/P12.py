"""Azimuth angles of the rays."""
from .angles import *

HARNESSES, harness = registry()
BOUNDS = ('all LoS directions (symbolic user and satellite positions), spreads 0-104 degrees, K-factors -15..60 dB, cluster powers over 90 dB, signs and Gaussian draws symbolic; every scenario, band and elevation of the tables '
          '(2-4 clusters, 20 rays), both directions; LoS and NLoS links, 1-2 examples x 1-2 satellites x 2 users, 1 x 1 x 3 and 3 x 1 x 1; satellite heights 160-36000 km and below 160 km, also mixed within one topology')
ASSUMPTIONS = ['cluster power ratios below 1e-6 count as 1e-6', 'angles are compared through sine and cosine, their range separately']


def check(env, kind, scen, band, angle, direction, pat, alt='sat'):
    st = np.array(STATES[pat], dtype=object)
    high = altitudes(st.shape, alt)
    tk = dict(symbolic=('ut_loc', 'bs_loc', 'h'), heights=[[SAT if x else HAPS for x in row] for row in high])
    s, r, g = ray_setup(env, scen, band, angle, direction, STATES[pat], **tk)
    cmax = cluster_max(scen, band, direction, angle)
    spread, k, kdb, p, counts = inputs(env, r, g, st, cmax, 104.0)
    n0 = len(env.drawlog)
    f = r._azimuth_angles_of_arrival if kind == 'aoa' else r._azimuth_angles_of_departure
    out = f(env.t(spread), env.t(k), env.t(p))
    env.shape('azimuths', out, st.shape + (cmax, 20))
    out = env.arr(out)
    los = env.arr(s.los_aoa if kind == 'aoa' else s.los_aod)
    sg, ga = signs_and_normals(env, n0, st.shape, cmax)
    if sg is None:
        return
    dg = PI / 180
    for i in np.ndindex(*st.shape):
        b, a, u = i
        C = g(i, 'CPhiNLoS')
        L = st[i] == 'L'
        if L:
            C = C * (1.1035 - 0.028 * kdb[i] - 0.002 * kdb[i] ** 2 + 0.0001 * kdb[i] ** 3)
        sp = spread[i] if kind == 'aoa' or not high[b][a] else 0.0
        dev = [sg[b, a, c] * (2 * (sp / 1.4) * S.sqrt(-S.log(relative_power(p, i, c, cmax))) / C) + ga[i + (c,)] * (sp / 7.0) for c in range(counts[i])]
        cs = g(i, 'cASA' if kind == 'aoa' else 'cASD')
        for c in range(counts[i]):
            centre = los[i] + dev[c] - (dev[0] if L else 0.0)
            if L and c == 0:
                centre = los[i]
            for m in range(20):
                x = out[i + (c, m)]
                ref = centre + cs * OFFSETS[m]
                env.close(f'{kind} {i} cluster {c} ray {m} (sine)', S.sin(x * dg), S.sin(ref * dg), tol=1e-6)
                env.close(f'{kind} {i} cluster {c} ray {m} (cosine)', S.cos(x * dg), S.cos(ref * dg), tol=1e-6)
                if m == 0 and c in (0, counts[i] - 1):
                    env.holds(f'{kind} {i} cluster {c} ray {m} within (-180,180]', S.and_(S.le(-180 - 1e-6, x), S.le(x, 180 + 1e-6)))


@harness(QUICK, THOROUGH)
def arrival(env, **a):
    check(env, 'aoa', **a)


@harness(QUICK, THOROUGH)
def departure(env, **a):
    check(env, 'aod', **a)


@harness([dict(scen='dur', band='S', angle=50, direction='downlink', pat=0, alt='low'), dict(scen='urb', band='S', angle=60, direction='uplink', pat=1, alt='mixed'), dict(scen='sur', band='Ka', angle=30, direction='downlink', pat=3, alt='mixed2')],
         [dict(scen=s, band=b, angle=50, direction=d, pat=p, alt=x) for s in SCEN for b in ('S', 'Ka') for d in ('uplink', 'downlink') for p, x in ((0, 'low'), (1, 'mixed'), (1, 'mixed2'), (3, 'mixed2'))])
def departure_low(env, **a):
    """below 160 km the departure spread applies, whatever the altitude of other stations"""
    check(env, 'aod', **a)


@harness([{}])
def offsets(env):
    s, r, g = ray_setup(env, 'dur', 'S', 50, 'downlink', [[['L']]])
    env.holds('twenty rays', int(s.rays_per_cluster) == 20)


@harness([dict(scen=a, band=b, angle=c, direction=d) for (a, b, c), d in zip(RAY_CASES[:4], ('uplink', 'downlink', 'uplink', 'downlink'))])
def in_rays(env, scen, band, angle, direction):
    """with all draws zero the rays of the generator are the azimuths of their own spread, in radians"""
    st = np.array([[['L', 'N']]], dtype=object)
    s, r, g = ray_setup(env, scen, band, angle, direction, st.tolist(), symbolic=('ut_loc',), h=100e3)
    with env.forced(zero_draws):
        asa, asd = env.reals('asa', st.shape, 0.0, 104.0), env.reals('asd', st.shape, 0.0, 104.0)
        one = lambda v: env.t(np.full(st.shape, v, dtype=object))
        k = 7.0
        rays = r(env.mod().LSP(one(1e-7), env.t(asd), env.t(asa), one(1.0), one(k), one(10.0), one(2.0)))
        d, un = r._cluster_delays(one(1e-7), one(k))
        p, pa = r._cluster_powers(one(1e-7), one(k), un)
        want_a = env.arr(r._azimuth_angles_of_arrival(env.t(asa), one(k), pa))
        want_d = env.arr(r._azimuth_angles_of_departure(env.t(asd), one(k), pa))
    env.close('arrival azimuths', rays.aoa, want_a * (PI / 180), tol=1e-6)
    env.close('departure azimuths', rays.aod, want_d * (PI / 180), tol=1e-6)
