"""Cluster delays."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = ('all uniform draws, delay spreads 1e-10..1e-3 s and K-factors -40..60 dB symbolic; every scenario, band and elevation of the tables (2-4 clusters), both directions; '
          'LoS and NLoS links in 1-2 batch examples x 1-2 satellites x 2 users (also 3 users, 3 satellites, 3 examples)')
ASSUMPTIONS = ['X is the uniform draw of the link and cluster (tensor order [batch, satellite, user, cluster]), between 1e-6 and 1']
STATES = [[[['L', 'N']]], [[['N', 'N'], ['L', 'N']], [['L', 'L'], ['N', 'L']]], [[['N', 'L', 'N']]], [[['N']], [['L']], [['L']]], [[['L'], ['N'], ['N']]]]
SIZES = [dict(scen=a, band=b, angle=c, direction=d, pat=p) for (a, b, c, d), p in zip((('dur', 'Ka', 40, 'downlink'), ('urb', 'S', 20, 'uplink'), ('sur', 'Ka', 70, 'downlink')), (2, 3, 4))]


def run(env, scen, band, angle, direction, states):
    st = np.array(states, dtype=object)
    s, r, g = ray_setup(env, scen, band, angle, direction, states)
    ds, kdb = np.empty(st.shape, dtype=object), np.empty(st.shape, dtype=object)
    for i in np.ndindex(*st.shape):
        ds[i] = env.real('ds' + '_'.join(map(str, i)), 1e-10, 1e-3)
        kdb[i] = env.real('kdb' + '_'.join(map(str, i)), -40.0, 60.0)
    k = np.empty(st.shape, dtype=object)
    for i in np.ndindex(*st.shape):
        k[i] = 10.0 ** (kdb[i] / 10)
    n0 = len(env.drawlog)
    d, un = r._cluster_delays(env.t(ds), env.t(k))
    draws = tensor_draws(env, n0, 'uniform')
    return st, g, ds, kdb, env.arr(d), env.arr(un), draws


@harness([dict(scen=a, band=b, angle=c, direction=('uplink', 'downlink')[i % 2], pat=i % 2) for i, (a, b, c) in enumerate(RAY_CASES)] + SIZES,
         [dict(scen=a, band=b, angle=c, direction=d, pat=p) for a, b, c in ALL_RAY_CASES for d in ('uplink', 'downlink') for p in range(5)])
def delays(env, scen, band, angle, direction, pat):
    states = STATES[pat]
    st, g, ds, kdb, d, un, draws = run(env, scen, band, angle, direction, states)
    cmax = cluster_max(scen, band, direction, angle)
    env.holds('delays per link and cluster', d.shape == st.shape + (cmax,) and un.shape == d.shape)
    env.holds('one uniform draw per link and cluster', len(draws) == 1 and len(draws[0]) == st.size * cmax)
    for n, i in enumerate(np.ndindex(*st.shape)):
        C = clusters(g, i)
        x = [draw_value(env, draws[0][n * cmax + c], 'uniform', 0.0, 1.0) for c in range(cmax)]
        # draws are scaled to [1e-6, 1]
        x = [1e-6 + v * (1 - 1e-6) for v in x]
        tau = [-g(i, 'rTau') * ds[i] * S.log(v) for v in x[:C]]
        m = tau[0]
        for v in tau[1:]:
            m = S.minimum(m, v)
        want = sorted_values([v - m for v in tau])
        P = 0.7705 - 0.0433 * kdb[i] + 0.0002 * kdb[i] ** 2 + 0.000017 * kdb[i] ** 3
        env.holds(f'LoS scaling positive {i}', S.lt(0.0, P))
        lemma(env, S.lt(0.0, P))
        f = P if st[i] == 'L' else 1.0
        env.close(f'first delay of {i}', d[i + (0,)], 0.0, tol=1e-12)
        for c in range(C):
            env.close(f'unscaled delay {i} cluster {c}', un[i + (c,)] / ds[i], want[c] / ds[i], tol=1e-6)
        for c in range(cmax):
            # ascending and non-negative unscaled delays, divided by a positive number
            env.close(f'delay {i} cluster {c} is the scaled one', d[i + (c,)] * f / ds[i], un[i + (c,)] / ds[i], tol=1e-6)
            env.holds(f'delay {i} cluster {c} not negative', S.le(-1e-9, un[i + (c,)] / ds[i]))
            if c + 1 < cmax:
                env.holds(f'delays {i} ascend at {c}', S.le(un[i + (c,)] / ds[i], un[i + (c + 1,)] / ds[i] + 1e-9))
