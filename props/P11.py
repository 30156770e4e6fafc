"""Cluster powers."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = ('all Gaussian draws, delay spreads 1e-10..1e-3 s, delays 0..60 delay spreads, K-factors -40..60 dB symbolic; every scenario, band and elevation of the tables (2-4 clusters), both directions; '
          'LoS and NLoS links in 1-2 batch examples x 1-2 satellites x 2 users (also 3 users, 3 satellites, 3 examples)')
ASSUMPTIONS = ['Z is the tabulated deviation times the Gaussian draw of the link and cluster (tensor order [batch, satellite, user, cluster])']
STATES = [[[['L', 'N']]], [[['N', 'N'], ['L', 'N']], [['L', 'L'], ['N', 'L']]], [[['N', 'L', 'N']]], [[['N']], [['L']], [['L']]], [[['L'], ['N'], ['N']]]]
SIZES = [dict(scen=a, band=b, angle=c, direction=d, pat=p) for (a, b, c, d), p in zip((('dur', 'Ka', 40, 'downlink'), ('urb', 'S', 20, 'uplink'), ('sur', 'Ka', 70, 'downlink')), (2, 3, 4))]


@harness([dict(scen=a, band=b, angle=c, direction=('uplink', 'downlink')[i % 2], pat=i % 2) for i, (a, b, c) in enumerate(RAY_CASES)] + SIZES,
         [dict(scen=a, band=b, angle=c, direction=d, pat=p) for a, b, c in ALL_RAY_CASES for d in ('uplink', 'downlink') for p in range(5)])
def powers(env, scen, band, angle, direction, pat):
    st = np.array(STATES[pat], dtype=object)
    s, r, g = ray_setup(env, scen, band, angle, direction, STATES[pat])
    cmax = cluster_max(scen, band, direction, angle)
    ds, k, tau = np.empty(st.shape, dtype=object), np.empty(st.shape, dtype=object), np.empty(st.shape + (cmax,), dtype=object)
    rel = env.reals('t', st.shape + (cmax,), 0.0, 60.0)
    for i in np.ndindex(*st.shape):
        ds[i] = env.real('ds' + '_'.join(map(str, i)), 1e-10, 1e-3)
        k[i] = 10.0 ** (env.real('kdb' + '_'.join(map(str, i)), -40.0, 60.0) / 10)
        for c in range(cmax):
            tau[i + (c,)] = rel[i + (c,)] * ds[i]
    n0 = len(env.drawlog)
    p, pa = r._cluster_powers(env.t(ds), env.t(k), env.t(tau))
    draws = tensor_draws(env, n0, 'normal')
    p, pa = env.arr(p), env.arr(pa)
    env.holds('powers per link and cluster', p.shape == st.shape + (cmax,) and pa.shape == p.shape)
    env.holds('one Gaussian draw per link and cluster', len(draws) == 1 and len(draws[0]) == st.size * cmax)
    for n, i in enumerate(np.ndindex(*st.shape)):
        C = clusters(g, i)
        z = [g(i, 'zeta') * draw_value(env, draws[0][n * cmax + c]) for c in range(C)]
        rt = g(i, 'rTau')
        w = [S.exp(-rel[i + (c,)] * ((rt - 1) / rt)) * 10.0 ** (-z[c] / 10) for c in range(C)]
        tot = sum(w)
        env.close(f'powers of {i} sum to one', sum(p[i + (c,)] for c in range(cmax)), 1.0)
        env.close(f'angle powers of {i} sum to one', sum(pa[i + (c,)] for c in range(cmax)), 1.0)
        for c in range(cmax):
            want = w[c] / tot if c < C else 0.0
            env.close(f'power {i} cluster {c}', p[i + (c,)], want, tol=1e-6)
            env.holds(f'power {i} cluster {c} not negative', S.le(-1e-12, p[i + (c,)]))
            wa = (want + (k[i] if c == 0 else 0.0)) / (k[i] + 1) if st[i] == 'L' else want
            env.close(f'angle power {i} cluster {c}', pa[i + (c,)], wa, tol=1e-6)


@harness([dict(scen=a, band=b, angle=c, direction='downlink') for a, b, c in RAY_CASES[:4]], [dict(scen=a, band=b, angle=c, direction='uplink') for a, b, c in RAY_CASES])
def in_rays(env, scen, band, angle, direction):
    """the rays returned by the generator carry the powers of the unscaled delays, not affected by the K-factor"""
    st = np.array([[['L', 'N']]], dtype=object)
    s, r, g = ray_setup(env, scen, band, angle, direction, st.tolist())
    m = env.mod()
    cmax = cluster_max(scen, band, direction, angle)
    ds = env.reals('ds', st.shape, 1e-9, 1e-4)
    k = np.empty(st.shape, dtype=object)
    for i in np.ndindex(*st.shape):
        k[i] = 10.0 ** (env.real('kdb' + '_'.join(map(str, i)), -20.0, 30.0) / 10)
    one = lambda v: env.t(np.full(st.shape, v, dtype=object))
    lsp = m.LSP(env.t(ds), one(5.0), one(30.0), one(1.0), env.t(k), one(10.0), one(2.0))
    with env.forced(keyed(env)):
        rays = r(lsp)
    with env.forced(keyed(env)):
        d, un = r._cluster_delays(env.t(ds), env.t(k))
        p, pa = r._cluster_powers(env.t(ds), env.t(k), un)
    env.close('powers of the rays', rays.powers, p, tol=1e-6)
    env.close('delays of the rays', np.array(env.arr(rays.delays)) / ds[..., None], np.array(env.arr(d)) / ds[..., None], tol=1e-6)
