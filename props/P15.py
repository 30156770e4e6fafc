"""Cross-polarization power ratios."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'all Gaussian draws within 6 deviations; every scenario, band, direction and elevation of the tables (thorough), eight of them (quick); LoS and NLoS links, 1-2 examples x 1-2 satellites x 2 users (also 3 users, 3 satellites, 3 examples), 2-4 clusters x 20 rays'
ASSUMPTIONS = ['the Gaussian generator of TensorFlow returns independent standard Gaussians']
STATES = [[[['L', 'N']]], [[['N', 'L'], ['L', 'N']], [['N', 'N'], ['L', 'N']]], [[['N', 'L', 'N']]], [[['N']], [['L']], [['L']]], [[['L'], ['N'], ['N']]]]
SIZES = [dict(scen=a, band=b, angle=c, direction=d, pat=p) for (a, b, c, d), p in zip((('dur', 'Ka', 40, 'downlink'), ('urb', 'S', 20, 'uplink'), ('sur', 'Ka', 70, 'downlink')), (2, 3, 4))]


def moments(g, i):
    return g(i, 'muXPR'), g(i, 'sigmaXPR')


@harness([dict(scen=a, band=b, angle=c, direction=('uplink', 'downlink')[i % 2], pat=i % 2) for i, (a, b, c) in enumerate(RAY_CASES)] + SIZES,
         [dict(scen=a, band=b, angle=c, direction=d, pat=p) for a, b, c in ALL_RAY_CASES for d in ('uplink', 'downlink') for p in range(5)])
def ratios(env, scen, band, angle, direction, pat):
    states = STATES[pat]
    st = np.array(states, dtype=object)
    s, r, g = ray_setup(env, scen, band, angle, direction, states)
    cm = cluster_max(scen, band, direction, angle)
    n0 = len(env.drawlog)
    x = r._cross_polarization_power_ratios()
    shape = st.shape + (cm, 20)
    env.shape('ratios', x, shape)
    x = env.arr(x)
    z = [n for t in tensor_draws(env, n0, 'normal') for n in t]
    env.holds('one Gaussian per ray', len(z) == int(np.prod(shape)))
    if len(z) != int(np.prod(shape)):
        return
    for j, i in enumerate(np.ndindex(*shape)):
        mu, sd = moments(g, i[:3])
        env.close(f'ratio {i}', S.log10(x[i]) * 10, mu + sd * draw_value(env, z[j]))
        env.holds(f'ratio {i} positive', S.lt(0.0, x[i]))


@harness([dict(scen=a, band=b, angle=c, direction=d) for (a, b, c), d in zip(RAY_CASES[:4], ('uplink', 'downlink', 'uplink', 'downlink'))])
def in_rays(env, scen, band, angle, direction):
    """the generator returns these ratios, one independent of the other draws"""
    st = np.array([[['L', 'N']]], dtype=object)
    s, r, g = ray_setup(env, scen, band, angle, direction, st.tolist(), h=100e3)
    one = lambda v: env.t(np.full(st.shape, v, dtype=object))
    l = env.mod().LSP(one(1e-7), one(10.0), one(20.0), one(1.0), one(7.0), one(5.0), one(3.0))
    cm = cluster_max(scen, band, direction, angle)
    n = st.size * cm * 20
    mine = [t for t, (k, c, isint) in enumerate(probe(env, lambda: r(l))) if k == 'normal' and c == n]
    env.holds('one Gaussian per ray', len(mine) == 1)
    if len(mine) != 1:
        return
    with env.forced(forced_tensors({mine[0]: lambda j: env.real(f'z{j}', -4.0, 4.0)}, lambda kind, lo, hi, isint: 0.7 if kind == 'normal' else neutral(kind, lo, hi, isint))):
        x = env.arr(r(l).xpr)
    env.shape('ratios of the rays', x, st.shape + (cm, 20))
    for j, i in enumerate(np.ndindex(*st.shape, cm, 20)):
        mu, sd = moments(g, i[:3])
        env.close(f'ratio {i}', S.log10(x[i]) * 10, mu + sd * env.real(f'z{j}', -4.0, 4.0), tol=1e-6)
