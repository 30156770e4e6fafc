"""Shared parts of P12 and P13."""
from .common import *

OFFSETS = [s * v for v in (0.0447, 0.1413, 0.2492, 0.3715, 0.5129, 0.6797, 0.8844, 1.1481, 1.5195, 2.1551) for s in (1, -1)]
STATES = [[[['L', 'N']]], [[['N', 'L'], ['L', 'N']], [['N', 'N'], ['L', 'N']]], [[['N', 'L', 'N']]], [[['N']], [['L']], [['N']]]]
QUICK = [dict(scen=a, band=b, angle=c, direction=('uplink', 'downlink')[i % 2], pat=i % 2) for i, (a, b, c) in enumerate(RAY_CASES)] + [dict(scen='dur', band='Ka', angle=40, direction='uplink', pat=2), dict(scen='sur', band='S', angle=20, direction='downlink', pat=3)]
THOROUGH = [dict(scen=a, band=b, angle=c, direction=d, pat=p) for a, b, c in ALL_RAY_CASES for d in ('uplink', 'downlink') for p in (0, 1, 2, 3)]


SAT, HAPS = (160e3, 36000e3), (8e3, 159.99e3)


def altitudes(shape, alt):
    """[example][station]: at or above 160 km"""
    return [[dict(sat=True, low=False, mixed=(b + a) % 2 == 1, mixed2=(b + a) % 2 == 0)[alt] for a in range(shape[1])] for b in range(shape[0])]


def powers(env, shape, cmax, counts):
    """powers of the active clusters as 10^(-x/10), zero for the others"""
    p = np.zeros(tuple(shape) + (cmax,), dtype=object)
    for i in np.ndindex(*shape):
        for c in range(counts[i]):
            p[i + (c,)] = 10.0 ** (-env.real('x' + '_'.join(map(str, i + (c,))), 0.0, 90.0) / 10)
    return p


def inputs(env, r, g, st, cmax, smax, klo=-15.0):
    spread, k, kdb = [np.empty(st.shape, dtype=object) for _ in range(3)]
    counts = {}
    for i in np.ndindex(*st.shape):
        n = '_'.join(map(str, i))
        spread[i] = env.real('s' + n, 0.0, smax)
        kdb[i] = env.real('kdb' + n, klo, 60.0)
        k[i] = 10.0 ** (kdb[i] / 10)
        counts[i] = clusters(g, i)
    return spread, k, kdb, powers(env, st.shape, cmax, counts), counts


def relative_power(p, i, c, cmax):
    m = p[i + (0,)]
    for j in range(1, cmax):
        m = S.maximum(m, p[i + (j,)])
    z = p[i + (c,)] / m
    return S.minimum(S.maximum(z, 1e-6), 1.0)


def signs_and_normals(env, n0, shape, cmax):
    """the +-1 signs (one per cluster, shared by the users) and the Gaussian draws"""
    ints = [n for n, k, lo, hi, isint in env.drawlog[n0:] if isint]
    norm = tensor_draws(env, n0, 'normal')
    nb, ns, nu = shape
    ok = len(ints) == nb * ns * cmax and len(norm) == 1 and len(norm[0]) == nb * ns * nu * cmax
    env.holds('one sign per satellite and cluster, one Gaussian per link and cluster', ok)
    if not ok:
        return None, None
    sg = np.empty((nb, ns, cmax), dtype=object)
    for j, i in enumerate(np.ndindex(nb, ns, cmax)):
        sg[i] = 2 * draw_value(env, ints[j], 'uniform', 0, 1, True) - 1
    ga = np.empty((nb, ns, nu, cmax), dtype=object)
    for j, i in enumerate(np.ndindex(nb, ns, nu, cmax)):
        ga[i] = draw_value(env, norm[0][j])
    return sg, ga


def zero_draws(kind, lo, hi, isint, name):
    return 0.0 if kind == 'normal' else (1 if isint else 0.5 * (lo + hi))
