"""Parameter table selection."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'elevation symbolic over [10,90] (all nine table columns, ties between two columns excluded), carrier symbolic over one band per case, LoS states of 2 links symbolic; all 3 scenarios x 2 bands x 2 directions; every table entry'
ASSUMPTIONS = ['expected values are a committed copy of the TR 38.811 tables (data/tables.json)']
CASES = product(scen=list(SCEN), band=['S', 'Ka'], direction=['downlink', 'uplink'])


def setup(env, scen, band, direction, elev):
    fc = env.real('fc', *((1.9e9, 4e9) if band == 'S' else (19e9, 40e9)))
    s = scenario(env, scen, fc, direction, elev)
    s.set_topology(**topo(env, nb=1, nut=2, indoor='sym'))
    return s


def column(env, el):
    """table column of the elevation (forks)"""
    for a in ANGLES[:-1]:
        if env.choose(S.lt(el, a + 5.0)):
            return a
    return 90


def elev(env):
    el = env.real('elev', 10.0, 90.0)
    for a in ANGLES[:-1]:
        env.assume(S.or_(S.le(el, a + 5 - 1e-6), S.le(a + 5 + 1e-6, el)))
    return el


def want(scen, band, direction, name, a):
    k = lambda n: n if n in ('CPhiNLoS', 'CThetaNLoS') else f'{n}_{a}'
    L, NL = table(scen, True, band, direction), table(scen, False, band, direction)
    return L.get(k(name)), NL.get(k(name))


def names(scen, band, direction):
    t = table(scen, True, band, direction)
    return sorted({k.rsplit('_', 1)[0] if k.rsplit('_', 1)[-1].isdigit() else k for k in t})


def pick(los, l, n):
    if l == n:
        return l
    return S.ite(los, l, n)


@harness(CASES)
def get_param(env, scen, band, direction):
    el = elev(env)
    s = setup(env, scen, band, direction, el)
    a = column(env, el)
    los = env.arr(s.los)
    env.shape('LoS states', s.los, (1, 1, 2))
    for n in names(scen, band, direction):
        if n == 'LoS_p':
            continue
        l, nl = want(scen, band, direction, n, a)
        got = env.arr(s.get_param(n))
        env.holds(f'{n} has one value per link', got.shape == (1, 1, 2))
        for u in range(2):
            env.close(f'{n} link {u}', got[0, 0, u], pick(los[0, 0, u], l, nl))


@harness(CASES)
def derived(env, scen, band, direction):
    el = elev(env)
    s = setup(env, scen, band, direction, el)
    a = column(env, el)
    los = env.arr(s.los)
    W = lambda n: want(scen, band, direction, n, a)
    env.close('clusters LoS', env.arr(s.num_clusters_los), W('numClusters')[0])
    env.close('clusters NLoS', env.arr(s.num_clusters_nlos), W('numClusters')[1])
    env.close('clusters max', env.arr(s.num_clusters_max), max(W('numClusters')))
    env.close('rays per cluster', env.arr(s.rays_per_cluster), 20.0)
    p = env.arr(s.los_probability)
    env.holds('LoS probability per link', p.shape == (1, 1, 2))
    for u in range(2):
        env.close(f'LoS probability {u}', p[0, 0, u], W('LoS_p')[0])
    m, sd = env.arr(s.lsp_log_mean), env.arr(s.lsp_log_std)
    env.holds('moments per link and parameter', m.shape == (1, 1, 2, 7) and sd.shape == (1, 1, 2, 7))
    for i, (mu, sg, f) in enumerate([('muDS', 'sigmaDS', 1), ('muASD', 'sigmaASD', 1), ('muASA', 'sigmaASA', 1), (None, 'sigmaSF', 10), ('muK', 'sigmaK', 10),
                                     ('muZSA', 'sigmaZSA', 1), ('muZSD', 'sigmaZSD', 1)]):
        for u in range(2):
            l, nl = W(mu) if mu else (0.0, 0.0)
            env.close(f'mean {i} link {u}', m[0, 0, u, i], pick(los[0, 0, u], l / f, nl / f))
            l, nl = W(sg)
            env.close(f'deviation {i} link {u}', sd[0, 0, u, i], pick(los[0, 0, u], l / f, nl / f))
