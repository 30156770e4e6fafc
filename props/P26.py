"""Order of the returned delays."""
from .P20 import *
from . import P20

HARNESSES, harness = registry()
BOUNDS = 'without sub-clustering: every order of the delays of 2-4 clusters; with sub-clustering: every order of the tap delays of 2-3 clusters, delays and cluster delay spreads symbolic, ties included (1 link); 1-2 examples, 1-2 transmitters, 1-3 receivers with different given orders, one of them open; all ray coefficients; inactive clusters (zero power) through the complete coefficient computation'
ASSUMPTIONS = []


def ascending(env, p, d, c, sub):
    nr, nc = p.shape
    h = coefficients(env, (1, 1, nr), nc, (1, 1, 1))
    rays = env.mod('OpenNTN.rays').Rays(env.t(d[None, None]), env.t(p[None, None]), None, None, None, None, None)
    out, dl = generator(env, sub)._step_11_reduce_nlos(env.t(h, 'c'), rays, env.t(c[None, None]))
    dl = env.arr(dl)
    for u in range(nr):
        for k in range(dl.shape[-1] - 1):
            env.holds(f'delays {k} and {k + 1} of receiver {u} ascend', S.le(dl[0, 0, u, k], dl[0, 0, u, k + 1] + 1e-9))
        m = d[u, 0]
        for x in d[u, 1:]:
            m = S.minimum(m, x)
        env.close(f'first delay of receiver {u}', dl[0, 0, u, 0], m, tol=1e-7)


@harness([dict(nc=2, sub=False), dict(nc=3, sub=False), dict(nc=4, sub=False), dict(nc=2, sub=True), dict(nc=3, sub=True)], budget=500, perm='fork')
def order_of_delays(env, nc, sub):
    p = np.array([[0.5 - 0.1 * ((k + 1) % nc) for k in range(nc)]], dtype=object)
    ascending(env, p, env.reals('d', (1, nc), 0.0, 10.0), env.reals('c', 1, 0.0, 3.0), sub)


@harness([dict(nc=2), dict(nc=3), dict(nc=4)], perm='fork', budget=500)
def attached(env, nc):
    """without sub-clustering every cluster keeps its delay"""
    p = np.array([[0.5] * nc], dtype=object)
    run(env, p, env.reals('d', (1, nc), 0.0, 10.0), env.reals('c', 1, 0.0, 3.0), subclustering=False)


@harness([dict(links=z, nc=n, sub=x) for z, n in zip(LINKS, (3, 3, 2, 2)) for x in (False, True)] + [dict(links=(1, 1, 3), nc=3, sub=False)],
         product(links=LINKS + [(1, 1, 3), (2, 2, 2)], nc=[2, 3, 4], sub=[False, True]), perm='fork', budget=500)
def many_links(env, links, nc, sub):
    """every link has its own order (that of the last one is open without sub-clusters); every tap keeps its delay"""
    links = tuple(links)
    rng = np.random.default_rng(17)
    p, d = np.empty(links + (nc,), dtype=object), np.empty(links + (nc,), dtype=object)
    for i, u in enumerate(np.ndindex(*links)):
        p[u] = rng.permutation(np.linspace(0.1, 0.7, nc))
        d[u] = np.roll(np.sort(rng.uniform(0.0, 9.0, nc)), -i)
    if not sub:
        d[tuple(z - 1 for z in links)] = env.reals('d', nc, 0.0, 10.0)
    run(env, p, d, 0.2 + 0.171 * np.arange(int(np.prod(links))).reshape(links).astype(object), subclustering=sub)


@harness([dict(moving='rx', nc=2, off=[1]), dict(moving='tx', nc=3, off=[0, 2])])
def inactive(env, moving, nc, off):
    """clusters without power contribute nothing"""
    s = Setup(env, 'VH', 'V', (1, 1, 1, nc, 2), moving, orient=False)
    for k in off:
        s.powers[..., k] = 0.0
    s.rays.powers = env.t(s.powers)
    h = s.gen._step_11_nlos(env.t(s.phi), s.topology, s.rays, env.t(env.reals('t', 1, 0.0, 1.0)), s.fc)
    for k in off:
        env.close(f'cluster {k}', env.arr(h)[:, :, :, k], 0.0, tol=1e-9)
