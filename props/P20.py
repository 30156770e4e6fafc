"""Sub-clusters of the two strongest clusters."""
from .coef import *

HARNESSES, harness = registry()
BOUNDS = ('all ray coefficients (20 rays per cluster), all powers with pairwise distance of at least 1e-6, all delays and cluster delay spreads (arbitrary unit) with tap delays pairwise at least 1e-6 apart; every order of the powers of 2-4 clusters, every order of the tap delays of 2-3 clusters; '
          '1 example x 1 transmitter x 1-2 receivers, 1-2 elements and times; 1-2 examples, 1-2 transmitters, 1-3 receivers with the order of one link open and given different orders of the others')
ASSUMPTIONS = ['no ties between powers or between tap delays (with ties the order is not specified)']
GROUPS = [[0, 1, 2, 3, 4, 5, 6, 7, 18, 19], [8, 9, 10, 11, 16, 17], [12, 13, 14, 15]]
FACTORS = [0.0, 1.28, 2.56]


def coefficients(env, links, nc, extra):
    h = np.empty(links + (nc, 20) + extra, dtype=object)
    for i in np.ndindex(*h.shape):
        n = '_'.join(map(str, i))
        re, im = env.real('hr' + n, -1.0, 1.0), env.real('hi' + n, -1.0, 1.0)
        h[i] = CX(re, im) if env.sym else complex(re, im)
    return h


def distinct(env, vals, gap=1e-6):
    for i in range(len(vals)):
        for j in range(i):
            d = vals[i] - vals[j]
            env.assume(S.or_(S.le(gap, d), S.le(d, -gap)))


def order(env, vals, desc=False):
    """indices in sorted order, forking on every comparison that is open"""
    out = []
    for i in range(len(vals)):
        k = len(out)
        while k and env.choose(S.lt(vals[out[k - 1]], vals[i]) if desc else S.lt(vals[i], vals[out[k - 1]])):
            k -= 1
        out.insert(k, i)
    return out


def generator(env, subclustering=True):
    a, _ = make_end(env, 'V', 2e9)
    return env.mod('OpenNTN.channel_coefficients').ChannelCoefficientsGenerator(2e9, a, a, subclustering, precision=env.precision)


def taps(env, p, d, c, h):
    """expected (delay, coefficients) in ascending order of the delays, for one link"""
    nc = len(p)
    best = order(env, p, True)
    t = []
    for k, n in enumerate(best):
        if k < 2:
            t += [(d[n] + f * c, h[n][g].sum(axis=0)) for f, g in zip(FACTORS, GROUPS)]
        else:
            t.append((d[n], h[n].sum(axis=0)))
    return t


def run(env, p, d, c, extra=(1, 1, 1), subclustering=True):
    """p, d: [(example, transmitter,) receiver, cluster], c likewise without cluster"""
    while p.ndim < 4:
        p, d, c = p[None], d[None], c[None]
    nc = p.shape[-1]
    links = p.shape[:3]
    h = coefficients(env, links, nc, extra)
    rays = env.mod('OpenNTN.rays').Rays(env.t(d), env.t(p), None, None, None, None, None)
    gen = generator(env, subclustering)
    out, dl = gen._step_11_reduce_nlos(env.t(h, 'c'), rays, env.t(c))
    nt = nc + 4 if subclustering else nc
    env.shape('taps', out, links + (nt,) + extra)
    env.shape('delays', dl, links + (nt,))
    out, dl = env.arr(out), env.arr(dl)
    hh = env.arr(env.t(h, 'c'))
    for u in np.ndindex(*links):
        t = taps(env, list(p[u]), list(d[u]), c[u], hh[u]) if subclustering else [(d[u + (n,)], hh[u + (n,)].sum(axis=0)) for n in range(nc)]
        distinct(env, [x for x, _ in t])
        for k, n in enumerate(order(env, [x for x, _ in t])):
            env.close(f'delay of tap {k} of link {u}', dl[u + (k,)], t[n][0], tol=1e-7)
            env.close(f'tap {k} of link {u}', out[u + (k,)], t[n][1], tol=1e-6)
        env.close(f'every ray once, link {u}', out[u].sum(axis=0), hh[u].sum(axis=(0, 1)), tol=1e-6)


def fixed(rng, n):
    return np.array(sorted(rng.uniform(0.0, 9.0, n)), dtype=object)


@harness([dict(nc=n, seed=s) for n in (2, 3, 4) for s in (1, 2)], [dict(nc=n, seed=s) for n in (2, 3, 4, 5) for s in range(4)], perm='fork', budget=300)
def powers(env, nc, seed):
    """every order of the powers; the second receiver has fixed powers in another order"""
    rng = np.random.default_rng(seed)
    p = np.empty((2, nc), dtype=object)
    p[0] = env.reals('p', nc, 0.0, 1.0)
    p[1] = rng.permutation(np.linspace(0.1, 0.7, nc))
    distinct(env, list(p[0]))
    d = np.array([rng.permutation(fixed(rng, nc)) for _ in range(2)], dtype=object)
    run(env, p, d, np.array([0.217, 0.391], dtype=object), (1, 2, 2) if seed == 1 and nc < 4 else (1, 1, 1))


@harness([dict(nc=2, order=[0, 1]), dict(nc=3, order=[1, 2, 0]), dict(nc=3, order=[2, 0, 1])], [dict(nc=n, order=list(o)) for n in (2, 3) for o in itertools.permutations(range(n))], perm='fork', budget=600)
def delays(env, nc, order):
    """every order of the tap delays"""
    p = np.empty((1, nc), dtype=object)
    for k, n in enumerate(order):
        p[0, n] = 0.9 - 0.1 * k
    d = env.reals('d', (1, nc), 0.0, 10.0)
    c = env.reals('c', 1, 0.001, 3.0)
    run(env, p, d, c)


@harness([dict(nc=2)], perm='fork', budget=600)
def both(env, nc):
    p = env.reals('p', (1, nc), 0.0, 1.0)
    distinct(env, list(p[0]))
    run(env, p, env.reals('d', (1, nc), 0.0, 10.0), env.reals('c', 1, 0.001, 3.0))


LINKS = [(1, 2, 1), (2, 1, 1), (1, 2, 2), (2, 2, 1)]


@harness([dict(links=z, nc=n) for z, n in zip(LINKS, (3, 3, 2, 2))] + [dict(links=(1, 1, 3), nc=3)], product(links=LINKS + [(1, 1, 3), (2, 2, 2)], nc=[2, 3, 4]), perm='fork', budget=300)
def many(env, links, nc):
    """several examples, transmitters and receivers whose powers and delays are ordered differently; the powers of the last link are variables"""
    links = tuple(links)
    rng = np.random.default_rng(7)
    p, d = np.empty(links + (nc,), dtype=object), np.empty(links + (nc,), dtype=object)
    for i, u in enumerate(np.ndindex(*links)):
        p[u] = np.roll(np.linspace(0.1, 0.7, nc), i + 1)
        d[u] = np.roll(np.sort(rng.uniform(0.0, 9.0, nc)), -i)
    last = tuple(z - 1 for z in links)
    p[last] = env.reals('p', nc, 0.0, 1.0)
    distinct(env, list(p[last]))
    run(env, p, d, 0.2 + 0.171 * np.arange(int(np.prod(links))).reshape(links).astype(object))
