"""Impulse response to OFDM frequency response."""
from .coef import *

HARNESSES, harness = registry()
BOUNDS = ('all coefficients with parts in [-1,1], delays 0-1 ms and frequencies +-100 MHz; 1-3 examples, 1-3 receivers and transmitters, 1-3 antennas per end, 1-6 paths, 1-4 times, 1-5 frequencies in the listed combinations; delays per link and per antenna pair; with and without normalization, including links without energy')
ASSUMPTIONS = ['energy of a normalized link is zero or at least 1e-9']
# batch, receivers, receive antennas, transmitters, transmit antennas, paths, times, frequencies
QUICK = [(1, 1, 1, 1, 1, 3, 1, 2), (2, 1, 2, 1, 1, 2, 1, 1), (1, 2, 1, 2, 2, 2, 1, 1), (1, 1, 2, 2, 1, 1, 2, 2), (1, 2, 2, 1, 2, 1, 1, 1),
         (1, 1, 1, 1, 1, 6, 1, 1), (3, 1, 1, 1, 1, 1, 3, 1), (1, 3, 1, 1, 3, 1, 1, 1), (1, 1, 3, 3, 1, 1, 1, 1), (1, 1, 1, 1, 1, 1, 4, 5)]
MORE = QUICK + [(2, 2, 2, 2, 2, 1, 1, 1), (1, 2, 2, 2, 2, 2, 2, 3), (2, 2, 1, 2, 1, 3, 2, 2), (1, 1, 1, 1, 1, 3, 2, 3)]


def cplx(env, name, shape, zero=()):
    h = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        k = '_'.join(map(str, i))
        if any(all(x is None or x == y for x, y in zip(z, i)) for z in zero):
            h[i] = CX(0.0, 0.0) if env.sym else 0j
            continue
        re, im = env.real(name + 'r' + k, -1.0, 1.0), env.real(name + 'i' + k, -1.0, 1.0)
        h[i] = CX(re, im) if env.sym else complex(re, im)
    return h


def delays(env, size, per, hi=1e-3):
    b, r, ra, x, xa, p = size[:6]
    return sym_delays(env, (b, r, ra, x, xa, p) if per == 'antenna' else (b, r, x, p), hi)


def sym_delays(env, shape, hi):
    d = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        d[i] = env.real('tau' + '_'.join(map(str, i)), 0.0, hi)
    return d


def tau(d, i):
    b, r, ra, x, xa, p = i[:6]
    return d[b, r, ra, x, xa, p] if d.ndim == 6 else d[b, r, x, p]


@harness([dict(size=z, per=p) for z in QUICK for p in ('link', 'antenna')], [dict(size=z, per=p) for z in MORE for p in ('link', 'antenna')])
def fourier(env, size, per):
    size = tuple(size)
    b, r, ra, x, xa, p, nt, nf = size
    a, d, f = cplx(env, 'a', size[:7]), delays(env, size, per), env.reals('f', nf, -1e8, 1e8)
    H = env.mod('OpenNTN.utils').cir_to_ofdm_channel(env.t(f), env.t(a, 'c'), env.t(d))
    env.shape('response', H, (b, r, ra, x, xa, nt, nf))
    H = env.arr(H)
    for i in np.ndindex(*H.shape):
        w = CX(0.0, 0.0) if env.sym else 0j
        for k in range(p):
            c = a[i[:5] + (k, i[5])]
            ph = -2 * PI * f[i[6]] * tau(d, i[:5] + (k,))
            w = w + c * (S.exp(CX(0.0, ph)) if env.sym else complex(math.cos(ph), math.sin(ph)))
        env.close(f'response {i}', H[i], w, tol=1e-6)


def energy(z):
    z = S.tocx(z)
    return z.re * z.re + z.im * z.im


def normalized(env, plain, norm, axes, rest, label, gap=1e-9):
    """norm is plain divided by the square root of the mean energy over the axes; zero without energy"""
    for link in np.ndindex(*[plain.shape[k] for k in rest]):
        idx = [slice(None)] * plain.ndim
        for k, v in zip(rest, link):
            idx[k] = v
        P, Q = plain[tuple(idx)], norm[tuple(idx)]
        E = sum((energy(z) for z in P.reshape(-1)), 0.0) / float(np.prod([plain.shape[k] for k in axes]))
        if not isinstance(E, N) and E == 0:
            for i in np.ndindex(*P.shape):
                env.close(f'{label} {link}{i} without energy', Q[i], 0.0, tol=1e-9)
            continue
        env.assume(S.le(gap, E))
        for i in np.ndindex(*P.shape):
            env.close(f'{label} {link}{i}', Q[i], P[i] / S.sqrt(E), tol=1e-6)


NORM = [(1, 2, 1, 1, 2, 1, 1, 1), (2, 1, 2, 1, 1, 1, 1, 1), (1, 1, 1, 2, 1, 2, 1, 2), (1, 1, 1, 1, 1, 1, 2, 2), (2, 1, 1, 2, 1, 1, 1, 2), (3, 1, 1, 1, 1, 1, 1, 1), (1, 1, 3, 1, 1, 1, 1, 1), (1, 1, 1, 1, 1, 1, 3, 1), (1, 1, 1, 1, 1, 1, 1, 3), (1, 3, 1, 1, 1, 1, 1, 1)]


@harness([dict(size=z, per=p, zero=e) for z, p, e in zip(NORM, ('link', 'antenna', 'link', 'link', 'antenna') + ('link',) * 5, ((), ((1,),), ((0, 0, 0, 1),), (), ()) + ((),) * 5)],
         [dict(size=z, per=p, zero=e) for z in NORM for p in ('link', 'antenna') for e in ((), ((0, 0, None, 0),))])
def normalization(env, size, per, zero):
    size = tuple(size)
    a, d, f = cplx(env, 'a', size[:7], zero), delays(env, size, per), env.reals('f', size[7], -1e8, 1e8)
    F = env.mod('OpenNTN.utils').cir_to_ofdm_channel
    args = env.t(f), env.t(a, 'c'), env.t(d)
    P = env.arr(F(*args))
    H = F(*args, normalize=True)
    env.shape('normalized response', H, P.shape)
    normalized(env, P, env.arr(H), (2, 4, 5, 6), (0, 1, 3), 'link')
