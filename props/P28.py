"""Impulse response to discrete-time taps."""
from .P27 import *

HARNESSES, harness = registry()
BOUNDS = ('all coefficients with parts in [-1,1], delays 0-10 us, bandwidths 1 kHz-100 MHz; 1-3 examples, 1-3 receivers and transmitters, 1-3 antennas per end, 1-6 paths, 1-4 times in the listed combinations, lag ranges [0,0], [-1,1], [-2,0], [1,3], [-6,8]; delays per link and per antenna pair; with and without normalization, including links without energy')
ASSUMPTIONS = ['energy of a normalized link is zero or at least 1e-9']
LAGS = [(-1, 1), (0, 0), (-2, 0), (1, 3)]
WIDE = (-6, 8)


def sinc(x):
    if not isinstance(x, N):
        return 1.0 if x == 0 else math.sin(PI * x) / (PI * x)
    z = S.eq(x, 0.0)
    y = S.ite(z, 1.0, x)
    return S.ite(z, 1.0, S.sin(PI * y) / (PI * y))


@harness([dict(size=z[:7], per=p, lags=l) for (z, l), p in zip(((z, LAGS[k % 4]) for k, z in enumerate(QUICK + QUICK)), ['link', 'antenna'] * 10)] + [dict(size=(1, 1, 1, 1, 1, 2, 1), per='link', lags=WIDE)],
         [dict(size=z[:7], per=p, lags=l) for z in MORE for p in ('link', 'antenna') for l in LAGS])
def taps(env, size, per, lags):
    size = tuple(size)
    b, r, ra, x, xa, p, nt = size
    l0, l1 = lags
    a, d, W = cplx(env, 'a', size), delays(env, size, per, 1e-5), env.real('W', 1e3, 1e8)
    H = env.mod('OpenNTN.utils').cir_to_time_channel(W, env.t(a, 'c'), env.t(d), l0, l1)
    env.shape('taps', H, (b, r, ra, x, xa, nt, l1 - l0 + 1))
    H = env.arr(H)
    for i in np.ndindex(*H.shape):
        w = CX(0.0, 0.0) if env.sym else 0j
        for k in range(p):
            w = w + a[i[:5] + (k, i[5])] * sinc(float(l0 + i[6]) - W * tau(d, i[:5] + (k,)))
        env.close(f'tap {i}', H[i], w, tol=1e-6)


@harness([dict(size=z[:7], per=p, zero=e, lags=l) for z, p, e, l in zip(NORM, ('link', 'antenna', 'link', 'link', 'antenna') + ('link',) * 5, ((), ((1,),), ((0, 0, 0, 1),), (), ()) + ((),) * 5, ((0, 1), (-1, 0), (1, 1), (-1, 1), (0, 0)) + ((0, 0),) * 4 + ((0, 2),))],
         [dict(size=z[:7], per=p, zero=e, lags=l) for z in NORM for p in ('link', 'antenna') for e in ((), ((0, 0, None, 0),)) for l in ((0, 1), (-1, 1))])
def normalization(env, size, per, zero, lags):
    size = tuple(size)
    a, d, W = cplx(env, 'a', size, zero), delays(env, size, per, 1e-5), env.real('W', 1e3, 1e8)
    F = env.mod('OpenNTN.utils').cir_to_time_channel
    args = W, env.t(a, 'c'), env.t(d), lags[0], lags[1]
    P = env.arr(F(*args))
    H = F(*args, normalize=True)
    env.shape('normalized taps', H, P.shape)
    # total tap energy, mean over antennas and time
    normalized(env, P, env.arr(H), (2, 4, 5), (0, 1, 3), 'link')
