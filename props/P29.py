"""Time and frequency grids."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'all subcarrier spacings 1 Hz-10 MHz, sample durations 1 ns-1 s, bandwidths 1 kHz-1 GHz and delay spreads 0-1 ms with up to 100 taps (symbolic); every grid size 1-64, sizes 100, 101, 127, 128, 255, 256, 600, 601, 1023-1025, 2048, both precisions'
ASSUMPTIONS = []
SIZES = list(range(1, 65)) + [100, 101, 127, 128, 255, 256, 600, 601, 1023, 1024, 1025, 2048]


def indices(n):
    return range(-(n // 2), n - n // 2)


@harness([dict(sizes=SIZES[k::4]) for k in range(4)])
def subcarriers(env, sizes):
    U = env.mod('OpenNTN.utils')
    df = env.real('df', 1.0, 1e7)
    for n in sizes:
        f = U.subcarrier_frequencies(n, df, precision=env.precision)
        env.shape(f'{n} subcarriers', f, (n,))
        for j, (x, k) in enumerate(zip(env.arr(f), indices(n))):
            env.close(f'subcarrier {j} of {n}', x / df, float(k), tol=1e-9)


@harness([dict(sizes=SIZES[k::4]) for k in range(4)])
def time_frequency(env, sizes):
    U = env.mod('OpenNTN.utils')
    T = env.real('T', 1e-9, 1.0)
    for n in sizes:
        t, f = U.time_frequency_vector(n, T, precision=env.precision)
        env.shape(f'{n} times', t, (n,))
        env.shape(f'{n} frequencies', f, (n,))
        t, f = env.arr(t), env.arr(f)
        for j, k in enumerate(indices(n)):
            env.close(f'time {j} of {n}', t[j] / T, float(k), tol=1e-9)
            env.close(f'frequency {j} of {n}', f[j] * (T * n), float(k), tol=1e-9)


@harness([dict(default=False), dict(default=True)])
def lags(env, default):
    U = env.mod('OpenNTN.utils')
    W = env.real('W', 1e3, 3e7 if default else 1e9)
    if default:
        d = 3e-6
        lo, hi = U.time_lag_discrete_time_channel(W)
    else:
        d = env.real('d', 0.0, 1e-3)
        env.assume(S.le(W * d, 100.0))
        lo, hi = U.time_lag_discrete_time_channel(W, d)
    lo, hi = env.arr(lo)[()], env.arr(hi)[()]
    env.close('first lag', lo, -6, tol=1e-9)
    env.holds('integer lags', S.eq(S.floor(hi), hi) if env.sym else int(hi) == hi)
    n = hi - 6
    env.holds('six lags after the delay spread', S.le(W * d - 1e-9, n))
    env.holds('no more than needed', S.le(n, W * d + 1))
    x = env.real('x', 0.0, 1e-3)
    env.assume(S.le(x, d))
    env.holds('every delay is covered', S.le(W * x, hi - 6 + 1e-9))
