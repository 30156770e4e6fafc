"""Time-domain taps to OFDM response."""
from types import SimpleNamespace
from .P27 import cplx, CX, S, N, PI, np, registry, math

HARNESSES, harness = registry()
BOUNDS = 'all taps with parts in [-1,1]; FFT sizes 4-16, prefix lengths 0-5, 1-6 symbols, tap ranges from l_min -6..2 with 1-13 taps, no more taps than subcarriers; leading shapes (1,1,1,1,1) to (2,1,1,2,1), (1,3,1,3,1) and (3,1,3,1,1)'
ASSUMPTIONS = ['the prefix length is the same for all symbols (one number)']


CASES = [dict(fft=f, cp=c, sym=s, lmin=l, taps=t, lead=a) for f, c, s, l, t, a in
         ((4, 1, 2, -1, 3, (1, 1, 1, 1, 1)), (4, 0, 3, 0, 2, (1, 1, 1, 1, 1)), (8, 2, 1, -2, 4, (1, 1, 1, 1, 1)), (6, 3, 2, -3, 4, (1, 1, 1, 1, 1)), (4, 2, 2, 0, 4, (1, 1, 2, 1, 1)), (4, 1, 1, -1, 1, (1, 2, 1, 1, 2)), (5, 2, 2, -2, 3, (1, 1, 1, 1, 1)), (4, 1, 2, -1, 2, (2, 1, 1, 2, 1)), (4, 1, 1, 0, 2, (1, 3, 1, 3, 1)), (7, 1, 1, -4, 6, (1, 1, 1, 1, 1)), (16, 4, 1, -6, 13, (1, 1, 1, 1, 1)), (4, 1, 6, -1, 2, (1, 1, 1, 1, 1)), (4, 5, 2, -1, 2, (1, 1, 1, 1, 1)), (12, 0, 1, 2, 5, (1, 1, 1, 1, 1)), (4, 1, 1, 0, 1, (3, 1, 3, 1, 1)))]


@harness(CASES, CASES + [dict(fft=f, cp=c, sym=s, lmin=l, taps=t, lead=(1, 1, 1, 1, 1)) for f in (4, 5, 8) for c in (0, 1, 3) for s in (1, 2) for l in (-3, -1, 0) for t in (1, 4)])
def response(env, fft, cp, sym, lmin, taps, lead):
    lead = tuple(lead)
    n = sym * (fft + cp)
    # the taps at the first sample after every prefix matter, plus the samples of the channel's tail
    h = cplx(env, 'h', lead + (n + taps - 1, taps))
    rg = SimpleNamespace(fft_size=fft, cyclic_prefix_length=cp, num_time_samples=n, num_ofdm_symbols=sym, ofdm_symbol_length=fft + cp)
    H = env.mod('OpenNTN.utils').time_to_ofdm_channel(env.t(h, 'c'), rg, lmin)
    env.shape('response', H, lead + (sym, fft))
    H = env.arr(H)
    for i in np.ndindex(*lead):
        for s in range(sym):
            g = h[i + (s * (fft + cp) + cp,)]
            for j in range(fft):
                k = j - fft // 2
                w = CX(0.0, 0.0) if env.sym else 0j
                for q in range(taps):
                    a = -2 * PI * k * (lmin + q) / fft
                    w = w + g[q] * (CX(math.cos(a), math.sin(a)) if env.sym else complex(math.cos(a), math.sin(a)))
                env.close(f'{i} symbol {s} subcarrier {k}', H[i + (s, j)], w, tol=1e-6)
