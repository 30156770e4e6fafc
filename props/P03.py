"""Large-scale parameters: log-normal law and caps."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'all 7 parameters of up to 2x1x2 links (also 3 users, 2 satellites, 3 examples), every Gaussian draw symbolic in [-6,6]; scenarios x bands x directions x 9 elevations; LoS, NLoS and indoor users; fixed user positions'
ASSUMPTIONS = ['a parameter whose tabulated median exceeds its cap is only checked to stay capped', 'the Gaussian per parameter is the linear response of the log parameter to the draws; its unit variance is checked here, its correlations in P04']


def setup(env, scen, fc, direction, elev, states):
    B_, S_, U_ = np.array(states).shape
    s = scenario(env, scen, fc, direction, float(elev))
    set_states(env, s, topo(env, nb=B_, nut=U_, nbs=S_), states)
    g = env.mod().LSPGenerator(s)
    g.topology_updated_callback()
    mom = {i: lsp_moments(scen, fc, direction, elev, np.array(states)[i]) for i in np.ndindex(B_, S_, U_)}
    return s, g, {i: m[0] for i, m in mom.items()}, {i: m[1] for i, m in mom.items()}, (B_, S_, U_)


def body(env, scen, fc, direction, elev, states):
    s, g, mu, sd, shape = setup(env, scen, fc, direction, elev, states)
    n = int(np.prod(shape)) * 7
    C = lsp_coefficients(env, g, mu, sd, n, shape)
    k0 = len(env.drawlog)
    out = g()
    for nm in LSP_NAMES:
        env.shape(nm, getattr(out, nm), shape)
    draws = [d for d in env.drawlog[k0:]]
    env.holds('one Gaussian per link and parameter', len(draws) == n and all(d[1] == 'normal' for d in draws))
    if len(draws) != n:
        return
    z = [env.real(d[0], -6.0, 6.0) if env.sym else env.model.get(d[0]) for d in draws]
    a = lsp_array(env, out)
    for i in np.ndindex(*shape):
        for p in range(7):
            got = a[i + (p,)]
            if CAPS[p]:
                env.holds(f'{LSP_NAMES[p]}{list(i)} at most its cap', S.le(got, CAPS[p] * (1 + 1e-6)))
            if mu[i][p] == -math.inf:
                env.close(f'{LSP_NAMES[p]}{list(i)} vanishes', got, 0.0)
                continue
            c = C[i + (p,)]
            if sd[i][p] == 0:
                env.close(f'{LSP_NAMES[p]}{list(i)} constant', S.log10(got), min(mu[i][p], math.log10(CAPS[p]) if CAPS[p] else math.inf))
                continue
            if c[0] is None:
                continue
            env.close(f'{LSP_NAMES[p]}{list(i)} unit variance', sum(x * x for x in c), 1.0, 1e-6)
            if any(v is None for v in z):
                continue
            w = mu[i][p] + sd[i][p] * sum(x * y for x, y in zip(c, z) if not (isinstance(x, float) and abs(x) < 1e-9))
            if CAPS[p]:
                w = S.minimum(w, math.log10(CAPS[p]))
            env.close(f'{LSP_NAMES[p]}{list(i)} log-normal', S.log10(got), w, 1e-6)


Q = product(scen=list(SCEN), fc=[2e9, 20e9], direction=['downlink', 'uplink'], elev=[10, 50, 90], states=[[[['L', 'N']]], [[['I']]]])
TH = product(scen=list(SCEN), fc=[2e9, 20e9], direction=['downlink', 'uplink'], elev=list(ANGLES), states=[[[['L', 'N']]], [[['I', 'L']], [['N', 'N']]]])


@harness(TH)
def lognormal(env, **kw):
    body(env, **kw)


@harness([dict(scen='urb', fc=2e9, direction='downlink', elev=30, states=[[['N', 'N']], [['L', 'L']]]),
          dict(scen='dur', fc=20e9, direction='uplink', elev=70, states=[[['L', 'L'], ['N', 'L']]]),
          dict(scen='sur', fc=2e9, direction='uplink', elev=20, states=[[['N', 'L', 'N']]]), dict(scen='dur', fc=2e9, direction='downlink', elev=40, states=[[['N']], [['L']], [['N']]])])
def larger(env, **kw):
    body(env, **kw)
