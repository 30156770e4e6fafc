"""Correlations of the large-scale parameters."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'cross-correlation: all 24 tables x 9 elevations, one link; spatial: 2 users at symbolic positions 1 m to 20 km apart (all parameters); mixtures of states for 3 users, 2 satellites and 2 examples at fixed positions, as first topology and after an update'
ASSUMPTIONS = ['correlations are those of the linear map from independent unit-variance draws, extracted by executing the real generator on unit draws', 'users are at least 1 m apart']
EPS = 1e-2
CROSS = {(0, 1): 'corrASDvsDS', (0, 2): 'corrASAvsDS', (2, 3): 'corrASAvsSF', (1, 3): 'corrASDvsSF', (0, 3): 'corrDSvsSF', (1, 2): 'corrASDvsASA', (1, 4): 'corrASDvsK',
         (2, 4): 'corrASAvsK', (0, 4): 'corrDSvsK', (3, 4): 'corrSFvsK', (3, 6): 'corrZSDvsSF', (3, 5): 'corrZSAvsSF', (4, 6): 'corrZSDvsK', (4, 5): 'corrZSAvsK',
         (0, 6): 'corrZSDvsDS', (0, 5): 'corrZSAvsDS', (1, 6): 'corrZSDvsASD', (1, 5): 'corrZSAvsASD', (2, 6): 'corrZSDvsASA', (2, 5): 'corrZSAvsASA', (5, 6): 'corrZSDvsZSA'}
DIST = ['corrDistDS', 'corrDistASD', 'corrDistASA', 'corrDistSF', 'corrDistK', 'corrDistZSA', 'corrDistZSD']


def setup(env, scen, fc, direction, elev, states, tp=None, prior=None):
    B_, S_, U_ = np.array(states).shape
    s = scenario(env, scen, fc, direction, float(elev))
    g = env.mod().LSPGenerator(s)
    if prior:
        t0 = topo(env, nb=B_, nut=U_, nbs=S_)
        t0['ut_loc'] = env.t(env.arr(t0['ut_loc']) * 0.01)
        set_states(env, s, t0, prior)
        g.topology_updated_callback()
        with env.forced(lambda kind, lo, hi, isint, name: neutral(kind, lo, hi, isint)):
            g()
    set_states(env, s, tp or topo(env, nb=B_, nut=U_, nbs=S_), states)
    g.topology_updated_callback()
    mom = {i: lsp_moments(scen, fc, direction, elev, np.array(states)[i]) for i in np.ndindex(B_, S_, U_)}
    mu, sd = {i: m[0] for i, m in mom.items()}, {i: m[1] for i, m in mom.items()}
    n = B_ * S_ * U_ * 7
    return lsp_coefficients(env, g, mu, sd, n, (B_, S_, U_), EPS)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b) if not (isinstance(x, float) and abs(x) < 1e-10) and not (isinstance(y, float) and abs(y) < 1e-10))


@harness(product(scen=list(SCEN), fc=[2e9, 20e9], direction=['downlink', 'uplink'], elev=list(ANGLES), state=['L', 'N', 'I']))
def cross(env, scen, fc, direction, elev, state):
    """one link: unit variances and the tabulated pairwise correlations"""
    C = setup(env, scen, fc, direction, elev, [[[state]]])[0, 0, 0]
    ok = [c[0] is not None for c in C]
    for p in range(7):
        if not ok[p]:
            continue
        env.close(f'variance {p}', dot(C[p], C[p]), 1.0, 1e-6)
        for q in range(p + 1, 7):
            if ok[q]:
                env.close(f'correlation {p},{q}', dot(C[p], C[q]), param(scen, state == 'L', fc, direction, CROSS[p, q], elev), 1e-6)


def pair(env, far):
    """two users, symbolic distance"""
    tp = topo(env, nut=2)
    ut = env.arr(tp['ut_loc']).copy()
    dx, dy = env.real('dx', 1.0, far), env.real('dy', -far, far)
    h = env.real('h1', 0.0, 50.0)
    ut[0, 1] = [ut[0, 0, 0] + dx, ut[0, 0, 1] + dy, h]
    tp['ut_loc'] = env.t(ut)
    return tp, S.sqrt(dx * dx + dy * dy)


@harness(product(scen=list(SCEN), fc=[2e9, 20e9], direction=['downlink', 'uplink'], elev=[10, 50, 80], states=['LL', 'NN', 'II', 'LN', 'NI', 'LI']))
def spatial(env, scen, fc, direction, elev, states):
    """two users: same-parameter correlation over the symbolic distance"""
    tp, d = pair(env, 100.0)
    C = setup(env, scen, fc, direction, elev, [[list(states)]], tp)[0, 0]
    for p in range(7):
        if C[0, p, 0] is None or C[1, p, 0] is None:
            continue
        for u in range(2):
            env.close(f'variance {p} user {u}', dot(C[u, p], C[u, p]), 1.0, 1e-6)
        if states[0] == states[1]:
            D = param(scen, states[0] == 'L', fc, direction, DIST[p], elev)
            env.close(f'correlation over distance {p}', dot(C[0, p], C[1, p]), S.exp(-d / D), 1e-6)
        else:
            for q in range(7):
                if C[1, q, 0] is not None:
                    env.close(f'different states are uncorrelated {p},{q}', dot(C[0, p], C[1, q]), 0.0, 1e-6)


MIX = [dict(scen='dur', fc=2e9, direction='downlink', elev=30, states=[[['L', 'N', 'L']]]), dict(scen='urb', fc=20e9, direction='uplink', elev=60, states=[[['I', 'N', 'N']]]),
       dict(scen='sur', fc=2e9, direction='uplink', elev=40, states=[[['L', 'L'], ['N', 'L']]]), dict(scen='urb', fc=2e9, direction='downlink', elev=20, states=[[['N', 'N']], [['L', 'L']]]),
       dict(scen='dur', fc=20e9, direction='uplink', elev=50, states=[[['N', 'N', 'N'], ['L', 'N', 'L']]])]


OTHER = {'L': 'N', 'N': 'I', 'I': 'L'}
MIX += [dict(m, prior=[[[OTHER[u] if k else 'L' for k, u in enumerate(a)] for a in b] for b in m['states']]) for m in MIX[:4]]


@harness(MIX)
def mixed(env, scen, fc, direction, elev, states, prior=None):
    """several links: full covariance"""
    st = np.array(states)
    B_, S_, U_ = st.shape
    tp = topo(env, nb=B_, nut=U_, nbs=S_)
    ut = env.arr(tp['ut_loc']).copy()
    for b in range(B_):
        for u in range(1, U_):
            ut[b, u] = [ut[b, 0, 0] + 7.0 * u + b, ut[b, 0, 1] - 11.0 * u * u, 1.5]
    tp['ut_loc'] = env.t(ut)
    C = setup(env, scen, fc, direction, elev, states, tp, prior)
    idx = list(np.ndindex(*st.shape))
    for i in idx:
        for j in idx:
            if j < i:
                continue
            same = i[:2] == j[:2] and st[i] == st[j]
            for p in range(7):
                for q in range(7):
                    if C[i + (p, 0)] is None or C[j + (q, 0)] is None:
                        continue
                    r = dot(C[i][p], C[j][q])
                    if not same:
                        env.close(f'{i}{p} and {j}{q} uncorrelated', r, 0.0, 1e-6)
                    elif p == q:
                        b = i[0]
                        d = S.sqrt((ut[b, i[2], 0] - ut[b, j[2], 0]) ** 2 + (ut[b, i[2], 1] - ut[b, j[2], 1]) ** 2)
                        env.close(f'{i}{p} and {j}{q}', r, S.exp(-d / param(scen, st[i] == 'L', fc, direction, DIST[p], elev)), 1e-6)
                    else:
                        lim = abs(param(scen, st[i] == 'L', fc, direction, CROSS[min(p, q), max(p, q)], elev))
                        env.holds(f'{i}{p} and {j}{q} at most as correlated as on one link', S.le(abs(r), lim + 1e-6))
