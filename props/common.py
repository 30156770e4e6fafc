"""Shared builders for the harnesses (they run on the symbolic and on the real backend)."""
import math
import itertools
import json
import os

import numpy as np

from engine import sym as S
from engine.sym import N, B, CX

PI = math.pi
SPEED_OF_LIGHT = 299792458.0
R_E = 6371000.0
SCEN = {'dur': 'DenseUrban', 'urb': 'Urban', 'sur': 'SubUrban'}
FILES = {'dur': 'Dense_Urban', 'urb': 'Urban', 'sur': 'Sub_Urban'}


def registry():
    H = {}

    def harness(quick, thorough=None, **opts):
        """quick/thorough: lists of case dicts (or of args dicts)"""
        def deco(fn):
            def norm(cs):
                out = []
                for c in cs:
                    c = dict(c)
                    if 'args' not in c:
                        c = {'args': c}
                    out.append(dict(opts, **c))
                return out
            H[fn.__name__] = {'fn': fn, 'cases': lambda tier: norm(quick if tier == 'quick' or thorough is None else thorough)}
            return fn
        return deco
    return H, harness


def product(**kw):
    ks = list(kw)
    return [dict(zip(ks, vs)) for vs in itertools.product(*kw.values())]


# -------------------------------------------------------------- expected tables
# TR 38.811 tables 6.6.1-1, 6.6.2-1/2/3 and 6.7.2-*, committed copy (data/tables.json)
_T = {}
ANGLES = tuple(range(10, 91, 10))


def table(scen, los, band, direction):
    if not _T:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'tables.json')) as h:
            for f, d in json.load(h).items():
                _T[f] = {a: float(b) for a, b in d.items()}
    return _T[f"{FILES[scen]}_{'LOS' if los else 'NLOS'}_{band}_band_{'UL' if direction == 'uplink' else 'DL'}.json"]


def param(scen, los, fc, direction, name, angle):
    t = table(scen, los, 'S' if fc < 1e10 else 'Ka', direction)
    return t[name if name in ('CPhiNLoS', 'CThetaNLoS') else f'{name}_{angle}']


# -------------------------------------------------------------- builders
def antenna(env, fc=2e9, pol='single', ptype='V', pattern='omni'):
    return env.mod().Antenna(polarization=pol, polarization_type=ptype, antenna_pattern=pattern, carrier_frequency=fc, precision=env.precision)


def array(env, fc=2e9, rows=1, cols=1, pol='single', ptype='V', pattern='omni', **kw):
    return env.mod().PanelArray(num_rows_per_panel=rows, num_cols_per_panel=cols, polarization=pol, polarization_type=ptype,
                                antenna_pattern=pattern, carrier_frequency=fc, precision=env.precision, **kw)


def model(env, scen='dur', fc=2e9, direction='downlink', elev=45.0, ut=None, bs=None, **kw):
    cls = getattr(env.mod(), SCEN[scen])
    return cls(carrier_frequency=fc, ut_array=ut or antenna(env, fc), bs_array=bs or antenna(env, fc), direction=direction,
               elevation_angle=elev, precision=env.precision, **kw)


def scenario(env, scen='dur', fc=2e9, direction='downlink', elev=45.0, ut=None, bs=None, **kw):
    cls = getattr(env.mod(), SCEN[scen] + 'Scenario')
    return cls(carrier_frequency=fc, ut_array=ut or antenna(env, fc), bs_array=bs or antenna(env, fc), direction=direction,
               elevation_angle=elev, precision=env.precision, **kw)


def topo(env, nb=1, nut=1, nbs=1, h=600e3, symbolic=(), indoor=False, tag='', heights=(600e3, 36000e3)):
    """dict of topology tensors; names in ``symbolic`` are solver variables, the rest fixed numbers; heights: range of the symbolic heights, or a list of ranges per example and satellite"""
    rng = np.random.default_rng(7)
    o = lambda *s: np.empty(s, dtype=object)
    ut = o(nb, nut, 3)
    bs = o(nb, nbs, 3)
    uo, bo, v = o(nb, nut, 3), o(nb, nbs, 3), o(nb, nut, 3)
    ins = o(nb, nut)
    for b in range(nb):
        for u in range(nut):
            for k in range(3):
                lim = (-3e6, 3e6) if k < 2 else (0.0, 50.0)
                f = float(rng.uniform(1e5, 4e5)) if k < 2 else 1.5
                ut[b, u, k] = env.real(f'{tag}ut{b}_{u}_{k}', *lim) if 'ut_loc' in symbolic else f
                f = float(rng.uniform(-3, 3))
                uo[b, u, k] = env.real(f'{tag}uo{b}_{u}_{k}', -PI, PI) if 'ut_or' in symbolic else f
                f = float(rng.uniform(-30, 30))
                v[b, u, k] = env.real(f'{tag}v{b}_{u}_{k}', -300.0, 300.0) if 'vel' in symbolic else f
            ins[b, u] = env.bool(f'{tag}in{b}_{u}') if indoor == 'sym' else bool(indoor)
        for s in range(nbs):
            for k in range(3):
                if k == 2:
                    bs[b, s, k] = env.real(f'{tag}h{b}_{s}', *(heights[b][s] if isinstance(heights, list) else heights)) if 'h' in symbolic else float(h if not isinstance(h, (list, tuple)) else h[b])
                else:
                    f = float(rng.uniform(-10, 10))
                    bs[b, s, k] = env.real(f'{tag}bs{b}_{s}_{k}', -3e6, 3e6) if 'bs_loc' in symbolic else f
                f = float(rng.uniform(-3, 3))
                bo[b, s, k] = env.real(f'{tag}bo{b}_{s}_{k}', -PI, PI) if 'bs_or' in symbolic else f
    return dict(ut_loc=env.t(ut), bs_loc=env.t(bs), ut_orientations=env.t(uo), bs_orientations=env.t(bo), ut_velocities=env.t(v), in_state=env.t(ins, 'b'))


def col(x, n=None):
    """object array from nested lists"""
    return np.array(x, dtype=object)


def lemma(env, cond):
    """a fact that follows from obligations of the same harness (no effect in concrete runs)"""
    if env.sym:
        env.assume(cond)


def set_states(env, s, topology, states, **kw):
    """set_topology of scenario/model ``s`` with prescribed link states: states[b][s][u] in 'L','N','I' (LoS, NLoS, indoor user)
    through the public sampling path: the uniform draws are forced to 0 (LoS) or just below 1 (NLoS), Gaussian draws to 0"""
    st = np.array(states, dtype=object)
    B_, S_, U_ = st.shape
    topology = dict(topology)
    topology['in_state'] = env.t(np.array([[bool(st[b, 0, u] == 'I') for u in range(U_)] for b in range(B_)], dtype=object), 'b')
    flat = [0.0 if x == 'L' else 1.0 - 1e-9 for x in st.reshape(-1)]

    def f(kind, lo, hi, isint, name):
        if kind == 'normal':
            return 0.0
        j = int(name.rsplit('_', 1)[1])
        return flat[j] if j < len(flat) else 0.5
    with env.forced(f):
        r = s.set_topology(**topology, **kw)
    sc = getattr(s, '_scenario', s)
    if env.sym:
        los = env.arr(sc.los)
        assert los.shape == st.shape
    return r


def unit_draws(target, value=1.0, kind='normal'):
    """forcing function: all draws of ``kind`` zero, except the target-th one (in order of the name)"""
    cnt = {'n': 0}

    def f(k, lo, hi, isint, name):
        if k != kind:
            return 0.5
        i = cnt['n']
        cnt['n'] += 1
        return value if i == target else 0.0
    return f


LSP_NAMES = ['ds', 'asd', 'asa', 'sf', 'k_factor', 'zsa', 'zsd']
CAPS = [None, 104.0, 104.0, None, None, 52.0, 52.0]


def lsp_array(env, l):
    return np.stack([env.arr(getattr(l, n)) for n in LSP_NAMES], axis=-1)


def lsp_moments(scen, fc, direction, angle, state):
    los = state == 'L'
    g = lambda n: param(scen, los, fc, direction, n, angle)
    return ([g('muDS'), g('muASD'), g('muASA'), 0.0, g('muK') / 10, g('muZSA'), g('muZSD')],
            [g('sigmaDS'), g('sigmaASD'), g('sigmaASA'), g('sigmaSF') / 10, g('sigmaK') / 10, g('sigmaZSA'), g('sigmaZSD')])


def lsp_coefficients(env, sampler, mu, sd, ndraw, shape, eps=1e-2):
    """g[b,s,u,p,j]: response of the p-th standardized log parameter to the j-th Gaussian draw (numbers or expressions)"""
    def run(j):
        with env.forced(unit_draws(j, eps)):
            return lsp_array(env, sampler())
    out = np.zeros(tuple(shape) + (7, ndraw), dtype=object)
    for j in range(ndraw):
        a = run(j)
        for i in np.ndindex(*shape):
            for p in range(7):
                if sd[i][p] == 0 or mu[i][p] == -math.inf or (CAPS[p] and mu[i][p] + eps * sd[i][p] >= math.log10(CAPS[p])):
                    out[i + (p, j)] = None
                    continue
                out[i + (p, j)] = (S.log10(a[i + (p,)]) - mu[i][p]) / (sd[i][p] * eps)
    return out


def keyed(env, tag='z'):
    """forcing function: draws become variables named by their order since now (the same variables for two equal runs)"""
    base = env.F.RNG.k if env.sym else env.k

    def f(kind, lo, hi, isint, name):
        k, j = name[3:].split('_')
        return env.real(f'{tag}{kind[0]}{int(k) - base}_{j}', lo, hi, isint)
    return f


def const_draws(seed=3):
    """forcing function: fixed pseudo-random numbers, depending on the call's own order only"""
    rng = np.random.default_rng(seed)

    def f(kind, lo, hi, isint, name):
        if kind == 'normal':
            return float(rng.normal())
        return int(rng.integers(int(lo), int(hi) + 1)) if isint else float(rng.uniform(lo, hi))
    return f


def sorted_values(vals):
    """ascending order by compare-exchange"""
    v = [S._norm(x) for x in vals]
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            v[j], v[j + 1] = S.minimum(v[j], v[j + 1]), S.maximum(v[j], v[j + 1])
    return v


def tensor_draws(env, since, kind):
    """draw names since position ``since`` of env.drawlog, grouped by drawing operation: list of lists of names"""
    out = {}
    for name, k, lo, hi, isint in env.drawlog[since:]:
        if k == kind:
            out.setdefault(name.split('_')[0], []).append(name)
    return [out[k] for k in sorted(out, key=lambda n: int(n[3:]))]


def draw_value(env, name, kind='normal', lo=-6.0, hi=6.0, isint=False):
    """value/variable of a logged draw"""
    if env.sym:
        return S.var(name, float(lo), float(hi), isint)
    return env.drawn[name]


RAY_CASES = [('dur', 'S', 10), ('dur', 'Ka', 50), ('urb', 'S', 10), ('urb', 'Ka', 30), ('urb', 'S', 80), ('sur', 'S', 10), ('sur', 'Ka', 60), ('sur', 'S', 90)]
ALL_RAY_CASES = [(s, b, a) for s in SCEN for b in ('S', 'Ka') for a in ANGLES]


def ray_setup(env, scen, band, angle, direction, states, **tk):
    """scenario with prescribed states and its ray generator; returns (scenario, generator, tables of every link)"""
    fc = 2e9 if band == 'S' else 2e10
    s = scenario(env, scen, fc, direction, float(angle))
    st = np.array(states, dtype=object)
    nb, ns, nu = st.shape
    t = topo(env, nb, nu, ns, **tk)
    if 'ut_loc' in tk.get('symbolic', ()):
        apart(env, t)
    set_states(env, s, t, states)
    r = env.mod().RaysGenerator(s)
    r.topology_updated_callback()
    g = lambda i, name: param(scen, st[i] == 'L', fc, direction, name, angle)
    return s, r, g


def apart(env, t):
    """no user exactly below a satellite, where azimuths are meaningless (at least 10 m horizontally)"""
    ut, bs = env.arr(t['ut_loc']), env.arr(t['bs_loc'])
    for b in range(ut.shape[0]):
        for a in range(bs.shape[1]):
            for u in range(ut.shape[1]):
                env.assume(S.le(100.0, (ut[b, u, 0] - bs[b, a, 0]) ** 2 + (ut[b, u, 1] - bs[b, a, 1]) ** 2))


def clusters(g, i):
    return int(g(i, 'numClusters'))


def cluster_max(scen, band, direction, angle):
    fc = 2e9 if band == 'S' else 2e10
    return max(int(param(scen, l, fc, direction, 'numClusters', angle)) for l in (True, False))


def permutation_facts(env):
    """argsort of distinct keys is a permutation (cases with perm='matrix': every permutation is a value of the Boolean matrix)"""
    if not env.sym:
        return
    for mat in env.F.PERM['matrices'].values():
        n = len(mat)
        facts = [S.or_(*line) for line in list(mat) + list(zip(*mat))]
        facts += [S.or_(S.not_(line[i]), S.not_(line[j])) for line in list(mat) + list(zip(*mat)) for i in range(n) for j in range(i)]
        env.assume(S.and_(*facts))


def probe(env, fn):
    """the drawing operations of fn(): list of [kind, number of draws, integer?] in order"""
    seen = {}

    def f(kind, lo, hi, isint, name):
        t = seen.setdefault(name.split('_')[0], [kind, 0, isint])
        t[1] += 1
        return neutral(kind, lo, hi, isint)
    with env.forced(f):
        fn()
    return list(seen.values())


def neutral(kind, lo, hi, isint):
    return 0.0 if kind == 'normal' else (1 if isint else 0.5 * (lo + hi))


def forced_tensors(choice, other=None):
    """forcing function: draw j of the t-th drawing operation is choice[t](j); the other operations get neutral values"""
    seen = {}

    def f(kind, lo, hi, isint, name):
        a, j = name.split('_')
        t = seen.setdefault(a, len(seen))
        if t in choice:
            return choice[t](int(j))
        return (other or neutral)(kind, lo, hi, isint)
    return f
