"""Panel arrays."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'all element spacings 0.05-5 wavelengths and panel spacings beyond the panel size up to 5 wavelengths more; all carriers 1.9-4 and 19-40 GHz; 1-3 x 1-4 panels of 1-6 x 1-5 elements in the combinations listed in SIZES; the four polarization types'
ASSUMPTIONS = []
TYPES = [('single', 'V'), ('single', 'H'), ('dual', 'VH'), ('dual', 'cross')]
SLANTS = {'V': [0.0], 'H': [PI / 2], 'VH': [0.0, PI / 2], 'cross': [-PI / 4, PI / 4]}
SIZES = [(1, 1, 1, 1), (1, 1, 3, 2), (2, 1, 1, 2), (1, 2, 2, 1), (2, 2, 3, 2), (2, 2, 1, 1), (1, 1, 2, 5), (1, 1, 6, 3), (3, 2, 2, 3), (2, 3, 3, 1), (1, 4, 1, 4)]


def build(env, pr, pc, r, c, pol, t, ev, eh, pv, ph, fc):
    return env.mod().PanelArray(num_rows_per_panel=r, num_cols_per_panel=c, polarization=pol, polarization_type=t, antenna_pattern='omni', carrier_frequency=fc, num_rows=pr, num_cols=pc,
                                panel_vertical_spacing=pv, panel_horizontal_spacing=ph, element_vertical_spacing=ev, element_horizontal_spacing=eh, precision=env.precision)


def ints(env, t):
    return [int(v) for v in np.array(env.arr(t)).reshape(-1)]


@harness([dict(size=z, pol=p, t=t, band=b) for k, z in enumerate(SIZES) for p, t in TYPES for b in (('S', 'Ka')[k % 2],)],
         [dict(size=z, pol=p, t=t, band=b) for z in SIZES + [(1, 1, 2, 2), (2, 2, 2, 2), (1, 3, 2, 1), (3, 1, 1, 4), (4, 1, 4, 4), (3, 3, 3, 3), (1, 1, 8, 8)] for p, t in TYPES for b in ('S', 'Ka')])
def layout(env, size, pol, t, band):
    pr, pc, r, c = size
    fc = env.real('fc', *((1.9e9, 4e9) if band == 'S' else (19e9, 40e9)))
    ev, eh = env.real('ev', 0.05, 5.0), env.real('eh', 0.05, 5.0)
    pv = (r - 1) * ev + env.real('gv', 0.01, 5.0)
    ph = (c - 1) * eh + env.real('gh', 0.01, 5.0)
    a = build(env, pr, pc, r, c, pol, t, ev, eh, pv, ph, fc)
    p = 1 if pol == 'single' else 2
    n = pr * pc * r * c * p
    env.holds('number of elements', ints(env, a.num_ant) == [n] and ints(env, a.num_panels) == [pr * pc] and ints(env, a.num_panels_ant) == [r * c * p])
    env.holds('reported numbers', ints(env, a.num_rows) == [pr] and ints(env, a.num_cols) == [pc] and ints(env, a.num_rows_per_panel) == [r] and ints(env, a.num_cols_per_panel) == [c])
    env.holds('reported polarization', a.polarization == pol and a.polarization_type == t)
    for what, got, want in (('element rows', a.element_vertical_spacing, ev), ('element columns', a.element_horizontal_spacing, eh), ('panel rows', a.panel_vertical_spacing, pv), ('panel columns', a.panel_horizontal_spacing, ph)):
        env.close(f'reported spacing of {what}', got, want, tol=1e-6)
    pos = env.arr(a.ant_pos)
    env.shape('positions', a.ant_pos, (n, 3))
    i1 = ints(env, a.ant_ind_pol1)
    i2 = ints(env, a.ant_ind_pol2) if p == 2 else []
    env.holds('index sets partition the elements', sorted(i1 + i2) == list(range(n)) and len(i1) == n // p)
    for which, idx in enumerate([i1, i2][:p]):
        env.close(f'positions of polarization {which + 1}', a.ant_pos_pol1 if which == 0 else a.ant_pos_pol2, pos[idx], tol=1e-9)
        e = a.ant_pol1 if which == 0 else a.ant_pol2
        f = e.field(env.t(np.array([1.0], dtype=object)), env.t(np.array([0.5], dtype=object)))
        s = SLANTS[t][which]
        env.close(f'slant of polarization {which + 1} (cosine)', env.arr(f[0])[0], math.cos(s), tol=1e-6)
        env.close(f'slant of polarization {which + 1} (sine)', env.arr(f[1])[0], math.sin(s), tol=1e-6)
        # the grid in wavelengths: every grid point is occupied exactly once by this polarization
        lam = SPEED_OF_LIGHT / fc
        used = {}
        grid = {}
        for P in range(pc):
            for Q in range(pr):
                for j in range(c):
                    for i in range(r):
                        grid[P, Q, j, i] = (P * ph + j * eh - ((pc - 1) * ph + (c - 1) * eh) / 2, ((pr - 1) * pv + (r - 1) * ev) / 2 - Q * pv - i * ev)
        # which grid point an element takes is read off the real numbers of one assignment
        sub = {'fc': SPEED_OF_LIGHT, 'ev': 1.0, 'eh': 1.0, 'gv': 100.0, 'gh': 100.0}
        b = build(env, pr, pc, r, c, pol, t, 1.0, 1.0, r - 1 + 2.75, c - 1 + 2.75, SPEED_OF_LIGHT)
        num = {k: (k[0] * (c + 1.75) + k[2] - ((pc - 1) * (c + 1.75) + c - 1) / 2, ((pr - 1) * (r + 1.75) + r - 1) / 2 - k[1] * (r + 1.75) - k[3]) for k in grid}
        q = env.arr(b.ant_pos)
        for k in idx:
            m = [g for g in grid if abs(float(q[k, 1]) - num[g][0]) < 1e-6 and abs(float(q[k, 2]) - num[g][1]) < 1e-6]
            env.holds(f'element {k} sits on the grid', len(m) == 1 and m[0] not in used)
            if len(m) == 1:
                used[m[0]] = k
        env.holds('all grid points are used', len(used) == len(grid))
        for g, k in used.items():
            env.close(f'element {k} in the y-z plane', pos[k, 0], 0.0)
            env.close(f'element {k} y', pos[k, 1] / lam, grid[g][0], tol=1e-6)
            env.close(f'element {k} z', pos[k, 2] / lam, grid[g][1], tol=1e-6)


@harness([dict(kind=k) for k in ('antenna', 'array', 'defaults')])
def shortcuts(env, kind):
    fc = env.real('fc', 1.9e9, 4e9)
    lam = SPEED_OF_LIGHT / fc
    M = env.mod()
    if kind == 'antenna':
        for pol, t in TYPES:
            a = M.Antenna(polarization=pol, polarization_type=t, antenna_pattern='omni', carrier_frequency=fc, precision=env.precision)
            env.holds(f'{t}: one element per polarization', ints(env, a.num_ant) == [len(SLANTS[t])])
            env.close(f'{t}: at the origin', a.ant_pos, np.zeros((len(SLANTS[t]), 3)))
        return
    if kind == 'array':
        ev, eh = env.real('ev', 0.05, 5.0), env.real('eh', 0.05, 5.0)
        a = M.AntennaArray(num_rows=2, num_cols=3, polarization='single', polarization_type='V', antenna_pattern='omni', carrier_frequency=fc, vertical_spacing=ev, horizontal_spacing=eh, precision=env.precision)
    else:
        ev = eh = 0.5
        a = M.AntennaArray(num_rows=2, num_cols=3, polarization='single', polarization_type='V', antenna_pattern='omni', carrier_frequency=fc, precision=env.precision)
    p = np.array([[v / lam for v in row] for row in env.arr(a.ant_pos)], dtype=object)
    env.shape('positions', a.ant_pos, (6, 3))
    ys, zs = [np.array(sorted_values(p[:, k]), dtype=object) for k in (1, 2)]
    env.close('columns', ys, np.array([-eh, -eh, 0 * eh, 0 * eh, eh, eh], dtype=object), tol=1e-6)
    env.close('rows', zs, np.array([-ev / 2] * 3 + [ev / 2] * 3, dtype=object), tol=1e-6)


@harness([{}])
def refused(env):
    M = env.mod()
    for pol, t in (('single', 'VH'), ('single', 'cross'), ('dual', 'V'), ('dual', 'H'), ('triple', 'V')):
        _, exc = env.attempt(lambda: M.Antenna(polarization=pol, polarization_type=t, antenna_pattern='omni', carrier_frequency=2e9, precision=env.precision), AssertionError)
        env.holds(f'{pol} {t} refused', exc is not None)
    # panels must not overlap
    ev, g = env.real('ev', 0.05, 5.0), env.real('g', -0.04, 5.0)
    env.assume(S.or_(S.le(g, -1e-3), S.le(1e-3, g)))
    _, exc = env.attempt(lambda: build(env, 2, 1, 2, 1, 'single', 'V', ev, 0.5, ev + g, 1.0, 2e9), AssertionError)
    env.holds('panels do not overlap', S.le(g, 0.0) if exc is not None else S.le(0.0, g))
