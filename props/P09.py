"""Partial topology updates."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = ('histories of a complete update followed by up to two partial updates: every single argument, every pair of arguments, every sequence of two single-argument updates, and all-but-one updates, '
          'for the scenario (17 arguments) and for the channel model (7 arguments); all locations, orientations, velocities, indoor states, weather values and draws symbolic; 1-3 examples, 1-2 satellites, 1-3 users, three scenarios, both directions and bands, six elevations; one history with changed sizes')
ASSUMPTIONS = ['both histories see the same random draws in their last recomputation']
MAND = ['ut_loc', 'bs_loc', 'ut_orientations', 'bs_orientations', 'ut_velocities', 'in_state']
WEATHER = {'latitude': (0, 60), 'lwc': (0.0, 1.0), 'rain_rate': (0, 60), 'atmospheric_pressure': (900, 1100), 'temperature': (240, 310), 'water_vapor_density': (1, 20),
           'relative_humidity': (1, 100), 'diameter_earth_antenna': (0.3, 4.0), 'antenna_efficiency': (0.2, 0.9)}
ARGS = MAND + ['los'] + list(WEATHER) + ['doppler_enabled']
CHAN = MAND + ['los']
STATE = ['ut_loc', 'bs_loc', 'ut_orientations', 'bs_orientations', 'ut_velocities', 'indoor', 'los', 'distance_2d', 'distance_3d', 'los_aod', 'los_aoa', 'los_zod', 'los_zoa', 'matrix_ut_distance_2d',
         'lsp_log_mean', 'lsp_log_std', 'basic_pathloss', 'gas_pathloss', 'scintillation_pathloss', 'entry_pathloss', 'h_ut', 'h_bs']


def version(env, k, names, nb=1, nut=2, nbs=1, los=None):
    """k-th set of argument values"""
    t = topo(env, nb, nut, nbs, symbolic=('ut_loc', 'bs_loc', 'h', 'ut_or', 'bs_or', 'vel'), indoor='sym', tag=f'v{k}')
    t['los'] = los if los is not None else [True, False][k % 2]
    for n, (lo, hi) in WEATHER.items():
        t[n] = env.real(f'v{k}{n}', lo, hi)
    t['doppler_enabled'] = k % 2 == 1
    return {n: t[n] for n in names}


def observe(env, s):
    out = {n: env.arr(getattr(s, n)) for n in STATE}
    for n in WEATHER:
        out[n] = env.arr(getattr(s, n))
    out['doppler'] = env.arr(bool(s.doppler_enabled))
    out['K'] = env.arr(s.get_param('muK'))
    return out


def compare(env, label, a, b):
    env.holds(f'{label}: same quantities', set(a) == set(b))
    for n in a:
        env.close(f'{label}: {n}', a[n], b[n], tol=1e-7)


def as_given(env, label, s, last):
    """what was given last is what the scenario reports"""
    for n in MAND + list(WEATHER):
        if n in last:
            env.close(f'{label}: {n} is the one given last', getattr(s, 'indoor' if n == 'in_state' else n), last[n], tol=1e-7)
    if 'doppler_enabled' in last:
        env.holds(f'{label}: Doppler switch', bool(s.doppler_enabled) == last['doppler_enabled'])


VARIANTS = [('dur', 'downlink', 45.0, (1, 2, 1)), ('urb', 'uplink', 25.0, (2, 1, 1)), ('sur', 'uplink', 85.0, (1, 1, 2)), ('urb', 'downlink', 12.0, (1, 3, 1)), ('dur', 'uplink', 65.0, (1, 2, 1)), ('sur', 'downlink', 35.0, (3, 1, 1))]      # sizes: examples, users, satellites


def scen_runs(env, histories, fc, variant):
    scen, direction, elev, size = VARIANTS[variant]
    first_names = [a for a in ARGS]
    for names in histories:
        label = ' / '.join('+'.join(x) if len(x) < 4 else f'{len(x)} arguments' for x in names)
        s = scenario(env, scen, fc, direction, elev)
        last = dict(version(env, 0, first_names, *size))
        with env.forced(keyed(env)):
            s.set_topology(**last)
        for k, sub in enumerate(names):
            v = version(env, k + 1, sub, *size)
            last.update(v)
            with env.forced(keyed(env)):
                s.set_topology(**v)
        s2 = scenario(env, scen, fc, direction, elev)
        with env.forced(keyed(env)):
            s2.set_topology(**last)
        compare(env, label, observe(env, s), observe(env, s2))
        as_given(env, label, s, last)


SINGLE = [[[a]] for a in ARGS]
BUT1 = [[[x for x in ARGS if x != a]] for a in ARGS]
PAIRS = [[[a, b]] for i, a in enumerate(ARGS) for b in ARGS[i + 1:]]
SEQ = [[[a], [b]] for a in ARGS for b in ARGS]
CORE = MAND + ['los', 'temperature', 'doppler_enabled']
QSEQ = [[[a], [b]] for a in CORE for b in CORE]


def chunks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


@harness([dict(histories=c, fc=f, variant=v) for k, c in enumerate(chunks(SINGLE + BUT1 + PAIRS[::5] + QSEQ, 14)) for f, v in [(2e10, 0), (2e9, 1 + k % 5)][:1 + (k % 2 or k < 4)]],
         [dict(histories=c, fc=f, variant=v) for c in chunks(SINGLE + BUT1 + PAIRS + SEQ, 14) for f, v in ((2e9, 0), (2e10, 0), (2e9, 1), (2e10, 2), (2e9, 3), (2e10, 4), (2e9, 5))], budget=500)
def scenario_updates(env, histories, fc, variant):
    scen_runs(env, histories, fc, variant)


@harness([dict(histories=c, direction=d) for d, cs in (('downlink', chunks([[[a]] for a in CHAN] + [[[a, b]] for a in CHAN for b in CHAN if a < b], 8)), ('uplink', chunks([[[a], [b]] for a in CHAN for b in CHAN], 12))) for c in cs],
         [dict(histories=c, direction=d) for d in ('downlink', 'uplink') for c in chunks([[[a]] for a in CHAN] + [[[a, b]] for a in CHAN for b in CHAN if a < b] + [[[a], [b]] for a in CHAN for b in CHAN]
          + [[[a, b], [c]] for a in CHAN for b in CHAN for c in CHAN if a < b], 12)], budget=500)
def model_updates(env, histories, direction):
    """large-scale parameters, cluster mask and correlation factors of the channel model"""
    for names in histories:
        label = ' / '.join('+'.join(x) for x in names)

        def obs(m):
            o = {n: env.arr(getattr(m._lsp, n)) for n in LSP_NAMES}
            o['mask'] = env.arr(m._ray_sampler._cluster_mask)
            for n in ('los', 'ut_velocities', 'ut_orientations', 'bs_orientations', 'los_aod', 'distance_3d', 'basic_pathloss'):
                o[n] = env.arr(getattr(m._scenario, n))
            return o
        v0 = version(env, 0, CHAN)
        m = model(env, 'dur', 2e9, direction)
        with env.forced(keyed(env)):
            m.set_topology(**v0)
        last = dict(v0)
        for k, sub in enumerate(names):
            v = version(env, k + 1, sub)
            last.update(v)
            with env.forced(keyed(env)):
                m.set_topology(**v)
        m2 = model(env, 'dur', 2e9, direction)
        with env.forced(keyed(env)):
            m2.set_topology(**last)
        compare(env, label, obs(m), obs(m2))
        as_given(env, label, m._scenario, last)


@harness([{}])
def incomplete(env):
    """a first update without one of the mandatory arguments is refused, whatever else is given or was given before"""
    for miss in MAND:
        for prior in ([], [a for a in MAND if a != miss][:2]):
            s = scenario(env, 'urb', 2e9, 'uplink', 45.0)
            if prior:
                env.attempt(lambda: s.set_topology(**version(env, 1, prior)), AssertionError)
            v = version(env, 0, [a for a in ARGS if a != miss])
            _, e = env.attempt(lambda: s.set_topology(**v))
            env.holds(f'update without {miss} refused (after {prior})', isinstance(e, AssertionError))
            m = model(env, 'sur', 2e9, 'downlink', 45.0)
            if prior:
                env.attempt(lambda: m.set_topology(**version(env, 1, prior)), AssertionError)
            v = version(env, 0, [a for a in CHAN if a != miss])
            _, e = env.attempt(lambda: m.set_topology(**v))
            env.holds(f'model update without {miss} refused (after {prior})', isinstance(e, AssertionError))


@harness([dict(direction='downlink'), dict(direction='uplink')])
def resize(env, direction):
    """a complete update with other sizes"""
    s = scenario(env, 'sur', 2e9, direction, 30.0)
    with env.forced(keyed(env)):
        s.set_topology(**version(env, 0, CHAN, 1, 2, 1))
    v = version(env, 1, MAND, 2, 1, 2)
    with env.forced(keyed(env)):
        s.set_topology(**v)
    s2 = scenario(env, 'sur', 2e9, direction, 30.0)
    with env.forced(keyed(env)):
        s2.set_topology(**dict(v, los=True))
    compare(env, 'resized', observe(env, s), observe(env, s2))
    as_given(env, 'resized', s, v)
