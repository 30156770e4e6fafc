"""Path loss."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = ('carrier symbolic over a band, elevation symbolic over a table column (10 degrees wide) and satellite heights symbolic over [600 km, 36000 km]; all nine columns x 3 scenarios x 2 bands, both directions; '
          '1-2 batch examples x 1-2 satellites x 2 users (also 3 users, 3 examples, 3 satellites) with LoS, NLoS and indoor states in every position; all shadowing draws (affine in the draws, coefficients extracted by running the code with unit draws)')
ASSUMPTIONS = ['the table of expected values is data/tables.json', 'draw sources are standard normal/uniform as requested from TensorFlow']
STATES = [[[['L', 'N']]], [[['I', 'L'], ['N', 'L']], [['L', 'N'], ['I', 'N']]], [[['L', 'N', 'I']]], [[['N']], [['L']], [['N']]], [[['N'], ['L'], ['N']]]]
CASES = [dict(scen=s, band=b, direction=('uplink', 'downlink')[(i + j + k) % 2], angle=a, pat=(i + j + k) % 2)
         for i, s in enumerate(SCEN) for j, b in enumerate(['S', 'Ka']) for k, a in enumerate(ANGLES)] + [dict(scen=s, band=b, direction=d, angle=a, pat=p) for s, b, d, a, p in (('dur', 'S', 'uplink', 30, 2), ('urb', 'Ka', 'downlink', 60, 3), ('sur', 'S', 'downlink', 80, 4))]
ALL = product(scen=list(SCEN), band=['S', 'Ka'], direction=['uplink', 'downlink'], angle=ANGLES, pat=[0, 1, 2, 3, 4])


def forced_states(states, normal):
    """uniform draws realise the states (draw order of the LoS sampling), Gaussian draws are normal(i), i = running number"""
    flat = [0.0 if x == 'L' else 1.0 - 1e-9 for x in np.array(states, dtype=object).reshape(-1)]
    cnt = {'n': 0}

    def f(kind, lo, hi, isint, name):
        if kind == 'normal':
            cnt['n'] += 1
            return normal(cnt['n'] - 1)
        j = int(name.rsplit('_', 1)[1])
        return flat[j] if j < len(flat) else 0.5
    f.count = lambda: cnt['n']
    return f


def inputs(env, band, angle):
    fc = env.real('fc', *((1.9e9, 4e9) if band == 'S' else (19e9, 40e9)))
    el = env.real('elev', max(10.0, angle - 5 + 1e-6), min(90.0, angle + 5 - 1e-6))
    return fc, el


def slant(h, el):
    s = S.sin(el * (PI / 180)) * R_E
    return S.sqrt(s * s + h * h + 2 * h * R_E) - s


@harness(CASES, ALL)
def basic(env, scen, band, direction, angle, pat):
    states = np.array(STATES[pat], dtype=object)
    nb, ns, nu = states.shape
    fc, el = inputs(env, band, angle)
    t = topo(env, nb, nu, ns, symbolic=('h',))
    h = env.arr(t['bs_loc'])[:, :, 2]
    t['in_state'] = env.t(np.array([[states[b, 0, u] == 'I' for u in range(nu)] for b in range(nb)], dtype=object), 'b')
    s = scenario(env, scen, fc, direction, el)

    def run(normal):
        f = forced_states(states, normal)
        with env.forced(f):
            s.set_topology(**t)
        return env.arr(s.basic_pathloss), f.count()
    zero, n = run(lambda i: 0.0)
    env.holds('one loss per link', zero.shape == (nb, ns, nu))
    fcode = 1e9 * 2 if band == 'S' else 2e10
    g = lambda los, name: param(scen, los, fcode, direction, name, angle)
    for i in np.ndindex(nb, ns, nu):
        L = states[i] == 'L'
        want = 32.45 + 20 * S.log10(fc / 1e9) + 20 * S.log10(slant(h[i[:2]], el)) + (0.0 if L else g(False, 'CL'))
        env.close(f'mean loss {i}', zero[i], want, tol=1e-6)
    co = []
    for j in range(n):
        a, _ = run(lambda i, j=j: 1.0 if i == j else 0.0)
        co.append([a[i] - zero[i] for i in np.ndindex(nb, ns, nu)])
    for k, i in enumerate(np.ndindex(nb, ns, nu)):
        sf = g(states[i] == 'L', 'sigmaSF')
        env.close(f'shadowing variance {i}', sum((co[j][k] * co[j][k] for j in range(n)), 0.0), sf * sf, tol=1e-6)
    z = [env.real(f'z{j}', -6, 6) for j in range(n)]
    a, _ = run(lambda i: z[i])
    for k, i in enumerate(np.ndindex(nb, ns, nu)):
        env.close(f'loss is linear in the draws {i}', a[i], zero[i] + sum((z[j] * co[j][k] for j in range(n)), 0.0), tol=1e-6)


@harness([dict(scen=s, band=b, direction=d) for s, b, d in (('dur', 'S', 'downlink'), ('urb', 'Ka', 'uplink'), ('sur', 'S', 'uplink'), ('dur', 'Ka', 'downlink'), ('urb', 'S', 'downlink'), ('sur', 'Ka', 'downlink'))] + [dict(scen=s, band=b, direction=d, elev=e, weather=True) for s, b, d, e in (('urb', 'Ka', 'uplink', 10.0), ('dur', 'Ka', 'downlink', 10.5), ('sur', 'S', 'uplink', 11.0))],
         product(scen=list(SCEN), band=['S', 'Ka'], direction=['uplink', 'downlink'], elev=[10.0, 37.0, 90.0], weather=[False, True]))
def total(env, scen, band, direction, elev=37.0, weather=False):
    """the sum handed to the channel, at a fixed carrier and elevation; states, shadowing draws and weather symbolic"""
    fc = 2.3e9 if band == 'S' else 23.5e9
    m = model(env, scen, fc, direction, elev)
    t = topo(env, 2, 2, 2, symbolic=('h',), indoor='sym')
    m.set_topology(**t)
    sc = m._scenario
    if weather:
        sc.set_topology(**{n: env.real(n, lo, hi) for n, (lo, hi) in (('atmospheric_pressure', (900, 1100)), ('water_vapor_density', (1, 30)))}, temperature=310.0, relative_humidity=100.0, diameter_earth_antenna=0.3)
    pl = m._lsp_sampler.sample_pathloss()
    env.shape('loss', pl, (2, 2, 2))
    pl, b = env.arr(pl), env.arr(sc.basic_pathloss)
    gas = np.broadcast_to(env.arr(sc.gas_pathloss), (2, 2, 2))
    sci = np.broadcast_to(env.arr(sc.scintillation_pathloss), (2, 2, 2))
    ent = np.broadcast_to(env.arr(sc.entry_pathloss), (2, 2, 2))
    for i in np.ndindex(2, 2, 2):
        env.close(f'entry loss {i}', ent[i], 0.0)
        env.close(f'total loss {i}', pl[i], b[i] + gas[i] + sci[i])
        env.holds(f'additional losses positive {i}', S.and_(S.lt(0.0, gas[i]), S.lt(0.0, sci[i])))
