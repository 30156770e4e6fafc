"""Uplink is the transpose of downlink; layout of the outputs."""
from .chan import *

HARNESSES, harness = registry()
BOUNDS = ('all values of rays, large-scale parameters, locations, orientations, velocities, link states, satellite heights 600-36000 km and generator outputs; both directions, all scenarios; 1-2 examples, 1-3 satellites, 1-3 users, arrays of 1-4 elements, 1-2 clusters of 2 rays, 1-3 time samples; '
          'end to end: 1-2 users with 2 clusters of 20 rays in given order of powers and delays')
ASSUMPTIONS = ['end to end: the generator itself is decided in P19-P23, P26; random phases forced to the same numbers in the compared runs']
SIZES = [(2, 1, 3), (1, 2, 2), (2, 2, 1), (1, 1, 3), (1, 3, 2), (1, 2, 3)]


def build(env, scen, direction, size, nc=2, nm=2, fc=2e9, ut='VH', bs='V', sym=('ut_loc', 'h', 'ut_or', 'bs_or', 'vel'), indoor='sym', **kw):
    nb, ns, nu = size
    aut, eut = make_end(env, ut, fc)
    abs_, ebs = make_end(env, bs, fc)
    m = model(env, scen, fc, direction, kw.pop('elev', 35.0), ut=aut, bs=abs_, **kw)
    t = topo(env, nb, nu, ns, symbolic=sym, indoor=indoor)
    lv, lsp = make_lsp(env, (nb, ns, nu))
    return m, t, lv, lsp, eut, ebs


@harness([dict(scen=s, direction=d, size=z, fc=2e10 if s == 'dur' else 2e9) for s, d, z in (('dur', 'downlink', (2, 1, 3)), ('dur', 'uplink', (2, 1, 3)), ('urb', 'uplink', (1, 2, 2)), ('sur', 'downlink', (1, 2, 2)), ('sur', 'uplink', (2, 2, 1)), ('dur', 'uplink', (1, 1, 3)), ('urb', 'downlink', (1, 2, 3)), ('sur', 'uplink', (1, 3, 2)))],
         product(scen=list(SCEN), direction=['downlink', 'uplink'], size=SIZES, fc=[2e9, 2e10]))
def inputs(env, scen, direction, size, fc=2e9):
    """what the coefficient generator is given"""
    size = tuple(size)
    nb, ns, nu = size
    nc, nm = 2, 2
    m, t, lv, lsp, eut, ebs = build(env, scen, direction, size, fc=fc)
    rv, mk = make_rays(env, size, nc, nm)
    seen = []
    up = direction == 'uplink'
    ntx, nrx = (nu, ns) if up else (ns, nu)

    def coefs(self, num_time_samples, sampling_frequency, k_factor, rays, topology, c_ds=None, debug=False):
        seen.append((num_time_samples, sampling_frequency, k_factor, rays, topology, c_ds))
        a, b = (ebs.n, eut.n) if up else (eut.n, ebs.n)
        return env.tf.zeros([nb, ntx, nrx, nc, a, b, num_time_samples], m.cdtype), env.tf.zeros([nb, ntx, nrx, nc], m.rdtype)

    got = []

    def rays_(self, l):
        got.append(l)
        return mk()
    with patched(env, lsp=lambda self: lsp, rays=rays_, coefs=coefs), env.forced(const_draws()):
        m.set_topology(**t)
        fs = env.real('fs', 1e3, 1e8)
        r = m(2, fs)
    env.holds('one call of the ray and coefficient stages', len(got) == 1 and len(seen) == 1)
    n, f, K, rays, T, c = seen[0]
    env.holds('number of samples', int(n) == 2)
    env.close('sampling frequency', f, fs)
    for x in LSP_NAMES:
        env.close(f'rays drawn from {x}', getattr(got[0], x), lv[x], tol=1e-9)
    sc = m._scenario
    g = lambda a: given(direction, env.arr(a))
    env.close('K factor', K, given(direction, lv['k_factor']), tol=1e-9)
    swap = {'aoa': 'aod', 'aod': 'aoa', 'zoa': 'zod', 'zod': 'zoa'} if up else {}
    for x in RAYS:
        env.close(f'rays: {x}', getattr(rays, x), given(direction, rv[swap.get(x, x)]), tol=1e-9)
    d2r = PI / 180
    for x in ('aoa', 'aod', 'zoa', 'zod'):
        env.close(f'LoS {x}', getattr(T, 'los_' + x), g(getattr(sc, 'los_' + swap.get(x, x))) * d2r, tol=1e-9)
    env.close('link states', T.los, g(sc.los))
    env.close('distances', T.distance_3d, g(sc.distance_3d), tol=1e-9)
    env.close('cluster delay spread', env.arr(c) * 1e9, g(sc.get_param('cDS')), tol=1e-9)
    env.close('velocities', T.velocities, t['ut_velocities'], tol=1e-9)
    env.holds('moving end', T.moving_end == ('tx' if up else 'rx'))
    env.close('transmitter orientations', T.tx_orientations, t['ut_orientations' if up else 'bs_orientations'], tol=1e-9)
    env.close('receiver orientations', T.rx_orientations, t['bs_orientations' if up else 'ut_orientations'], tol=1e-9)
    env.close('satellite heights', T.bs_height, env.arr(t['bs_loc'])[..., 2], tol=1e-9)
    env.holds('satellite Doppler', bool(T.doppler_enabled) == bool(sc.doppler_enabled))


@harness([dict(scen=s, direction=d, size=z, n=n) for s, d, z, n in (('dur', 'downlink', (2, 1, 3), 1), ('urb', 'uplink', (2, 1, 3), 2), ('sur', 'uplink', (1, 2, 2), 1), ('sur', 'downlink', (1, 2, 1), 3))],
         product(scen=list(SCEN), direction=['downlink', 'uplink'], size=SIZES, n=[1, 2]))
def layout(env, scen, direction, size, n):
    """where the generator's numbers end up"""
    size = tuple(size)
    nb, ns, nu = size
    up = direction == 'uplink'
    m, t, lv, lsp, eut, ebs = build(env, scen, direction, size, enable_pathloss=False, enable_shadow_fading=False)
    rv, mk = make_rays(env, size, 1, 1)
    ntx, nrx, a, b = (nu, ns, ebs.n, eut.n) if up else (ns, nu, eut.n, ebs.n)
    npath = 2
    h = np.empty((nb, ntx, nrx, npath, a, b, n), dtype=object)
    for i in np.ndindex(*h.shape):
        k = '_'.join(map(str, i))
        h[i] = env.real('hr' + k, -1.0, 1.0) * CX(1.0, 0.0) + CX(0.0, 1.0) * env.real('hi' + k, -1.0, 1.0) if env.sym else complex(env.real('hr' + k, -1.0, 1.0), env.real('hi' + k, -1.0, 1.0))
    d = sym_array(env, 'd', (nb, ntx, nrx, npath), 0.0, 10.0)
    with patched(env, lsp=lambda self: lsp, rays=lambda self, l: mk(), coefs=lambda self, *x, **kw: (env.t(h, 'c'), env.t(d))), env.forced(const_draws()):
        m.set_topology(**t)
        H, D = m(n, 1e6)
    env.shape('coefficients', H, (nb, nrx, a, ntx, b, npath, n))
    env.shape('delays', D, (nb, nrx, ntx, npath))
    H, D = env.arr(H), env.arr(D)
    env.close('coefficients', H, np.transpose(h, (0, 2, 4, 1, 5, 3, 6)), tol=1e-9)
    env.close('delays', D, np.transpose(d, (0, 2, 1, 3)), tol=1e-9)


def draws_by_index(kind, lo, hi, isint, name):
    """the j-th number of every drawing operation is the same"""
    j = int(name.rsplit('_', 1)[1])
    x = (j * 0.6180339887 + 0.1) % 1.0
    if kind == 'normal':
        return 2 * x - 1
    return int(lo) + int(x * (int(hi) - int(lo) + 1)) if isint else lo + x * (hi - lo)


@harness([dict(scen=s, direction=d, size=z, ut=u, bs=b) for s, d, z, u, b in (('dur', 'downlink', (1, 1, 2), 'VH', 'V'), ('urb', 'uplink', (1, 1, 2), 'V', 'VH'), ('sur', 'uplink', (2, 1, 1), 'VH', 'V'), ('sur', 'downlink', (1, 2, 1), 'V', 'H2'))], budget=300)
def end_to_end(env, scen, direction, size, ut, bs):
    """coefficients of the model are those of a generator given the parameters of the pair"""
    size = tuple(size)
    nb, ns, nu = size
    up = direction == 'uplink'
    fc = 2e9
    m, t, lv, lsp, eut, ebs = build(env, scen, direction, size, fc=fc, ut=ut, bs=bs, sym=('vel',), indoor=False, enable_pathloss=False, enable_shadow_fading=False)
    rng = np.random.default_rng(5)
    rv, mk = make_rays(env, size, 2, 20)
    for i in np.ndindex(*size):
        rv['powers'][i] = list(rng.permutation([0.55, 0.3]))
        rv['delays'][i] = [0.0, float(rng.uniform(1e-7, 1e-6))]
        for n in ('aoa', 'aod', 'zoa', 'zod'):
            for k in np.ndindex(2, 20):
                if k[1] != (3 if n[2] == 'a' else 11):
                    rv[n][i + k] = float(rng.uniform(0.1, 3.0))
        for k in np.ndindex(2, 20):
            if k[1] != 7:
                rv['xpr'][i + k] = float(rng.uniform(1.0, 100.0))
    with patched(env, lsp=lambda self: lsp, rays=lambda self, l: mk()):
        with env.forced(draws_by_index):
            m.set_topology(**t)
            H, D = m(2, 1000.0)
    sc = m._scenario
    M = env.mod('OpenNTN.channel_coefficients')
    tx, rx = (sc.ut_array, sc.bs_array) if up else (sc.bs_array, sc.ut_array)
    gen = M.ChannelCoefficientsGenerator(fc, tx, rx, True, precision=env.precision)
    g = lambda a, k='r': env.t(given(direction, env.arr(a)), k)
    swap = {'aoa': 'aod', 'aod': 'aoa', 'zoa': 'zod', 'zod': 'zoa'} if up else {}
    with env.forced(draws_by_index):
        T = M.Topology(t['ut_velocities'], 'tx' if up else 'rx', *[env.t(given(direction, env.arr(getattr(sc, 'los_' + swap.get(x, x)))) * (PI / 180)) for x in ('aoa', 'aod', 'zoa', 'zod')],
                       g(sc.los, 'b'), g(sc.distance_3d), t['ut_orientations' if up else 'bs_orientations'], t['bs_orientations' if up else 'ut_orientations'], env.t(env.arr(t['bs_loc'])[..., 2]), 35.0, bool(sc.doppler_enabled))
        R = env.mod('OpenNTN.rays').Rays(**{x: env.t(given(direction, rv[swap.get(x, x)])) for x in RAYS})
        h, d = gen(2, 1000.0, env.t(given(direction, lv['k_factor'])), R, T, env.t(given(direction, env.arr(sc.get_param('cDS'))) * 1e-9))
    env.close('coefficients', H, np.transpose(env.arr(h), (0, 2, 4, 1, 5, 3, 6)), tol=1e-6)
    env.close('delays', env.arr(D) * 1e6, np.transpose(env.arr(d), (0, 2, 1, 3)) * 1e6, tol=1e-6)
