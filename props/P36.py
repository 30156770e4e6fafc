"""Both numeric precisions: every operation is executed in both, with the same inputs and draws.  Data types are part of the encoding
(an operation on two different ones raises, as in TensorFlow); the values are compared as expressions."""
from engine import tfshim
from .chan import *

HARNESSES, harness = registry()
BOUNDS = ('both precisions and the default one; all values of topologies, rays, large-scale parameters, draws, frequencies as in the harnesses of the single stages (smaller sizes: 1-2 examples, 1-2 satellites and users); values compared exactly, rounding not modelled, except that a tensor of a double-precision run that went through single precision (cast from float32 to float64, value not exact there) is reported')
ASSUMPTIONS = ['rounding errors of the two number formats are outside the encoding']
TYPES = {'single': ('float32', 'complex64'), 'double': ('float64', 'complex128')}
FLOATS = ('float16', 'bfloat16', 'float32', 'float64', 'complex64', 'complex128')


def tensors(env, x, name=''):
    """all tensors in a result (nested sequences, dicts), by name"""
    if x is None or isinstance(x, (bool, int, float, str)):
        return {}
    if isinstance(x, dict):
        return {k: v for n, y in x.items() for k, v in tensors(env, y, f'{name} {n}').items()}
    if isinstance(x, (list, tuple)):
        return {k: v for n, y in enumerate(x) for k, v in tensors(env, y, f'{name} {n}').items()}
    return {name: x} if hasattr(x, 'dtype') and hasattr(x.dtype, 'name') else {}


@contextlib.contextmanager
def narrowed(env, log):
    """numbers that reach double precision through single precision and were rounded there"""
    if env.sym:
        tfshim.NARROW = log
        try:
            yield
        finally:
            tfshim.NARROW = None
        return
    cast = env.tf.cast

    def f(x, dtype, *a, **kw):
        y = cast(x, dtype, *a, **kw)
        if not hasattr(x, 'numpy'):
            return y
        if getattr(x.dtype, 'name', '') in ('float32', 'complex64') and y.dtype.name in ('float64', 'complex128'):
            v = np.asarray(x.numpy()).ravel()
            v = np.concatenate([v.real, v.imag]) if v.dtype.kind == 'c' else v
            # a short decimal number other than the one stored, or no short one at all
            log.extend(float(z) for z in v if np.isfinite(z) and float(str(z)) != float(z))
        return y
    env.tf.cast = f
    try:
        yield
    finally:
        env.tf.cast = cast


def both(env, fn, tol=1e-4, values=True, loose=(), bare=()):
    """fn() -> named results; executed in double and in single precision with the same draws"""
    out = {}
    config = env.case.get('config_precision', 'single')
    for p in ('double', 'single'):
        env.precision = p
        log = []
        with env.forced(keyed(env, 'q')), narrowed(env, log):
            out[p] = tensors(env, fn(), '')
        if p == 'double':
            env.holds('nothing in double precision went through single precision', not log)
    env.precision = 'double'
    env.holds('same results', sorted(out['double']) == sorted(out['single']))
    for p in out:
        for n, t in out[p].items():
            if t.dtype.name in FLOATS:
                env.holds(f'{p}:{n} is {t.dtype.name}', t.dtype.name in TYPES[p])
    if not values:
        return out
    for n, t in out['double'].items():
        if n.strip().split(' ')[0] in loose or n not in out['single']:
            continue
        a, b = env.arr(t), env.arr(out['single'][n])
        env.holds(f'shape of{n}', a.shape == b.shape)
        if a.shape != b.shape:
            continue
        # relative to the largest number of the tensor (fixed numbers), so that rounding in a concrete run stays small
        for i in np.ndindex(*a.shape):
            x, y = a[i], b[i]
            if isinstance(x, (bool, np.bool_, B)) or isinstance(y, (bool, np.bool_, B)):
                env.close(f'{n}{list(i)}', x, y)
                continue
            if not isinstance(x, (N, CX)) and not (abs(x) < 1e300):
                env.holds(f'{n}{list(i)} special', str(x) == str(y))
                continue
            env.close(f'{n}{list(i)}', x, y, tol=tol)
    return out


TINY = dict(replay_tol=1e-3)
PUBLIC = ('carrier_frequency', 'lambda_0', 'elevation_angle', 'h_ut', 'h_bs', 'ut_loc', 'bs_loc', 'ut_orientations', 'bs_orientations', 'ut_velocities', 'distance_2d', 'distance_3d', 'los_probability', 'los_aod', 'los_zod', 'los_zoa', 'lsp_log_mean', 'lsp_log_std',
          'zod_offset', 'basic_pathloss', 'gas_pathloss', 'scintillation_pathloss', 'entry_pathloss', 'free_space_pathloss', 'min_2d_in', 'max_2d_in', 'matrix_ut_distance_2d', 'distance_2d_in', 'distance_2d_out',
          'distance_3d_in', 'distance_3d_out', 'latitude', 'lwc', 'rain_rate', 'atmospheric_pressure', 'temperature', 'water_vapor_density', 'relative_humidity', 'diameter_earth_antenna', 'antenna_efficiency')


@harness([dict(scen=s, fc=f, direction=d, elev=e, size=z, states=st) for s, f, d, e, z, st in (
    ('dur', 2e9, 'downlink', 12.0, (1, 1, 2), 'LN'), ('urb', 2e10, 'uplink', 45.0, (2, 1, 1), 'LN'), ('sur', 2e9, 'uplink', 83.0, (1, 2, 1), 'NL'), ('dur', 3e10, 'downlink', 30.0, (1, 1, 1), 'I'))],
         product(scen=list(SCEN), fc=[2e9, 2e10], direction=['downlink', 'uplink'], elev=[10.0, 50.0, 90.0], size=[(1, 1, 2), (2, 2, 1)], states=['LN', 'NI']), **TINY)
def scenarios(env, scen, fc, direction, elev, size, states):
    """all quantities of a scenario"""
    nb, ns, nu = size = tuple(size)

    def fn():
        s = scenario(env, scen, fc, direction, elev)
        t = topo(env, nb, nu, ns, symbolic=('ut_loc', 'h'))
        if env.precision == 'double':
            apart(env, t)
        st = np.empty(size, dtype=object)
        for i in np.ndindex(*size):
            st[i] = states[(i[0] + i[2]) % len(states)]
        set_states(env, s, t, st.tolist())
        r = {n: getattr(s, n) for n in PUBLIC}
        r['correlation'] = s.spatial_correlation_matrix(env.t(np.array(50.0, dtype=object)))
        for n in ('cDS', 'muDS', 'sigmaK', 'corrASDvsK', 'rTau', 'numClusters', 'muXPR'):
            r['get_' + n] = s.get_param(n)
        return r
    both(env, fn, loose=('matrix_ut_distance_2d', 'correlation') if nu > 1 else ())


@harness([dict(scen='dur', fc=2e9, direction='downlink', elev=20.0, los=True), dict(scen='urb', fc=2e10, direction='uplink', elev=50.0, los=False), dict(scen='sur', fc=2e9, direction='uplink', elev=90.0, los=None)],
         product(scen=list(SCEN), fc=[2e9, 2e10], direction=['downlink', 'uplink'], elev=[10.0, 60.0], los=[True, False, None]), **TINY)
def large_scale(env, scen, fc, direction, elev, los):
    """large-scale parameters and path loss"""
    def fn():
        s = scenario(env, scen, fc, direction, elev)
        with env.forced(const_draws()):
            s.set_topology(**topo(env, 1, 2, 1), los=los)
        g = env.mod().LSPGenerator(s)
        g.topology_updated_callback()
        with env.forced(keyed(env, 'z')):
            L = g()
        with env.forced(const_draws()):
            p = g.sample_pathloss()
        return {**{n: getattr(L, n) for n in LSP_NAMES}, 'pathloss': p}
    both(env, fn)


@harness([dict(scen=s, band=b, angle=a, direction=d, states=st) for s, b, a, d, st in (('dur', 'S', 10, 'downlink', [[['L', 'N']]]), ('urb', 'Ka', 70, 'uplink', [[['N'], ['L']]]), ('sur', 'S', 80, 'uplink', [[['L']]]))],
         [dict(scen=s, band=b, angle=a, direction=d, states=st) for s, b, a in ALL_RAY_CASES[::2] for d in ('downlink', 'uplink') for st in ([[['L', 'N']]], [[['N'], ['L']]])], perm='fork', **TINY)
def rays(env, scen, band, angle, direction, states):
    """rays of given large-scale parameters"""
    shape = np.array(states, dtype=object).shape
    v, _ = make_lsp(env, shape)
    for i in np.ndindex(*shape):
        v['ds'][i] = v['ds'][i] * 1e-7
        v['k_factor'][i] = v['k_factor'][i] + 0.2

    def fn():
        L = env.mod('OpenNTN.lsp').LSP(**{n: env.t(v[n]) for n in LSP_NAMES})
        s, r, g = ray_setup(env, scen, band, angle, direction, states)
        with env.forced(const_draws()):
            R = r(L)
        return {n: getattr(R, n) * 1e9 if n == 'delays' else getattr(R, n) for n in RAYS}
    both(env, fn, tol=1e-3)


@harness([dict(rx='VH', tx='V', moving='rx', doppler=False, high=False, sub=False, sizes=(1, 1, 1, 2, 1)), dict(rx='PX', tx='V', moving='tx', doppler=True, high=True, sub=False, sizes=(1, 1, 1, 1, 1)),
          dict(rx='V', tx='X2', moving='rx', doppler=True, high=True, sub=False, sizes=(1, 1, 2, 1, 1)), dict(rx='V', tx='V', moving='tx', doppler=False, high=True, sub=True, sizes=(1, 1, 1, 3, 20))],
         [dict(rx=r, tx=t, moving=m, doppler=d, high=h, sub=False, sizes=z) for r, t in (('VH', 'V'), ('V', 'PX'), ('H2', 'X2'), ('P', 'P')) for m in ('rx', 'tx') for d in (False, True) for h in (False, True) for z in ((1, 1, 1, 2, 1), (1, 1, 2, 1, 1))] +
         [dict(rx='V', tx='V', moving=m, doppler=d, high=h, sub=True, sizes=(1, 1, 1, 3, 20)) for m in ('rx', 'tx') for d in (False, True) for h in (False, True)], budget=600, **TINY)
def coefficients(env, rx, tx, moving, doppler, high, sub, sizes):
    """channel coefficients; short distances and low speeds, so that the phases of a concrete single-precision run are meaningful"""
    sizes = tuple(sizes)
    nb, nt, nr, nc, nm = sizes
    heights = (601e3, 36000e3) if high else (100e3, 599e3)

    def fn():
        s = Setup(env, rx, tx, sizes, moving, 2.1e9, heights, doppler=doppler, subclustering=sub, angles=not sub, orient=not sub, vel=False, los=True)
        M = env.mod('OpenNTN.channel_coefficients')
        t = env.t
        if sub:
            s.powers[...] = np.array([0.3, 0.5, 0.2], dtype=object)
            s.delays[...] = np.array([0.0, 0.1, 0.3], dtype=object)
        d = sym_array(env, 'near', sizes[:3], 1.0, 20.0)
        with env.forced(const_draws()):
            top = M.Topology(t(s.vel), moving, *[t(y) for y in s.losang], t(s.los, 'b'), t(d), t(s.o_tx), t(s.o_rx), t(s.h), 45.0, doppler)
            R = env.mod('OpenNTN.rays').Rays(t(s.delays), t(s.powers), *[t(y) for y in s.ang], t(s.xpr))
            K = sym_array(env, 'K', sizes[:3], 0.0, 100.0)
            c = sym_array(env, 'c', sizes[:3], 0.5, 20.0)
            # (sampled at 1 GHz: the phase hardly moves)
            h, tau, phi, times = s.gen(2, 1e9, t(K), R, top, t(c * 1e-3), True)
        return dict(h=h, tau=tau, phi=phi, times=times * 1e9)
    both(env, fn, tol=1e-3)


@harness([dict(scen=s, direction=d, fc=f, always=a, arrays=x) for s, d, f, a, x in (('dur', 'downlink', 2e9, False, ('V', 'VH')), ('urb', 'uplink', 2e10, True, ('X2', 'P')), ('sur', 'uplink', 2e9, False, ('PX', 'H2')))],
         product(scen=list(SCEN), direction=['downlink', 'uplink'], fc=[2e9, 2e10], always=[False, True], arrays=[('V', 'VH'), ('PX', 'X2')]), budget=600, perm='fork', **TINY)
def models(env, scen, direction, fc, always, arrays):
    """a whole model: data types, and the delays"""
    def fn():
        ends = [make_end(env, k, fc)[0] for k in arrays]
        m = model(env, scen, fc, direction, 40.0, ut=ends[0], bs=ends[1], always_generate_lsp=always, doppler_enabled=True)
        with env.forced(const_draws()):
            m.set_topology(**topo(env, 1, 2, 1, symbolic=('vel',)))
            h, tau = m(2, 1e6)
        return dict(h=h, tau=tau * 1e9)
    both(env, fn, tol=1e-3, loose=('h',))


@harness([dict(kind=k) for k in ('V', 'H2', 'VH', 'X2', 'P', 'PX')], **TINY)
def arrays(env, kind):
    """element fields and positions"""
    th, ph = env.real('theta', 0.01, PI - 0.01), env.real('phi', -PI, PI)

    def fn():
        a, _ = make_end(env, kind, 2e9)
        r = dict(pos=a.ant_pos, pos1=a.ant_pos_pol1, f1=a.ant_pol1.field(env.t(np.array([th], dtype=object)), env.t(np.array([ph], dtype=object))))
        if a.polarization == 'dual':
            r.update(pos2=a.ant_pos_pol2, f2=a.ant_pol2.field(env.t(np.array([th], dtype=object)), env.t(np.array([ph], dtype=object))))
        return r
    both(env, fn)


@harness([dict(scen='dur', nut=1), dict(scen='sur', nut=2)], product(scen=list(SCEN), nut=[1, 2, 3]), **TINY)
def drops(env, scen, nut):
    """generated topologies"""
    U = env.mod('OpenNTN.utils')
    el = env.real('el', 10.0, 90.0)

    def fn():
        return dict(enumerate(U.gen_single_sector_topology(batch_size=1, num_ut=nut, scenario=scen, elevation_angle=el, bs_height=600e3, precision=env.precision)))
    both(env, fn, values=False)


@harness([{}], **TINY)
def utilities(env):
    U = env.mod('OpenNTN.utils')
    df, T = env.real('df', 1.0, 1e5), env.real('T', 1e-3, 1.0)
    x, p, W = env.reals('x', 2, -1000.0, 1000.0), env.real('p', 0.0, 1.0), env.real('W', 1e3, 1e5)
    re, im, phi = env.real('re', 0.1, 0.6), env.real('im', 0.1, 0.6), env.real('phi', -180.0, 180.0)
    a = sym_array(env, 'ar', (1, 1, 1, 1, 1, 2, 1), -1.0, 1.0)
    z = lambda r, i: CX(r, i) if env.sym else complex(r, i)
    c = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        c[i] = z(a[i], env.real('ai' + '_'.join(map(str, i)), -1.0, 1.0))
    tau = sym_array(env, 'tau', (1, 1, 1, 2), 0.0, 1e-4)
    f = env.reals('f', 2, -1e4, 1e4)

    def fn():
        pr = env.precision
        t, fr = U.time_frequency_vector(4, T, precision=pr)
        l = env.mod('OpenNTN.utils').wrap_angle_0_360(env.t(x))
        return dict(subcarriers=U.subcarrier_frequencies(4, df, precision=pr), t=t, f=fr, rad=U.deg_2_rad(env.t(x)), deg=U.rad_2_deg(env.t(x)), wrap=l,
                    exp=U.exp_corr_mat(env.t(np.array(z(re, im), dtype=object), 'c'), 3, precision=pr), ring=U.one_ring_corr_mat(env.t(np.array(phi, dtype=object)), 3, precision=pr),
                    ofdm=U.cir_to_ofdm_channel(env.t(f), env.t(c, 'c'), env.t(tau)), ofdmn=U.cir_to_ofdm_channel(env.t(f), env.t(c, 'c'), env.t(tau), True),
                    taps=U.cir_to_time_channel(W, env.t(c, 'c'), env.t(tau), -1, 1), tapsn=U.cir_to_time_channel(W, env.t(c, 'c'), env.t(tau), -1, 1, True),
                    bern=U.sample_bernoulli([2], env.t(np.array(p, dtype=object)), precision=pr))
    both(env, fn, tol=1e-3, loose=('bern',))


@harness([dict(direction='downlink'), dict(direction='uplink')], config_precision='double', perm='fork', **TINY)
def default(env, direction):
    """without an explicit precision the configured one is used"""
    M = env.mod()
    env.precision = 'double'
    A = lambda: M.Antenna(polarization='single', polarization_type='V', antenna_pattern='omni', carrier_frequency=2e9)
    m = M.Urban(carrier_frequency=2e9, ut_array=A(), bs_array=A(), direction=direction, elevation_angle=30.0)
    with env.forced(const_draws()):
        m.set_topology(**topo(env, 1, 1, 1, symbolic=('vel',)))
        h, tau = m(1, 1e6)
    env.dtype_is('coefficients', h, 'complex128')
    env.dtype_is('delays', tau, 'float64')
    U = env.mod('OpenNTN.utils')
    for n, t in tensors(env, dict(a=U.subcarrier_frequencies(3, 15e3), b=U.time_frequency_vector(3, 0.1), c=U.gen_single_sector_topology(1, 1, 'urb', elevation_angle=30.0, bs_height=600e3))).items():
        if t.dtype.name in FLOATS:
            env.dtype_is(n, t, 'float64')
