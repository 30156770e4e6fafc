"""When large-scale and small-scale parameters are redrawn; call forms."""
from .chan import *

HARNESSES, harness = registry()
BOUNDS = ('histories of up to two topology updates (complete, single argument, nothing) and up to three calls, both settings, both directions; one symbolic Gaussian level per operation (all Gaussian draws of an operation shift with it), all velocities; 1-2 examples, 1-2 satellites, 1-3 users; '
          'call forms: all sampling frequencies, 1-3 samples')
ASSUMPTIONS = ['uniform draws and the order of the random keys are fixed distinct numbers in each operation (their distribution is decided in P08, P10 and P14)']


@contextlib.contextmanager
def snapped(env, log):
    """rays as they are when drawn (the model transposes them in place in uplink)"""
    mod, name = STAGES['rays']
    orig = getattr(env.mod(mod), name).__dict__['__call__']

    def f(self, *a, **kw):
        r = orig(self, *a, **kw)
        log.append((a[0] if a else list(kw.values())[0], {n: env.arr(getattr(r, n)) for n in RAYS}))
        return r
    with patched(env, rays=f):
        yield


def level(env, E, k):
    """draws of the k-th operation of the history: Gaussian ones move with the variable e<k>"""
    def f(kind, lo, hi, isint, name):
        j = int(name.rsplit('_', 1)[1])
        x = (j * 0.6180339887 + 0.137 * k + 0.05) % 1.0
        if kind == 'normal':
            return E[k] + x
        return int(lo) + int(x * (int(hi) - int(lo) + 1)) if isint else lo + (0.05 + 0.9 * x) * (hi - lo)
    return f


def make(env, scen, direction, always):
    return model(env, scen, 2e9, direction, 40.0, always_generate_lsp=always, enable_pathloss=False)


def stub(env, seen, nb, up, ns, nu):
    def coefs(self, num_time_samples, sampling_frequency, k_factor, rays, topology, c_ds=None, debug=False):
        seen.append((num_time_samples, sampling_frequency, k_factor, rays, topology, c_ds))
        a, b = (nu, ns) if up else (ns, nu)
        n = int(num_time_samples)
        return env.tf.ones([nb, a, b, 2, 1, 1, n], env.tf.complex128), env.tf.zeros([nb, a, b, 2], env.tf.float64)
    return coefs


def versions(env, k, size):
    nb, ns, nu = size
    t = topo(env, nb, nu, ns, symbolic=('vel',), tag=f'v{k}', h=600e3 + 1e5 * k)
    rng = np.random.default_rng(20 + k)
    t['ut_loc'] = env.t(np.concatenate([rng.uniform(1e5, 3e5, (nb, nu, 2)), np.full((nb, nu, 1), 1.5)], axis=-1).astype(object))
    t['los'] = True
    return t


ONE = {'U': ('ut_loc',), 'B': ('bs_loc',), 'V': ('ut_velocities',), 'I': ('los',), 'D': ('in_state',), 'O': ('ut_orientations',), 'Q': ('bs_orientations',)}


def play(env, scen, direction, always, history, size):
    nb, ns, nu = size
    up = direction == 'uplink'
    m = make(env, scen, direction, always)
    seen, log = [], []
    topo_k, lsp_k, now = None, None, {}
    E = [env.real(f'e{k}', -2.0, 2.0) for k in range(len(history))]
    ref = {}

    def reference(top, lk, ck):
        """large-scale parameters drawn at lk and rays drawn at ck under the topology"""
        key = (tuple(sorted((n, id(v)) for n, v in top.items())), lk)
        if key not in ref:
            r = make(env, scen, direction, True)
            with env.forced(const_draws()):
                r.set_topology(**top)
            g = []
            with patched(env, coefs=stub(env, [], nb, up, ns, nu)), watched(env, g, 'lsp'), env.forced(level(env, E, lk)):
                r(1, 1e6)
            ref[key] = (r, g[0][3], {n: env.arr(getattr(g[0][3], n)) for n in LSP_NAMES}, {})
        r, L, v, rays = ref[key]
        if ck not in rays:
            g = []
            with patched(env, lsp=lambda self: L, coefs=stub(env, [], nb, up, ns, nu)), snapped(env, g), env.forced(level(env, E, ck)):
                r(1, 1e6)
            rays[ck] = g[0][1]
        return v, rays[ck]

    for k, op in enumerate(history):
        at = f'{history[:k]}[{op}]{history[k + 1:]}'
        if op == 'C':
            g = []
            del seen[:]
            with patched(env, coefs=stub(env, seen, nb, up, ns, nu)), snapped(env, g), env.forced(level(env, E, k)):
                H, _ = m(1, 1e6)
            lk = k if always else lsp_k
            v, rays = reference(now, lk, k)
            env.holds(f'{at}: rays drawn once', len(g) == 1 and len(seen) == 1)
            L = g[0][0]
            for n in LSP_NAMES:
                env.close(f'{at}: {n} of the rays', getattr(L, n), v[n], tol=1e-6)
            env.close(f'{at}: K factor', seen[0][2], given(direction, v['k_factor']), tol=1e-6)
            H = env.arr(H)
            for b, r, _, x, _, _, _ in np.ndindex(*H.shape):
                s, u = (r, x) if up else (x, r)
                env.close(f'{at}: shadow fading {b, s, u}', H[b, r, 0, x, 0, 0, 0], S.sqrt(v['sf'][b, s, u]), tol=1e-6)
            for n in RAYS:
                # the model hands the (in uplink transposed) rays on
                sw = {'aoa': 'aod', 'aod': 'aoa', 'zoa': 'zod', 'zod': 'zoa'}.get(n, n) if up else n
                got = env.arr(getattr(seen[0][3], n))
                env.close(f'{at}: {n}', got * (1e6 if n == 'delays' else 1.0), given(direction, rays[sw]) * (1e6 if n == 'delays' else 1.0), tol=1e-6)
        else:
            new = versions(env, k, size)
            args = new if op == 'S' else {n: new[n] for n in ONE[op]} if op in ONE else {}
            with env.forced(level(env, E, k)):
                m.set_topology(**args)
            now = dict(now, **args)
            if set(args) - {"ut_velocities", "ut_orientations", "bs_orientations"}:
                lsp_k = k


HIST = [('SC', False), ('SCC', False), ('SCUC', False), ('SNC', False), ('SCNC', False), ('SCSC', False), ('SCBCC', False), ('SC', True), ('SCC', True), ('SCUC', True), ('SUNCC', True), ('SUC', False), ('SVC', False), ('SCVCC', False), ('SCDC', False), ('SCOC', False), ('SCQC', False), ('SCIC', False), ('SCVDC', False)]


@harness([dict(scen=('dur', 'urb', 'sur')[k % 3], direction=('downlink', 'uplink')[k % 2], always=a, history=h, size=((1, 1, 1), (1, 1, 2))[(k // 2) % 2]) for k, (h, a) in enumerate(HIST)] + [dict(scen=s, direction=d, always=a, history=h, size=z) for s, d, a, h, z in (('dur', 'uplink', False, 'SCNC', (2, 1, 1)), ('urb', 'downlink', False, 'SCC', (1, 2, 2)), ('sur', 'downlink', True, 'SCUC', (1, 1, 3)))],
         [dict(scen=s, direction=d, always=a, history=h, size=(1, 1, 2)) for s, d in (('dur', 'downlink'), ('urb', 'uplink'), ('sur', 'uplink')) for h in ('SC', 'SCC', 'SCUC', 'SNC', 'SCNC', 'SCSC', 'SCBCC', 'SUNCC', 'SVCCC', 'SCUCC', 'SNCUC', 'SCVCUC') for a in (False, True)], budget=300, perm='fork')
def redraws(env, scen, direction, always, history, size):
    play(env, scen, direction, always, history, tuple(size))


@harness([dict(direction='downlink', n=1), dict(direction='uplink', n=3)])
def call_forms(env, direction, n):
    m = make(env, 'dur', direction, False)
    up = direction == 'uplink'
    with env.forced(const_draws()):
        m.set_topology(**versions(env, 0, (1, 1, 2)))
    fs = env.real('fs', 1e3, 1e8)
    E = [0.0, env.real('e1', -2.0, 2.0)]
    for args in ((n, fs), (7, n, fs), (n, fs)):
        seen = []
        with patched(env, coefs=stub(env, seen, 1, up, 1, 2)), env.forced(level(env, E, 1)):
            H, d = m(*args)
        env.shape(f'coefficients of call {args[0], len(args)}', H, (1, 1, 1, 2, 1, 2, n) if up else (1, 2, 1, 1, 1, 2, n))
        env.holds('samples', int(seen[0][0]) == n)
        env.close('sampling frequency', seen[0][1], fs, tol=1e-9)
    seen = []
    with patched(env, coefs=stub(env, seen, 1, up, 1, 2)), env.forced(level(env, E, 1)):
        m(num_time_samples=n, sampling_frequency=fs)
    env.holds('samples by keyword', int(seen[0][0]) == n)
    env.close('sampling frequency by keyword', seen[0][1], fs, tol=1e-9)


@harness([dict(n=1), dict(n=4)])
def sample_times(env, n):
    """sample k of a call is taken at k divided by the sampling frequency"""
    fs = env.real('fs', 1e3, 1e8)
    a, _ = make_end(env, 'V', 2e9)
    gen = env.mod('OpenNTN.channel_coefficients').ChannelCoefficientsGenerator(2e9, a, a, False, precision=env.precision)
    s = Setup(env, 'V', 'V', (1, 1, 1, 1, 1), 'rx', 2e9, orient=False, angles=False, vel=False)
    with env.forced(const_draws()):
        K = env.t(np.full((1, 1, 1), 2.0).astype(object))
        h, d, phi, t = gen(n, fs, K, s.rays, s.topology, None, True)
    env.shape('times', t, (n,))
    for k, x in enumerate(env.arr(t)):
        env.close(f'time {k}', x * fs, float(k), tol=1e-9)
    env.shape('coefficients', h, (1, 1, 1, 1, 1, 1, n))
