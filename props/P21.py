"""LoS coefficient and its combination with the scattered taps."""
from .coef import *
from .P20 import distinct, order

HARNESSES, harness = registry()
BOUNDS = ('all K-factors -30..60 dB, link states, LoS directions, distances 100-50000 km, carriers 1.9-4 and 19-40 GHz, orientations, velocities up to 300 m/s per axis, times up to 1 s; ray angles, phases, powers, delays in every order; 1-2 examples, 1-2 transmitters, 1-2 receivers, 2-3 clusters of 1-2 rays, '
          'single, dual and cross polarized arrays with up to 4 elements; with sub-clustering 2 clusters of 20 rays')
ASSUMPTIONS = ['satellites below 600 km (Faraday rotation and satellite Doppler are decided in P22 and P23)', 'LoS direction not exactly along the zenith of the rotated array']


@harness([dict(rx='V', tx='V', sizes=(2, 2, 2, 1, 1), moving='rx'), dict(rx='VH', tx='V', sizes=(1, 1, 2, 1, 1), moving='tx', fc='Ka'), dict(rx='X2', tx='H2', sizes=(1, 1, 1, 1, 1), moving='rx'), dict(rx='VH', tx='X2', sizes=(1, 2, 1, 1, 1), moving='tx'),
          dict(rx='P', tx='V', sizes=(1, 1, 2, 1, 1), moving='rx', orient=False), dict(rx='VH', tx='PX', sizes=(1, 2, 1, 1, 1), moving='tx', orient=False)],
         [dict(rx=r, tx=t, sizes=z, moving=m, fc=f) for r, t in itertools.product(('V', 'VH', 'X2', 'H2'), repeat=2) for z in ((2, 1, 2, 1, 1), (1, 2, 2, 1, 1)) for m, f in (('rx', 'S'), ('tx', 'Ka'))], budget=400)
def coefficient(env, rx, tx, sizes, moving, fc='S', orient=True):
    """the LoS coefficient itself"""
    sizes = tuple(sizes)
    s = Setup(env, rx, tx, sizes, moving, fc, orient=orient)
    tt = env.reals('t', 2, 0.0, 1.0)
    h = s.gen._step_11_los(s.topology, env.t(tt), s.fc)
    env.shape('coefficients', h, sizes[:3] + (1, s.rx.n, s.tx.n, 2))
    h = env.arr(h)
    for b, a, u, _, i, j, k in np.ndindex(*h.shape):
        env.close(f'link {b, a, u} elements {i, j} time {k}', h[b, a, u, 0, i, j, k], s.losc(env, b, a, u, i, j, tt[k]), tol=1e-6)


def combine(env, s, K, tt, sub=False, c=None):
    def run(state):
        s.topology.los = env.t(state, 'b')
        h, d = s.gen._step_11(env.t(s.phi), s.topology, env.t(K), s.rays, env.t(tt), env.t(c) if c is not None else None, s.fc)
        return env.arr(h), env.arr(d)
    off = np.empty(s.sizes[:3], dtype=object)
    off[...] = False
    h0, d0 = run(off)
    h1, d1 = run(s.los)
    los = env.arr(s.gen._step_11_los(s.topology, env.t(tt), s.fc))
    for i in np.ndindex(*s.sizes[:3]):
        a, n = S.sqrt(K[i] / (K[i] + 1)), S.sqrt(1 / (K[i] + 1))
        for k in range(h0.shape[3]):
            env.close(f'delay {k} of link {i}', d1[i + (k,)], d0[i + (k,)])
            for e in np.ndindex(*h0.shape[4:]):
                sc = h0[i + (k,) + e]
                w = sc * n
                if k == 0:
                    w = w + los[i + (0,) + e] * a
                st = s.los[i]
                if isinstance(st, B):
                    w = S.ite(st, S.tocx(w), S.tocx(sc))
                elif not st:
                    w = sc
                env.close(f'tap {k} of link {i} elements {e[:2]} time {e[2]}', h1[i + (k,) + e], w, tol=1e-6)


def kfactors(env, shape):
    K = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        K[i] = env.real('K' + ''.join(f'_{k}' for k in i), 1e-3, 1e6)
    return K


@harness([dict(rx='V', tx='V', sizes=(1, 1, 2, 2, 1), moving='rx'), dict(rx='VH', tx='V', sizes=(2, 1, 1, 1, 2), moving='tx'), dict(rx='V', tx='H2', sizes=(1, 2, 1, 2, 2), moving='tx')],
         [dict(rx=r, tx=t, sizes=z, moving=m) for r, t in (('V', 'V'), ('VH', 'V'), ('V', 'X2')) for z in ((1, 1, 2, 2, 1), (2, 1, 1, 1, 2), (1, 2, 1, 3, 1)) for m in ('rx', 'tx')], budget=400, perm='fork')
def combination(env, rx, tx, sizes, moving):
    sizes = tuple(sizes)
    s = Setup(env, rx, tx, sizes, moving, orient=False)
    combine(env, s, kfactors(env, sizes[:3]), env.reals('t', 1, 0.0, 1.0))


@harness([dict(moving='rx'), dict(moving='tx')], budget=400, perm='fork')
def combination_sub(env, moving):
    """with sub-clusters the LoS joins the first tap only"""
    s = Setup(env, 'V', 'V', (1, 1, 1, 2, 20), moving, orient=False, angles=False, vel=False, subclustering=True, fc=2e9)
    s.delays[0, 0, 0] = [0.0, 1.7] if moving == 'rx' else [2.9, 0.0]
    s.rays.delays = env.t(s.delays)
    c = np.empty((1, 1, 1), dtype=object)
    c[...] = 0.4
    combine(env, s, kfactors(env, (1, 1, 1)), np.array([0.25], dtype=object), True, c)
