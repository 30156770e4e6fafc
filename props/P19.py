"""NLoS coefficient of every ray."""
from .coef import *

HARNESSES, harness = registry()
BOUNDS = ('all ray angles, cluster powers 0-1, cross-polarization ratios -30..40 dB, initial phases, array orientations, velocities up to 300 m/s per axis, carriers 1.9-4 and 19-40 GHz, sample times up to 1 s; 1-3 examples and receivers, 1-2 transmitters, 1-4 clusters, 1-4 and 20 rays, '
          '1-4 elements per end (single, dual, cross polarized), omni elements with symbolic and 38.901 elements with fixed orientations; both moving ends')
ASSUMPTIONS = ['satellites below 600 km (Faraday rotation and satellite Doppler are decided in P22 and P23)', 'path direction not exactly along the zenith of the rotated array, where the polarization turn is undefined']


def body(env, rx, tx, sizes, moving, fc='S', orient=True, times=2, hi=False):
    sizes = tuple(sizes)
    s = Setup(env, rx, tx, sizes, moving, fc, orient=orient)
    tt = env.reals('t', times, 0.0, 1.0)
    h = s.gen._step_11_nlos(env.t(s.phi), s.topology, s.rays, env.t(tt), s.fc)
    env.shape('coefficients', h, sizes + (s.rx.n, s.tx.n, times))
    h = env.arr(h)
    for b, a, u, c, m in np.ndindex(*sizes):
        ang = [x[b, a, u, c, m] for x in s.ang]
        for i in range(s.rx.n):
            for j in range(s.tx.n):
                w = s.nlos(env, b, a, u, c, m, i, j)
                for k in range(times):
                    want = w * expj(s.doppler_phase(b, a, u, ang, tt[k]))
                    env.close(f'ray {b, a, u, c, m} elements {i, j} time {k}', h[b, a, u, c, m, i, j, k], want, tol=1e-6)


@harness([dict(rx='V', tx='V', sizes=(2, 1, 2, 2, 2), moving='rx'), dict(rx='V', tx='V', sizes=(1, 2, 1, 2, 2), moving='tx', fc='Ka'), dict(rx='V', tx='V', sizes=(1, 2, 2, 1, 2), moving='tx'),
          dict(rx='VH', tx='V', sizes=(1, 1, 2, 2, 1), moving='rx'), dict(rx='V', tx='VH', sizes=(1, 2, 1, 1, 2), moving='tx'), dict(rx='VH', tx='VH', sizes=(1, 1, 1, 1, 1), moving='rx', fc='Ka'),
          dict(rx='X2', tx='H2', sizes=(1, 1, 1, 1, 1), moving='rx'), dict(rx='H2', tx='X2', sizes=(1, 1, 1, 1, 1), moving='tx'), dict(rx='X2', tx='VH', sizes=(1, 1, 1, 1, 1), moving='tx'),
          dict(rx='V', tx='V', sizes=(1, 1, 1, 4, 1), moving='rx'), dict(rx='V', tx='V', sizes=(1, 1, 1, 1, 20), moving='tx', fc='Ka'), dict(rx='V', tx='V', sizes=(3, 1, 3, 1, 1), moving='rx')],
         [dict(rx=r, tx=t, sizes=z, moving=m, fc=f) for r, t in itertools.product(('V', 'VH', 'X2', 'H2'), repeat=2) for z in ((2, 1, 2, 1, 2), (1, 2, 1, 3, 2), (1, 2, 2, 1, 1), (1, 1, 1, 2, 4)) for m, f in (('rx', 'S'), ('tx', 'Ka'))], budget=400)
def coefficient(env, **a):
    body(env, **a)


@harness([dict(rx='P', tx='V', sizes=(1, 1, 2, 1, 1), moving='rx'), dict(rx='V', tx='PX', sizes=(1, 1, 1, 1, 2), moving='tx'), dict(rx='PX', tx='P', sizes=(1, 1, 1, 1, 1), moving='rx')],
         [dict(rx=r, tx=t, sizes=z, moving=m) for r, t in (('P', 'V'), ('V', 'P'), ('PX', 'V'), ('VH', 'PX'), ('PX', 'P')) for z in ((1, 1, 2, 1, 1), (1, 2, 1, 1, 1), (1, 1, 1, 1, 2)) for m in ('rx', 'tx')], budget=400)
def directional(env, **a):
    """directional elements: every end looks at its own local direction"""
    body(env, orient=False, times=1, **a)
