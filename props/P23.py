"""Faraday rotation."""
from .coef import *

HARNESSES, harness = registry()
BOUNDS = 'all satellite heights 100-36000 km, independent for every satellite and example, carriers 1.9-4 and 19-40 GHz, ray and LoS directions, orientations, phases, cross-polarization ratios; 1-2 examples, 1-2 transmitters, 1-2 receivers, 1-2 clusters of 1-2 rays; single, dual and cross polarized arrays'
ASSUMPTIONS = ['path direction not exactly along the zenith of the rotated array', 'satellite Doppler off and users at rest (P22 decides the Doppler phases)']


def setup(env, rx, tx, sizes, moving, fc, orient, heights, angles=True):
    s = Setup(env, rx, tx, tuple(sizes), moving, fc, orient=orient, heights=heights, doppler=False, vel=False, angles=angles)
    s.vel[...] = 0.0
    s.topology.velocities = env.t(s.vel)
    return s


@harness([dict(rx='V', tx='V', sizes=(2, 1, 2, 1, 1), moving='rx', fc='S'), dict(rx='V', tx='V', sizes=(1, 2, 1, 1, 1), moving='rx', fc='S'), dict(rx='V', tx='V', sizes=(2, 1, 1, 1, 1), moving='tx', fc='Ka'), dict(rx='V', tx='V', sizes=(1, 1, 2, 1, 1), moving='tx', fc='S'), dict(rx='V', tx='V', sizes=(1, 2, 1, 2, 2), moving='tx', fc='Ka'), dict(rx='VH', tx='V', sizes=(1, 1, 2, 1, 1), moving='rx', fc='S'), dict(rx='V', tx='VH', sizes=(1, 1, 1, 1, 2), moving='tx', fc='S'),
          dict(rx='X2', tx='VH', sizes=(1, 1, 1, 1, 1), moving='rx', fc='Ka')],
         [dict(rx=r, tx=t, sizes=z, moving=m, fc=f) for r, t in itertools.product(('V', 'VH', 'X2', 'H2'), repeat=2) for z in ((2, 1, 2, 1, 1), (1, 2, 1, 2, 2), (2, 2, 1, 1, 1), (1, 2, 2, 1, 1)) for m, f in (('rx', 'S'), ('tx', 'Ka'))], budget=400)
def rotation_of_polarization(env, rx, tx, sizes, moving, fc):
    s = setup(env, rx, tx, sizes, moving, fc, True, 'fork')
    tt = env.reals('t', 1, 0.0, 1.0)
    h = env.arr(s.gen._step_11_nlos(env.t(s.phi), s.topology, s.rays, env.t(tt), s.fc))
    l = env.arr(s.gen._step_11_los(s.topology, env.t(tt), s.fc))
    for b, a, u in np.ndindex(*s.sizes[:3]):
        high = s.up[b, a if moving == 'rx' else u]
        for i in range(s.rx.n):
            for j in range(s.tx.n):
                env.close(f'LoS {b, a, u} elements {i, j}', l[b, a, u, 0, i, j, 0], s.losc(env, b, a, u, i, j, 0.0, high), tol=1e-6)
                for c, m in np.ndindex(*s.sizes[3:]):
                    env.close(f'ray {b, a, u, c, m} elements {i, j}', h[b, a, u, c, m, i, j, 0], s.nlos(env, b, a, u, c, m, i, j, 0.0, high), tol=1e-6)


@harness([dict(rx='VH', tx='VH', fc='S'), dict(rx='VH', tx='VH', fc='Ka')], budget=400)
def power(env, rx, tx, fc):
    """the total power over both polarizations of both ends is that of the phase matrix"""
    s = setup(env, rx, tx, (1, 1, 1, 1, 1), 'rx', fc, False, (600e3, 36000e3))
    zero = lambda o: env.t(np.zeros(o.shape).astype(object))
    s.topology.tx_orientations, s.topology.rx_orientations = zero(s.o_tx), zero(s.o_rx)
    h = env.arr(s.gen._step_11_nlos(env.t(s.phi), s.topology, s.rays, env.t(np.array([0.0], dtype=object)), s.fc))
    l = env.arr(s.gen._step_11_los(s.topology, env.t(np.array([0.0], dtype=object)), s.fc))
    sq = lambda z: S.tocx(z).re ** 2 + S.tocx(z).im ** 2
    env.close('NLoS power', sum(sq(h[0, 0, 0, 0, 0, i, j, 0]) for i in range(2) for j in range(2)), s.powers[0, 0, 0, 0] * (2 + 2 / s.xpr[0, 0, 0, 0, 0]), tol=1e-6)
    env.close('LoS power', sum(sq(l[0, 0, 0, 0, i, j, 0]) for i in range(2) for j in range(2)), 2.0, tol=1e-6)


@harness([dict(fc='S'), dict(fc='Ka')])
def matrix(env, fc):
    """the rotation matrix: orthogonal, 108/f^2 degrees, the same for every path"""
    s = Setup(env, 'V', 'V', (1, 1, 1, 1, 1), 'rx', fc, angles=False, orient=False, vel=False)
    r = env.arr(s.gen._step_11_faraday_rotation(carrier_frequency=s.fc, aod_shape=env.tf.constant([1, 1, 2, 1, 2])))
    p = FARADAY / (s.fc / 1e9) ** 2
    for i in np.ndindex(*r.shape[:-2]):
        m = r[i]
        env.close(f'path {i}', m, np.array([[S.cos(p), -S.sin(p)], [S.sin(p), S.cos(p)]], dtype=object), tol=1e-7)
        mm = [[sum((S.tocx(m[k, x]).re * S.tocx(m[k, y]).re for k in range(2)), 0.0) for y in range(2)] for x in range(2)]
        env.close(f'orthogonal {i}', np.array(mm, dtype=object), np.array([[1.0, 0.0], [0.0, 1.0]]), tol=1e-6)
