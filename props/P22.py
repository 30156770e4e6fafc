"""Doppler."""
from .coef import *

HARNESSES, harness = registry()
BOUNDS = ('all velocities up to 300 m/s per axis, ray and LoS directions, times up to 1 s, carriers 1.9-4 and 19-40 GHz, satellite heights 100-36000 km, independent for every satellite and example, satellite Doppler on and off, all draws of the satellite speed; 1-2 examples, 1-2 satellites, 1-2 users; both moving ends')
ASSUMPTIONS = ['the satellite speed drawn for a topology is read from the topology; its bound is decided in P33']


def phase(env, s, b, a, u, ang, t, sat):
    p = s.doppler_phase(b, a, u, ang, t)
    if sat is not None:
        p = p + 2 * PI / s.lam * sat[b, a if s.moving == 'rx' else u] * t
    return p


def compare(env, label, h, ht, ph):
    """ht is h turned by ph; equal in magnitude"""
    env.close(label, ht, h * expj(ph), tol=1e-6)


CASES = [dict(sizes=z, moving=m, high=hi, doppler=d, fc=f) for z, m, f in (((2, 1, 2, 1, 1), 'rx', 'S'), ((1, 2, 2, 1, 1), 'rx', 'Ka'), ((1, 2, 1, 1, 2), 'tx', 'S'), ((2, 1, 2, 2, 1), 'tx', 'Ka')) for hi, d in ((True, True), (True, False), (False, True), (False, False))]
CASES += [dict(sizes=z, moving=m, high=None, doppler=True, fc='S') for z, m in (((2, 1, 1, 1, 1), 'rx'), ((1, 2, 1, 1, 1), 'rx'), ((2, 1, 1, 1, 1), 'tx'), ((1, 1, 2, 1, 1), 'tx'))]


@harness(CASES, CASES + [dict(sizes=z, moving=m, high=hi, doppler=d, fc='S') for z in ((2, 2, 2, 1, 1), (1, 2, 2, 2, 2)) for m in ('rx', 'tx') for hi in (True, False, None) for d in (True, False)], budget=400)
def rotation_of_phases(env, sizes, moving, high, doppler, fc):
    sizes = tuple(sizes)
    s = Setup(env, 'V', 'V', sizes, moving, fc, orient=False, heights='fork' if high is None else (600e3, 36000e3) if high else (100e3, 599999.0), doppler=doppler, elev=float(35.0))
    """high: all satellites at or above 600 km (True), below (False), each on either side (None)"""
    speed = env.arr(s.topology.sat_speed)
    t = env.real('t', 0.0, 1.0)
    tt = env.t(np.array([0.0, t], dtype=object))
    h = env.arr(s.gen._step_11_nlos(env.t(s.phi), s.topology, s.rays, tt, s.fc))
    l = env.arr(s.gen._step_11_los(s.topology, tt, s.fc))
    for b, a, u in np.ndindex(*sizes[:3]):
        la = [x[b, a, u] for x in s.losang]
        k = (b, a if moving == 'rx' else u)
        sat = speed if doppler and (high or high is None and s.up[k]) else None
        compare(env, f'LoS {b, a, u}', l[b, a, u, 0, 0, 0, 0], l[b, a, u, 0, 0, 0, 1], phase(env, s, b, a, u, la, t, sat))
        for c, m in np.ndindex(*sizes[3:]):
            ang = [x[b, a, u, c, m] for x in s.ang]
            compare(env, f'ray {b, a, u, c, m}', h[b, a, u, c, m, 0, 0, 0], h[b, a, u, c, m, 0, 0, 1], phase(env, s, b, a, u, ang, t, sat))


@harness([dict(moving='rx', doppler=True), dict(moving='tx', doppler=True), dict(moving='rx', doppler=False)])
def matrix(env, moving, doppler):
    """the Doppler factors: unit magnitude, one at time zero"""
    s = Setup(env, 'V', 'V', (1, 2, 1, 1, 1) if moving == 'tx' else (1, 1, 2, 1, 1), moving, 'S', orient=False, heights=(100e3, 36000e3), doppler=doppler)
    t = env.real('t', 0.0, 1.0)
    d = env.arr(s.gen._step_11_doppler_matrix(s.topology, *[env.t(s.ang[k]) for k in (0, 2, 1, 3)], env.t(np.array([0.0, t], dtype=object))))
    for i in np.ndindex(*d.shape[:-1]):
        env.close(f'path {i} at time zero', d[i + (0,)], 1.0, tol=1e-9)
        z = S.tocx(d[i + (1,)])
        env.close(f'magnitude of path {i}', z.re * z.re + z.im * z.im, 1.0, tol=1e-6)
    for b, a, u in np.ndindex(*s.sizes[:3]):
        ang = [x[b, a, u, 0, 0] for x in s.ang]
        if not (doppler and env.choose(S.le(600e3, s.h[b, a if moving == 'rx' else u]))):
            compare(env, f'link {b, a, u}', CX(1.0, 0.0) if env.sym else 1.0 + 0j, d[b, a, u, 0, 0, 1], s.doppler_phase(b, a, u, ang, t))
