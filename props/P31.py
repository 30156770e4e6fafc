"""Dropped topologies."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'all draws, satellite heights 100-36000 km, elevations 10-90 degrees, ISDs 10 m-100 km, user height ranges within 0-100 m, velocity ranges within 0-300 m/s; all scenarios, default and given parameters; 1-2 examples, 1-3 users; relocation: all positions, cell locations and sector numbers 0-2'
ASSUMPTIONS = ['no user exactly at longitude zero of the satellite (x coordinate at least 1 m in magnitude), where the bearing quotient is undefined']
DEFAULT_ISD = {'dur': 200.0, 'urb': 500.0, 'sur': 5000.0}


def params(env):
    p = dict(bs_height=env.real('h', 100e3, 36000e3), elevation_angle=env.real('e', 10.0, 90.0), isd=env.real('isd', 10.0, 1e5))
    lo, hi = env.real('hlo', 0.0, 100.0), env.real('hhi', 0.0, 100.0)
    vlo, vhi = env.real('vlo', 0.0, 300.0), env.real('vhi', 0.0, 300.0)
    env.assume(S.le(lo + 1e-3, hi))
    env.assume(S.le(vlo + 1e-3, vhi))
    p.update(min_ut_height=lo, max_ut_height=hi, min_ut_velocity=vlo, max_ut_velocity=vhi)
    return p


def check(env, size, r, p):
    nb, nu = size
    ut, bs, uo, bo, v, ins = r
    for n, x, s in (('user locations', ut, (nb, nu, 3)), ('satellite locations', bs, (nb, 1, 3)), ('user orientations', uo, (nb, nu, 3)), ('satellite orientations', bo, (nb, 1, 3)), ('velocities', v, (nb, nu, 3)), ('indoor states', ins, (nb, nu))):
        env.shape(n, x, s)
    ut, bs, uo, bo, v, ins = [env.arr(x) for x in r]
    h, e, isd = p['bs_height'], p['elevation_angle'], p['isd']
    for b in range(nb):
        env.close(f'satellite {b}', bs[b, 0], np.array([0.0, 0.0, h], dtype=object), tol=1e-9)
        env.close(f'orientation of satellite {b}', bo[b, 0], np.array([0.0, PI / 2, 0.0], dtype=object), tol=1e-9)
    # bounding box of the users at most ISD wide
    pts = [ut[i] for i in np.ndindex(nb, nu)]
    eps = 1e-6
    for k in range(len(pts)):
        for l in range(k):
            for c in range(2):
                env.holds(f'users {k} and {l} at most one ISD apart in coordinate {c}', S.le(S.abs1(pts[k][c] - pts[l][c]), isd * (1 + eps)))
    for i in np.ndindex(nb, nu):
        env.holds(f'height of user {i}', S.and_(S.le(p['min_ut_height'] - 1e-6, ut[i][2]), S.le(ut[i][2], p['max_ut_height'] + 1e-6)))
        sp = v[i][0] ** 2 + v[i][1] ** 2
        env.holds(f'speed of user {i} at least the minimum', S.le(p['min_ut_velocity'] ** 2 - 1e-6, sp))
        env.holds(f'speed of user {i} at most the maximum', S.le(sp, p['max_ut_velocity'] ** 2 + 1e-4))
        env.close(f'vertical speed of user {i}', v[i][2], 0.0, tol=1e-9)
        env.close(f'user {i} outdoors', ins[i], False)
        a = uo[i][0]
        env.assume(S.or_(S.le(1.0, ut[i][0]), S.le(ut[i][0], -1.0)))
        env.close(f'bearing of user {i}', S.sin(a) * ut[i][0] / (1 + S.abs1(ut[i][0]) + S.abs1(ut[i][1])), S.cos(a) * ut[i][1] / (1 + S.abs1(ut[i][0]) + S.abs1(ut[i][1])), tol=1e-6)


def inner(env):
    """uniform draws, not at the very ends of their range (there the code's differences of squares are rounding noise)"""
    return lambda kind, lo, hi, isint, name: env.real('z' + name, 1e-6, 1 - 1e-6)


@harness([dict(scen=s, size=z) for s, z in (('dur', (1, 2)), ('urb', (2, 1)), ('sur', (1, 1)))], product(scen=list(SCEN), size=[(1, 2), (2, 2), (1, 3)]), budget=300)
def topology(env, scen, size):
    p = params(env)
    with env.forced(inner(env)):
        r = env.mod('OpenNTN.utils').gen_single_sector_topology(size[0], size[1], scen, precision=env.precision, **p)
    check(env, tuple(size), r, p)


@harness([dict(scen=s) for s in SCEN])
def defaults(env, scen):
    with env.forced(inner(env)):
        r = env.mod('OpenNTN.utils').gen_single_sector_topology(1, 2, scen, precision=env.precision, min_ut_height=1.0, max_ut_height=2.0, min_ut_velocity=0.0, max_ut_velocity=1.0)
    check(env, (1, 2), r, dict(bs_height=600e3, elevation_angle=80.0, isd=DEFAULT_ISD[scen], min_ut_height=1.0, max_ut_height=2.0, min_ut_velocity=0.0, max_ut_velocity=1.0))
    v = env.mod('OpenNTN.utils').set_3gpp_scenario_parameters(scen, precision=env.precision)
    for n, x, w in zip(('isd', 'bs_height', 'elevation_angle', 'min_ut_height', 'max_ut_height', 'indoor_probability', 'min_ut_velocity', 'max_ut_velocity'), v, (DEFAULT_ISD[scen], 600e3, 80.0, 1.5, 1.5, 0.0, 0.0, 0.0)):
        env.close(f'default {n}', x, w, tol=1e-6)


@harness([{}])
def centre(env):
    """the square lies around one point at ground distance h/tan(e) from the nadir"""
    p = params(env)
    nb, nu = 2, 2
    U = env.mod('OpenNTN.utils')


    drop = lambda: env.arr(U.drop_uts_in_sector(nb, nu, p['bs_height'], p['elevation_angle'], p['isd'], precision=env.precision))
    # the draw of the common point is the one that is not made per user; the others are put in the middle of their range
    ops = probe(env, drop)
    least = min(n for _, n, _ in ops)
    point = {t: (lambda j, t=t: env.real(f'u{t}_{j}', 1e-6, 1 - 1e-6)) for t, (_, n, _) in enumerate(ops) if n == least}
    env.holds('one draw is common to all users', least < nb * nu)
    with env.forced(forced_tensors(point)):
        xy = drop()
    e = p['elevation_angle'] * (PI / 180)
    for i in np.ndindex(nb, nu):
        x, y = xy[i]
        k = S.sin(e) / p['bs_height']
        env.close(f'ground distance of centre {i}', (x * k) ** 2 + (y * k) ** 2, S.cos(e) ** 2, tol=1e-6)
        env.close(f'common point {i}', np.array([x * k, y * k], dtype=object), np.array([xy[0, 0][0] * k, xy[0, 0][1] * k], dtype=object), tol=1e-7)


@harness([{}])
def refusal(env):
    U = env.mod('OpenNTN.utils')
    for bad in ('umi', 'uma', 'DUR', '', None):
        r, e = env.attempt(lambda: U.gen_single_sector_topology(1, 1, bad), AssertionError, ValueError, KeyError)
        env.holds(f'scenario {bad!r} refused', e is not None)


@harness([dict(per='one'), dict(per='each')])
def relocation(env, per):
    """users are turned by 120 degrees per sector number and shifted to the cell"""
    U = env.mod('OpenNTN.utils')
    nb, nu = 1, 3
    x = env.reals('x', (nb, nu, 2), -1e5, 1e5)
    c = env.reals('c', (nb, nu, 2) if per == 'each' else (2,), -1e5, 1e5)
    sec = np.array([[0, 1, 2]])
    for s0 in range(3):
        ids = (sec + s0) % 3 if per == 'each' else np.array(s0)
        r = U.relocate_uts(env.t(x), env.tf.constant(ids.tolist(), env.tf.int32), env.t(c))
        env.shape('relocated', r, (nb, nu, 2))
        r = env.arr(r)
        for i in np.ndindex(nb, nu):
            k = int(ids[i]) if per == 'each' else s0
            a = 2 * PI * k / 3
            off = c[i] if per == 'each' else c
            env.close(f'sector {k} user {i}', np.array([r[i][0] - off[0], r[i][1] - off[1]], dtype=object) / 1e3, np.array([math.cos(a) * x[i][0] - math.sin(a) * x[i][1], math.sin(a) * x[i][0] + math.cos(a) * x[i][1]], dtype=object) / 1e3, tol=1e-6)
