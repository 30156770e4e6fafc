"""Indoor and outdoor parts of the distances."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = ('user and satellite coordinates (users at least 1 m away horizontally), satellite heights 600-36000 km, elevations 10-90 degrees, indoor states and all draws symbolic; 1-3 examples, 1-3 satellites, 1-3 users; '
          'complete updates and one partial update of indoor states, user locations or satellite locations; 3 scenarios x 2 directions')
ASSUMPTIONS = ['draw sources are uniform as requested from TensorFlow']
SIZES = [(2, 2, 2), (1, 1, 3), (3, 1, 1), (1, 3, 2)]
PARTS = ('distance_2d_in', 'distance_2d_out', 'distance_3d_in', 'distance_3d_out')


def decide(env, s, t, size, tag):
    nb, ns, nu = size
    for n in PARTS:
        env.shape(f'{tag}{n}', getattr(s, n), size)
    i2, o2, i3, o3 = [env.arr(getattr(s, n)) for n in PARTS]
    d2, d3 = env.arr(s.distance_2d), env.arr(s.distance_3d)
    ut, bs, ins = env.arr(t['ut_loc']), env.arr(t['bs_loc']), env.arr(t['in_state'])
    for i in np.ndindex(*size):
        b, a, u = i
        x, y = ut[b, u, 0] - bs[b, a, 0], ut[b, u, 1] - bs[b, a, 1]
        env.assume(S.le(1.0, x * x + y * y))
        inside = ins[b, u]
        env.holds(f'{tag}indoor part {i} within [0, 10] m', S.and_(S.le(-1e-9, i2[i]), S.le(i2[i], 10.0 + 1e-6)))
        env.holds(f'{tag}no indoor part for outdoor users {i}', S.or_(inside, S.and_(S.eq(i2[i], 0.0), S.eq(i3[i], 0.0))))
        env.close(f'{tag}horizontal parts add up {i}', i2[i] + o2[i], d2[i], tol=1e-6)
        env.close(f'{tag}slant parts add up {i}', i3[i] + o3[i], d3[i], tol=1e-6)
        env.close(f'{tag}the slant is split like the horizontal distance {i}', i3[i] * d2[i], i2[i] * d3[i], tol=1e-6)


CASES = [dict(scen=s, direction=d, size=z, part=p) for s, d, z, p in (('dur', 'downlink', SIZES[0], 'in_state'), ('urb', 'uplink', SIZES[1], 'ut_loc'), ('sur', 'downlink', SIZES[2], 'bs_loc'), ('dur', 'uplink', SIZES[3], 'in_state'))]


@harness(CASES, product(scen=list(SCEN), direction=['downlink', 'uplink'], size=SIZES, part=['in_state', 'ut_loc', 'bs_loc']))
def parts(env, scen, direction, size, part):
    nb, ns, nu = size
    s = scenario(env, scen, 2e9, direction, env.real('elev', 10.0, 90.0))
    t = topo(env, nb, nu, ns, symbolic=('ut_loc', 'bs_loc', 'h'), indoor='sym')
    s.set_topology(**t)
    decide(env, s, t, tuple(size), '')
    new = topo(env, nb, nu, ns, symbolic=('ut_loc', 'bs_loc', 'h'), indoor='sym', tag='n')[part]
    s.set_topology(**{part: new})
    decide(env, s, dict(t, **{part: new}), tuple(size), 'after an update: ')


@harness([dict(scen=s, size=z) for s, z in (('dur', SIZES[0]), ('urb', SIZES[1]), ('sur', SIZES[3]))], product(scen=list(SCEN), size=SIZES))
def own_draw(env, scen, size):
    """every indoor link draws its own part, from 0 to 10 m"""
    nb, ns, nu = size
    s = scenario(env, scen, 2e9, 'downlink', 45.0)
    t = topo(env, nb, nu, ns, indoor=True)

    def run(f):
        with env.forced(f):
            s.set_topology(**t)
        env.shape('indoor parts', s.distance_2d_in, size)
        return env.arr(s.distance_2d_in)
    log = probe(env, lambda: s.set_topology(**t))
    at = lambda q: lambda kind, lo, hi, isint, name: neutral(kind, lo, hi, isint) if kind == 'normal' or isint else lo + q * (hi - lo)
    env.close('lowest draws', run(at(0.0)), np.zeros(size), tol=1e-6)
    env.close('highest draws', run(at(1.0)), np.full(size, 10.0), tol=1e-6)
    middle = np.full(size, 5.0)
    env.close('middle draws', run(at(0.5)), middle, tol=1e-6)
    ranges, order = {}, {}

    def note(kind, lo, hi, isint, name):
        ranges.setdefault(order.setdefault(name.split('_')[0], len(order)), (lo, hi))
        return neutral(kind, lo, hi, isint)
    run(note)
    seen = {}
    for op, (kind, n, isint) in enumerate(log):
        if kind == 'normal' or isint:
            continue
        for j in range(n):
            d = run(forced_tensors({op: lambda k, j=j, r=ranges[op]: r[0] + (0.25 if k == j else 0.5) * (r[1] - r[0])}))
            ch = [i for i in np.ndindex(*size) if d[i] is not middle[i] and abs(float(d[i]) - 5.0) > 1e-6]
            env.holds(f'draw {op, j} serves one link', len(ch) <= 1)
            for i in ch:
                env.holds(f'link {i} has one draw', i not in seen)
                env.close(f'link {i} follows its draw', d[i], 2.5, tol=1e-6)
                seen[i] = op, j
    env.holds('every indoor link has its own draw', len(seen) == nb * ns * nu)

