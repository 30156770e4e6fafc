"""Rotations and local/global coordinate changes."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'one orientation (three angles in [-7,7]) and one direction (theta in [0,pi], phi in [-pi,pi]), all symbolic; two positions with coordinates in [-10,10]'
ASSUMPTIONS = ['the helper methods of the coefficient generator that the repository\'s own tests call are used as entry points']


def gen(env):
    a = antenna(env)
    return env.mod().ChannelCoefficientsGenerator(2e9, a, a, True, precision=env.precision)


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def rz(a): return [[S.cos(a), -S.sin(a), 0.0], [S.sin(a), S.cos(a), 0.0], [0.0, 0.0, 1.0]]
def ry(a): return [[S.cos(a), 0.0, S.sin(a)], [0.0, 1.0, 0.0], [-S.sin(a), 0.0, S.cos(a)]]
def rx(a): return [[1.0, 0.0, 0.0], [0.0, S.cos(a), -S.sin(a)], [0.0, S.sin(a), S.cos(a)]]


@harness([{}])
def rotation(env):
    g = gen(env)
    o = env.reals('o', 3, -7, 7)
    p = env.reals('p', (2, 3), -10, 10)
    R = env.arr(g._forward_rotation_matrix(env.t(o)))
    want = mm(mm(rz(o[0]), ry(o[1])), rx(o[2]))
    env.close('rotation is z-y-x composition', R, col(want))
    Ri = env.arr(g._reverse_rotation_matrix(env.t(o)))
    env.close('reverse times forward', col(mm(Ri, R)), col([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]))
    q = env.arr(g._rot_pos(env.t(np.array([o, o])), env.t(p[:, :, None])))[..., 0]
    env.close('rotated position', q, col([[sum(want[i][k] * p[n, k] for k in range(3)) for i in range(3)] for n in range(2)]))
    for i, j in ((0, 0), (0, 1), (1, 1)):
        env.close(f'inner product {i}{j} preserved', sum(q[i] * q[j]), sum(p[i] * p[j]))


def direction(th, ph):
    return [S.sin(th) * S.cos(ph), S.sin(th) * S.sin(ph), S.cos(th)]


@harness([{}])
def local_angles(env):
    g = gen(env)
    o = env.reals('o', 3, -7, 7)
    th, ph = env.real('theta', 0, PI), env.real('phi', -PI, PI)
    tp, pp = g._gcs_to_lcs(env.t(o.reshape(1, 3)), env.t([th]), env.t([ph]))
    env.shape('local zenith', tp, (1,))
    tp, pp = env.arr(tp)[0], env.arr(pp)[0]
    r = direction(th, ph)
    R = mm(mm(rz(o[0]), ry(o[1])), rx(o[2]))
    loc = [sum(R[k][i] * r[k] for k in range(3)) for i in range(3)]
    env.close('local vector has norm one', sum(x * x for x in loc), 1.0)
    lemma(env, S.and_(S.le(loc[2], 1.0), S.le(-1.0, loc[2])))
    env.holds('local zenith in [0,pi]', S.and_(S.le(-1e-9, tp), S.le(tp, PI + 1e-9)))
    env.close('local zenith', S.cos(tp), loc[2])
    # azimuth: same direction as the projection, for directions off the local axis
    env.assume(S.le(1e-3, loc[0] * loc[0] + loc[1] * loc[1]))
    lp = direction(tp, pp)
    for i in range(3):
        env.close(f'rotating the local direction back, component {i}', sum(R[i][k] * lp[k] for k in range(3)), r[i])


@harness([{}])
def field_rotation(env):
    g = gen(env)
    o = env.reals('o', 3, -7, 7)
    th, ph = env.real('theta', 0, PI), env.real('phi', -PI, PI)
    f = env.reals('f', 2, -5, 5)
    out = env.arr(g._l2g_response(env.t(f.reshape(1, 2)), env.t(o.reshape(1, 3)), env.t([th]), env.t([ph])))
    env.close('field norm preserved', out[0, 0, 0] * out[0, 0, 0] + out[0, 1, 0] * out[0, 1, 0], f[0] * f[0] + f[1] * f[1])
    a, b, c = o
    # TR 38.901 (7.1-15)
    re = S.sin(c) * S.cos(th) * S.sin(ph - a) + S.cos(c) * (S.cos(b) * S.sin(th) - S.sin(b) * S.cos(th) * S.cos(ph - a))
    im = S.sin(c) * S.cos(ph - a) + S.sin(b) * S.cos(c) * S.sin(ph - a)
    env.assume(S.le(1e-3, re * re + im * im))
    n = S.sqrt(re * re + im * im)
    env.close('theta component', out[0, 0, 0] * n, re * f[0] - im * f[1])
    env.close('phi component', out[0, 1, 0] * n, im * f[0] + re * f[1])
