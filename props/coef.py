"""Independent formulas of the channel coefficients (TR 38.901 (7.5-22), (7.5-28), (7.5-29))."""
from .common import *

FARADAY = 108.0 * PI / 180      # radians at 1 GHz


def unit(theta, phi):
    return [S.sin(theta) * S.cos(phi), S.sin(theta) * S.sin(phi), S.cos(theta)]


def axes(theta, phi):
    """the spherical unit vectors of zenith and azimuth"""
    return [S.cos(theta) * S.cos(phi), S.cos(theta) * S.sin(phi), -S.sin(theta)], [-S.sin(phi), S.cos(phi), 0.0]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), 0.0)


def rotation(o):
    """rotation about z by o[0], then y by o[1], then x by o[2] (intrinsic)"""
    a, b, c = o
    ca, sa, cb, sb, cc, sc = S.cos(a), S.sin(a), S.cos(b), S.sin(b), S.cos(c), S.sin(c)
    rz = [[ca, -sa, 0.0], [sa, ca, 0.0], [0.0, 0.0, 1.0]]
    ry = [[cb, 0.0, sb], [0.0, 1.0, 0.0], [-sb, 0.0, cb]]
    rx = [[1.0, 0.0, 0.0], [0.0, cc, -sc], [0.0, sc, cc]]
    mm = lambda p, q: [[sum((p[i][k] * q[k][j] for k in range(3)), 0.0) for j in range(3)] for i in range(3)]
    return mm(mm(rz, ry), rx)


def apply(m, v):
    return [dot(r, v) for r in m]


def cosangle(o, theta, phi):
    """local direction (components) of a global direction"""
    m = rotation(o)
    u = unit(theta, phi)
    return [dot([m[0][k], m[1][k], m[2][k]], u) for k in range(3)]


def amplitude(env, pattern, o, theta, phi):
    if pattern == 'omni':
        return 1.0
    x, y, z = cosangle(o, theta, phi)
    t, p = S.acos(S.minimum(S.maximum(z, -1.0), 1.0)) * (180 / PI), S.atan2(y, x) * (180 / PI)
    a = S.minimum(12 * ((t - 90.0) / 65.0) ** 2, 30.0) + S.minimum(12 * (p / 65.0) ** 2, 30.0)
    return S.sqrt(10 ** 0.8 * 10.0 ** (-S.minimum(a, 30.0) / 10))


def field(env, pattern, slant, o, theta, phi):
    """vertical and horizontal field in the global system: the local zenith vector turned about the direction"""
    m = rotation(o)
    zloc = [m[0][2], m[1][2], m[2][2]]
    et, ep = axes(theta, phi)
    re, im = -dot(et, zloc), -dot(ep, zloc)
    env.assume(S.le(1e-6, re * re + im * im))
    r = S.sqrt(re * re + im * im)
    c, s = re / r, im / r
    A = amplitude(env, pattern, o, theta, phi)
    v, h = A * math.cos(slant), A * math.sin(slant)
    return [c * v - s * h, s * v + c * h]


def expj(x):
    return CX(1.0, 0.0, x)


def phase_matrix(phi, xpr):
    k = S.sqrt(1 / xpr)
    return [[expj(phi[0]), expj(phi[1]) * k], [expj(phi[2]) * k, expj(phi[3])]]


LOS_MATRIX = [[CX(1.0, 0.0), CX(0.0, 0.0)], [CX(0.0, 0.0), CX(-1.0, 0.0)]]


def rotated(m, fc):
    """the matrix seen through the ionosphere"""
    p = FARADAY / (fc / 1e9) ** 2
    c, s = S.cos(p), S.sin(p)
    return [[m[i][0] * c + m[i][1] * s, m[i][1] * c - m[i][0] * s] for i in range(2)]


def sandwich(frx, m, ftx):
    out = CX(0.0, 0.0)
    for i in range(2):
        for j in range(2):
            out = out + m[i][j] * (frx[i] * ftx[j])
    return out


class End:
    """one side of the link: element positions and polarizations of an array of env"""
    def __init__(self, env, arr, pattern, slants):
        self.pos = env.arr(arr.ant_pos)
        self.n = self.pos.shape[0]
        self.pattern = pattern
        second = set(int(v) for v in np.array(env.arr(arr.ant_ind_pol2)).reshape(-1)) if len(slants) == 2 else set()
        self.slants = [slants[1] if k in second else slants[0] for k in range(self.n)]


def path(env, rx, tx, i, j, o_rx, o_tx, ang, m, lam, phase):
    """coefficient of one path between receive element i and transmit element j; ang = aoa, aod, zoa, zod"""
    aoa, aod, zoa, zod = ang
    h = sandwich(field(env, rx.pattern, rx.slants[i], o_rx, zoa, aoa), m, field(env, tx.pattern, tx.slants[j], o_tx, zod, aod))
    d = dot(unit(zoa, aoa), apply(rotation(o_rx), list(rx.pos[i]))) + dot(unit(zod, aod), apply(rotation(o_tx), list(tx.pos[j])))
    return h * expj(2 * PI / lam * d + phase)


SLANTS = {'V': [0.0], 'H': [PI / 2], 'VH': [0.0, PI / 2], 'cross': [-PI / 4, PI / 4]}
ARRAYS = {'V': ('single', 'V', 'omni', 1, 1), 'H2': ('single', 'H', 'omni', 1, 2), 'VH': ('dual', 'VH', 'omni', 1, 1), 'X2': ('dual', 'cross', 'omni', 2, 1),
          'P': ('single', 'V', '38.901', 1, 1), 'PX': ('dual', 'cross', '38.901', 1, 1)}


def make_end(env, kind, fc):
    pol, t, pat, r, c = ARRAYS[kind]
    a = array(env, fc, r, c, pol, t, pat)
    return a, End(env, a, pat, SLANTS[t])


class Setup:
    """generator, topology and rays with symbolic values; sizes (examples, transmitters, receivers, clusters, rays)"""
    def __init__(self, env, rx, tx, sizes=(1, 1, 2, 2, 2), moving='rx', fc='S', heights=(100e3, 599e3), orient=True, angles=True, vel=True, doppler=False, subclustering=False, los=None, elev=45.0, nbs=None, tag=''):
        nb, nt, nr, nc, nm = self.sizes = sizes
        lo, hi = (1.9e9, 4e9) if fc == 'S' else (19e9, 40e9)
        self.fc = env.real('fc', lo, hi) if isinstance(fc, str) else fc
        self.lam = SPEED_OF_LIGHT / self.fc
        rng = np.random.default_rng(11)
        atx, self.tx = make_end(env, tx, self.fc)
        arx, self.rx = make_end(env, rx, self.fc)

        def arr(name, shape, lo, hi, symbolic=True):
            out = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                v = float(rng.uniform(lo, hi))
                out[i] = env.real(tag + name + ''.join(f'_{k}' for k in i), lo, hi) if symbolic else v
            return out
        self.o_tx = arr('ot', (nb, nt, 3), -PI, PI, orient)
        self.o_rx = arr('or', (nb, nr, 3), -PI, PI, orient)
        nmov = nr if moving == 'rx' else nt
        self.vel = arr('v', (nb, nmov, 3), -300.0, 300.0, vel)
        L, R = (nb, nt, nr), (nb, nt, nr, nc, nm)
        self.ang = [arr(n, R, -PI if n[0] == 'a' else 0.0, PI, angles) for n in ('aoa', 'aod', 'zoa', 'zod')]
        self.losang = [arr('l' + n, L, -PI if n[0] == 'a' else 0.0, PI, angles) for n in ('aoa', 'aod', 'zoa', 'zod')]
        self.powers = arr('p', L + (nc,), 0.0, 1.0)
        self.delays = arr('tau', L + (nc,), 0.0, 10.0)
        self.xpr = arr('x', R, 1e-3, 1e4)
        self.phi = arr('ph', R + (4,), -PI, PI)
        self.d3d = arr('d', L, 1e5, 5e7)
        self.nbs = nbs or (nt if moving == 'rx' else nr)
        if heights == 'fork':
            # each satellite on either side of 600 km
            self.h, self.up = np.empty((nb, self.nbs), dtype=object), np.empty((nb, self.nbs), dtype=object)
            for i in np.ndindex(nb, self.nbs):
                self.up[i] = env.choose(env.bool(f'{tag}up_{i[0]}_{i[1]}'))
                self.h[i] = env.real(f'{tag}{"high" if self.up[i] else "low"}_{i[0]}_{i[1]}', *((600e3, 36000e3) if self.up[i] else (100e3, 599999.9)))
        else:
            self.h = arr('hb', (nb, self.nbs), *heights)
        self.los = np.empty(L, dtype=object)
        for i in np.ndindex(*L):
            self.los[i] = env.bool(f'{tag}los' + ''.join(f'_{k}' for k in i)) if los is None else bool(los if isinstance(los, bool) else los[i])
        self.elev = elev
        self.moving = moving
        self.doppler = doppler
        M = env.mod('OpenNTN.channel_coefficients')
        t = env.t
        self.gen = M.ChannelCoefficientsGenerator(self.fc, atx, arx, subclustering, precision=env.precision)
        self.mark = len(env.drawlog)
        self.topology = M.Topology(t(self.vel), moving, *[t(x) for x in (self.losang[0], self.losang[1], self.losang[2], self.losang[3])], t(self.los, 'b'), t(self.d3d), t(self.o_tx), t(self.o_rx),
                                   t(self.h), elev, doppler)
        self.rays = env.mod('OpenNTN.rays').Rays(t(self.delays), t(self.powers), *[t(x) for x in self.ang], t(self.xpr))

    def velocity(self, b, s, u):
        return list(self.vel[b, u if self.moving == 'rx' else s])

    def doppler_phase(self, b, s, u, ang, t):
        d = unit(ang[2], ang[0]) if self.moving == 'rx' else unit(ang[3], ang[1])
        return 2 * PI / self.lam * dot(d, self.velocity(b, s, u)) * t

    def nlos(self, env, b, s, u, c, m, i, j, phase=0.0, faraday=False):
        """coefficient of a ray without the Doppler phase (given by phase)"""
        a = [x[b, s, u, c, m] for x in self.ang]
        mat = phase_matrix(self.phi[b, s, u, c, m], self.xpr[b, s, u, c, m])
        if faraday:
            mat = rotated(mat, self.fc)
        return path(env, self.rx, self.tx, i, j, self.o_rx[b, u], self.o_tx[b, s], a, mat, self.lam, phase) * S.sqrt(self.powers[b, s, u, c] / self.sizes[4])

    def losc(self, env, b, s, u, i, j, t=0.0, faraday=False):
        a = [x[b, s, u] for x in self.losang]
        mat = rotated(LOS_MATRIX, self.fc) if faraday else LOS_MATRIX
        return path(env, self.rx, self.tx, i, j, self.o_rx[b, u], self.o_tx[b, s], a, mat, self.lam, 2 * PI * self.d3d[b, s, u] / self.lam + self.doppler_phase(b, s, u, a, t))
