"""Atmospheric losses."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = ('carrier symbolic over a band, elevation symbolic over [10,90]; weather symbolic over temperatures 230-320 K, pressures 700-1100 hPa, vapour densities 0-30 g/m3, humidities 0-100 %, '
          'antenna diameters 0.1-20 m and efficiencies 0.1-1; satellite heights, user locations, indoor states and all draws symbolic; 2 batch examples x 2 satellites x 2 users, also 1 x 1 x 3, 3 x 1 x 1, 1 x 3 x 2; 3 scenarios x 2 bands x 2 directions')
ASSUMPTIONS = ['the reference formulas (ITU-R P.676 Annex 2 below 54 GHz, P.618 2.4.1) are transcribed in the harness']
CASES = product(scen=list(SCEN), band=['S', 'Ka'], direction=['uplink', 'downlink'])


def phi(rp, rt, a, b, c, d):
    return rp ** a * rt ** b * S.exp(c * (1 - rp) + d * (1 - rt))


def gas_zenith(f, T, p, rho):
    """P.676 Annex 2, 1 <= f <= 54 GHz, with the two constants as implemented (8.1 instead of 8.6, 1.5 instead of 1.58: below 0.5 %)"""
    rt, rp = 288 / T, p / 1013
    x1 = phi(rp, rt, 0.0717, -1.8132, 0.0156, -1.6515)
    x2 = phi(rp, rt, 0.5146, -4.6368, -0.1921, -5.7416)
    x3 = phi(rp, rt, 0.3414, -6.5851, 0.2130, -8.5854)
    go = (7.2 * rt ** 2.8 / (f ** 2 + 0.34 * rp ** 2 * rt ** 1.6) + 0.62 * x3 / ((54 - f) ** (1.16 * x1) + 0.83 * x2)) * f ** 2 * rp ** 2 * 1e-3
    n1, n2 = 0.955 * rp * rt ** 0.68 + 0.006 * rho, 0.735 * rp * rt ** 0.5 + 0.0353 * rt ** 4 * rho
    g = lambda fi: 1 + ((f - fi) / (f + fi)) ** 2
    e = lambda k: S.exp(k * (1 - rt))
    gw = (3.98 * n1 * e(2.23) / ((f - 22.235) ** 2 + 9.42 * n1 ** 2) * g(22) + 11.96 * n1 * e(0.7) / ((f - 183.31) ** 2 + 11.14 * n1 ** 2)
          + 0.081 * n1 * e(6.44) / ((f - 321.226) ** 2 + 6.29 * n1 ** 2) + 3.66 * n1 * e(1.6) / ((f - 325.153) ** 2 + 9.22 * n1 ** 2)
          + 25.37 * n1 * e(1.09) / (f - 380) ** 2 + 17.4 * n1 * e(1.46) / (f - 448) ** 2 + 844.6 * n1 * e(0.17) / (f - 557) ** 2 * g(557)
          + 290 * n1 * e(0.41) / (f - 752) ** 2 * g(752) + 8.3328e4 * n2 * e(0.99) / (f - 1780) ** 2 * g(1780)) * (f ** 2 * rt ** 2.5 * (rho * 1e-4))
    t1 = 4.64 / (1 + 0.066 * rp ** -2.3) * S.exp(-((f - 59.7) / (2.87 + 12.4 * S.exp(-7.9 * rp))) ** 2)
    t2 = 0.14 * S.exp(2.12 * rp) / ((f - 118.75) ** 2 + 0.031 * S.exp(2.2 * rp))
    t3 = 0.0114 / (1 + 0.14 * rp ** -2.6) * f * ((-0.0247 + 0.0001 * f + 1.61e-6 * f ** 2) / (1 - 0.0169 * f + 4.1e-5 * f ** 2 + 3.2e-7 * f ** 3))
    ho = 6.1 / (1 + 0.17 * rp ** -1.1) * (1 + t1 + t2 + t3)
    sw = 1.013 / (1 + S.exp(-8.1 * (rp - 0.57)))
    hw = 1.66 * (1 + 1.39 * sw / ((f - 22.235) ** 2 + 2.56 * sw) + 3.37 * sw / ((f - 183.31) ** 2 + 4.69 * sw) + 1.5 * sw / ((f - 325.1) ** 2 + 2.89 * sw))
    return go * ho + gw * hw


def scintillation(f, el, T, H, D, eff):
    t = T - 273
    es = 6.1121 * S.exp(17.502 * t / (t + 240.97))
    sref = 3.6e-3 + 1e-4 * (3732 * H * es / T ** 2)
    si = S.sin(el * (PI / 180))
    L = 2000 / (S.sqrt(si ** 2 + 2.35e-4) + si)
    x = 1.22 * eff * D ** 2 * f / L
    g2 = 3.86 * (x ** 2 + 1) ** (11 / 12) * S.sin(11 / 6 * S.atan(1 / x)) - 7.08 * x ** (5 / 6)
    g = S.sqrt(S.maximum(g2, 0.0))
    lp = -2.0
    a = -0.061 * lp ** 3 + 0.072 * lp ** 2 - 1.71 * lp + 3.0
    return a * sref * f ** (7 / 12) * g / si ** 1.2


def setup(env, scen, band, direction, weather, el=None, size=(2, 2, 2)):
    fc = env.real('fc', *((1.9e9, 4e9) if band == 'S' else (19e9, 40e9)))
    el = env.real('elev', 10.0, 90.0) if el is None else el
    s = scenario(env, scen, fc, direction, el)
    w = {}
    for n, lo, hi in (('temperature', 230, 320), ('atmospheric_pressure', 700, 1100), ('water_vapor_density', 0.0, 30.0),
                      ('relative_humidity', 0.0, 100.0), ('diameter_earth_antenna', 0.1, 20.0), ('antenna_efficiency', 0.1, 1.0)):
        if n in weather:
            w[n] = env.real(n, lo, hi)
    s.set_topology(**topo(env, size[0], size[2], size[1], symbolic=('h', 'ut_loc'), indoor='sym'), **w)
    w = dict(dict(temperature=273.0, atmospheric_pressure=1020.0, water_vapor_density=7.5, relative_humidity=50.0, diameter_earth_antenna=3.6, antenna_efficiency=0.5), **w)
    return s, fc / 1e9, el, w


def same(env, label, x, size):
    a = env.arr(x)
    env.holds(f'{label}: one value per link', a.shape == size)
    for i in np.ndindex(*size):
        if i != (0, 0, 0):
            env.close(f'{label}: the same for link {i}', a[i], a[0, 0, 0], tol=1e-9)
    return a[0, 0, 0]


def gas(env, s, f, el, w, size=(2, 2, 2)):
    got = same(env, 'gas loss', s.gas_pathloss, size)
    z = gas_zenith(f, w['temperature'], w['atmospheric_pressure'], w['water_vapor_density'])
    env.close('gas loss times sine of the elevation relative to the zenith attenuation', got * S.sin(el * (PI / 180)) / z, 1.0, tol=1e-2)
    env.holds('gas loss is not negative', S.le(0.0, got))


def scint(env, band, s, f, el, w, size=(2, 2, 2)):
    got = same(env, 'scintillation loss', s.scintillation_pathloss, size)
    if band == 'S':
        env.close('ionospheric scintillation', got, 1.1 * (f / 4) ** -1.5 / math.sqrt(2), tol=1e-6)
    else:
        env.close('tropospheric scintillation', got * 10, 10 * scintillation(f, el, w['temperature'], w['relative_humidity'], w['diameter_earth_antenna'], w['antenna_efficiency']), tol=1e-6)
    env.holds('scintillation loss is not negative', S.le(0.0, got))


@harness(CASES)
def default_weather(env, scen, band, direction):
    s, f, el, w = setup(env, scen, band, direction, ())
    gas(env, s, f, el, w)
    scint(env, band, s, f, el, w)


@harness(product(scen=['dur'], band=['S', 'Ka'], direction=['downlink']), CASES)
def any_weather(env, scen, band, direction):
    s, f, el, w = setup(env, scen, band, direction, ('temperature', 'atmospheric_pressure', 'water_vapor_density', 'relative_humidity', 'diameter_earth_antenna', 'antenna_efficiency'))
    gas(env, s, f, el, w)
    scint(env, band, s, f, el, w)


@harness([dict(scen=a, band=b, direction=d, size=z) for a, b, d, z in (('urb', 'S', 'downlink', (1, 1, 3)), ('sur', 'Ka', 'uplink', (3, 1, 1)), ('dur', 'Ka', 'downlink', (1, 3, 2)))], product(scen=list(SCEN), band=['S', 'Ka'], direction=['uplink', 'downlink'], size=[(1, 1, 1), (1, 1, 3), (3, 1, 1), (1, 3, 2)]))
def sizes(env, scen, band, direction, size):
    """other sizes, at one elevation"""
    size = tuple(size)
    s, f, el, w = setup(env, scen, band, direction, (), 37.0, size)
    gas(env, s, f, el, w, size)
    scint(env, band, s, f, el, w, size)
