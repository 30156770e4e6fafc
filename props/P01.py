"""Accepted configurations."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'carrier symbolic in [1e8, 1e11] Hz, carriers of the arrays symbolic, elevation symbolic in [-30, 200] degrees; the three scenarios and models; directions: the two valid ones and four invalid strings'
ASSUMPTIONS = ['carriers of scenario and arrays are equal or differ by at least 1 kHz (closer ones may be equal after rounding)']
DIRS = ['uplink', 'downlink', 'Uplink', 'up', '', 'sidelink']


def ok_band(fc):
    return S.or_(S.and_(S.le(1.9e9, fc), S.le(fc, 4e9)), S.and_(S.le(19e9, fc), S.le(fc, 40e9)))


def build(env, scen, kind, fc, fu, fb, elev, direction, **kw):
    M = env.mod()
    cls = getattr(M, SCEN[scen] + ('Scenario' if kind == 'scenario' else ''))
    ua, ba = antenna(env, fu), antenna(env, fb)
    v, e = env.attempt(lambda: cls(carrier_frequency=fc, ut_array=ua, bs_array=ba, direction=direction, elevation_angle=elev,
                                   precision=env.precision, **kw), AssertionError)
    return v, e


@harness(product(scen=list(SCEN), kind=['scenario', 'model'], direction=DIRS, opts=[0, 1]))
def carrier(env, scen, kind, direction, opts):
    kw = {} if not opts else dict(enable_pathloss=False, enable_shadow_fading=False, doppler_enabled=False)
    fc = env.real('fc', 1e8, 1e11)
    v, e = build(env, scen, kind, fc, fc, fc, 45.0, direction, **kw)
    good = ok_band(fc) if direction in ('uplink', 'downlink') else False
    if e is None:
        env.holds('accepted only if supported', good)
        s = v if kind == 'scenario' else v._scenario
        env.close('carrier kept', s.carrier_frequency / 1e9, fc / 1e9)
        env.close('wavelength', s.lambda_0 * 1e2, SPEED_OF_LIGHT / fc * 1e2, 1e-6)
        env.holds('direction kept', s.direction == direction)
    else:
        env.holds('refused only if unsupported', S.not_(S._tob(good)))


@harness(product(scen=list(SCEN), kind=['scenario', 'model'], direction=['uplink', 'downlink'], fc=[2e9, 20e9]))
def elevation(env, scen, kind, direction, fc):
    el = env.real('elev', -30.0, 200.0)
    v, e = build(env, scen, kind, fc, fc, fc, el, direction)
    good = S.and_(S.le(10.0, el), S.le(el, 90.0))
    if e is None:
        env.holds('accepted only in [10,90]', good)
        s = v if kind == 'scenario' else v._scenario
        env.close('elevation kept', s.elevation_angle, el)
    else:
        env.holds('refused only outside [10,90]', S.not_(good))


@harness(product(scen=list(SCEN), kind=['scenario', 'model'], which=['ut', 'bs', 'both']))
def carriers_match(env, scen, kind, which):
    fc, fa = env.real('fc', 1.9e9, 40e9), env.real('fa', 1e9, 1e11)
    env.assume(ok_band(fc))
    env.assume(S.or_(S.eq(fa, fc), S.or_(S.le(fa + 1e3, fc), S.le(fc + 1e3, fa))))
    v, e = build(env, scen, kind, fc, fa if which != 'bs' else fc, fa if which != 'ut' else fc, 45.0, 'downlink')
    if e is None:
        env.holds('accepted only for equal carriers', S.eq(fa, fc))
    else:
        env.holds('refused only for different carriers', S.not_(S.eq(fa, fc)))


@harness(product(scen=list(SCEN), bad=['none_ut', 'none_bs', 'str_ut']))
def arrays(env, scen, bad):
    a = antenna(env)
    ut = {'none_ut': None, 'str_ut': 'omni'}.get(bad, a)
    bs = None if bad == 'none_bs' else a
    cls = getattr(env.mod(), SCEN[scen] + 'Scenario')
    v, e = env.attempt(lambda: cls(carrier_frequency=2e9, ut_array=ut, bs_array=bs, direction='uplink', elevation_angle=45.0,
                                   precision=env.precision), AssertionError)
    env.holds('something that is no panel array is refused', e is not None)
