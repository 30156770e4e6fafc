"""One real gain per link."""
from .chan import *
from .P25 import build, draws_by_index

HARNESSES, harness = registry()
BOUNDS = ('all coefficients, path losses 0-400 dB, shadow-fading values, all four flag combinations, both directions, all scenarios; 1-2 examples, 1-2 satellites, 1-3 users, 1-4 elements, 2 paths, 1-2 times; with the real path loss: all user positions, satellite heights 600-36000 km and shadow-fading values for given draws, mixed link states, both bands')
ASSUMPTIONS = ['the path loss of a link is that of P05 and P06']


def call(env, m, t, lsp, mk, h, d, n, draws, pl=None):
    fns = dict(lsp=lambda self: lsp, rays=lambda self, l: mk(), coefs=lambda self, *x, **kw: (env.t(h, 'c'), env.t(d)))
    if pl is not None:
        fns['lsp__sample_pathloss'] = lambda self: env.t(pl)
    with patched(env, **fns), env.forced(draws):
        m.set_topology(**t)
        H, _ = m(n, 1e6)
    return env.arr(H)


def coefficients(env, shape):
    h = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        k = '_'.join(map(str, i))
        re, im = env.real('hr' + k, -1.0, 1.0), env.real('hi' + k, -1.0, 1.0)
        h[i] = CX(re, im) if env.sym else complex(re, im)
    return h


FLAGS = [(True, True), (True, False), (False, True), (False, False)]
CASES = [dict(scen=s, direction=d, size=z, pl=p, sf=f) for (s, d, z) in (('dur', 'downlink', (2, 1, 3)), ('urb', 'uplink', (2, 1, 3)), ('sur', 'uplink', (1, 2, 2))) for p, f in FLAGS]


def setup(env, scen, direction, size, pl, sf, n=2, fc=2e9, **kw):
    size = tuple(size)
    nb, ns, nu = size
    up = direction == 'uplink'
    m, t, lv, lsp, eut, ebs = build(env, scen, direction, size, fc=fc, enable_pathloss=pl, enable_shadow_fading=sf, **kw)
    rv, mk = make_rays(env, size, 1, 1)
    ntx, nrx, a, b = (nu, ns, ebs.n, eut.n) if up else (ns, nu, eut.n, ebs.n)
    h = coefficients(env, (nb, ntx, nrx, 2, a, b, n))
    d = sym_array(env, 'd', (nb, ntx, nrx, 2), 0.0, 10.0)
    return m, t, lv, lsp, mk, h, d


def expect(env, direction, H, h, PL, SF, what, rescale=False):
    for b, r, a, x, e, p, k in np.ndindex(*H.shape):
        s, u = (r, x) if direction == 'uplink' else (x, r)
        w = h[b, x, r, p, a, e, k]
        got = H[b, r, a, x, e, p, k]
        if PL is not None and rescale:
            got = got * 10.0 ** (PL[b, s, u] / 20)
        elif PL is not None:
            w = w * 10.0 ** (-1 * PL[b, s, u] / 20)
        if SF is not None:
            w = w * S.sqrt(SF[b, s, u])
        env.close(f'{what} example {b} receiver {r, a} transmitter {x, e} path {p} time {k}', got, w, tol=1e-7)


@harness(CASES, product(scen=list(SCEN), direction=['downlink', 'uplink'], size=[(2, 1, 3), (1, 2, 2), (2, 2, 1)], pl=[True, False], sf=[True, False]))
def gain(env, scen, direction, size, pl, sf):
    m, t, lv, lsp, mk, h, d = setup(env, scen, direction, size, pl, sf)
    PL = sym_array(env, 'pl', tuple(size), 0.0, 400.0)
    H = call(env, m, t, lsp, mk, h, d, 2, const_draws(), PL)
    expect(env, direction, H, h, PL if pl else None, lv['sf'] if sf else None, '')


@harness([dict(scen='dur', direction='downlink', size=(1, 1, 2), sf=True, band='S'), dict(scen='urb', direction='uplink', size=(1, 1, 2), sf=True, band='Ka'), dict(scen='sur', direction='uplink', size=(1, 2, 2), sf=False, band='S')],
         product(scen=list(SCEN), direction=['downlink', 'uplink'], size=[(2, 1, 2), (1, 2, 2)], sf=[True, False], band=['S', 'Ka']))
def real_pathloss(env, scen, direction, size, sf, band):
    """with the path loss of the model itself"""
    fc = 2e9 if band == 'S' else 2e10
    m, t, lv, lsp, mk, h, d = setup(env, scen, direction, size, True, sf, n=1, fc=fc, ut='V', sym=('ut_loc', 'h'))
    H = call(env, m, t, lsp, mk, h, d, 1, draws_by_index)
    sc = m._scenario
    g = lambda x: env.arr(getattr(sc, x))
    PL = np.broadcast_to(g('basic_pathloss'), tuple(size)) + np.broadcast_to(g('gas_pathloss'), tuple(size)) + np.broadcast_to(g('scintillation_pathloss'), tuple(size)) + np.broadcast_to(g('entry_pathloss'), tuple(size))
    expect(env, direction, H, h, PL, lv['sf'] if sf else None, '', True)
