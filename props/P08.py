"""LoS state sampling."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = ('all uniform draws and all indoor patterns symbolic, 2 batch examples x 2 satellites x 2 users, also 1 x 1 x 3, 3 x 1 x 1, 1 x 3 x 2; no request / True / False; elevation symbolic inside each of the nine table columns, 3 scenarios, both bands and directions; '
          'histories of up to three updates')
ASSUMPTIONS = ['a uniform draw equal to the probability (measure zero) is excluded', 'expected probabilities: data/tables.json']
SIZES = [(2, 2, 2), (1, 1, 3), (3, 1, 1), (1, 3, 2)]


def make(env, scen, band, direction, angle):
    fc = 2e9 if band == 'S' else 2e10
    el = env.real('elev', max(10.0, angle - 5 + 1e-6), min(90.0, angle + 5 - 1e-6))
    return scenario(env, scen, fc, direction, el), param(scen, True, fc, direction, 'LoS_p', angle) / (100 if param(scen, True, fc, direction, 'LoS_p', angle) > 1 else 1)


def draw_of_link(env, s, t, shape):
    """which uniform draw decides which link (by setting single draws to 0, the others to just below 1)"""
    names = []

    def run(low):
        def f(kind, lo, hi, isint, name):
            if kind == 'uniform':
                if low is None:
                    names.append(name)
                return 0.0 if name == low or low == 'all' else 1 - 1e-9
            return 0.0
        base = env.F.RNG.k if env.sym else env.k
        with env.forced(f):
            s.set_topology(**dict(t, in_state=env.t(np.zeros((shape[0], shape[2]), dtype=bool).astype(object), 'b')))
        return env.arr(s.los), base
    rel = lambda n, base: (int(n[3:].split('_')[0]) - base, int(n.split('_')[1]))
    a, base = run(None)
    if env.sym:
        assert not any(isinstance(x, (B,)) and x not in (S.TRUE, S.FALSE) for x in a.reshape(-1))
    env.holds('no link is LoS for draws near 1', not any(bool(x) for x in a.reshape(-1)))
    out = {}
    links = list(np.ndindex(*shape))
    for r in [rel(n, base) for n in list(names)]:
        base2 = env.F.RNG.k if env.sym else env.k
        got, _ = run(f'rnd{r[0] + base2}_{r[1]}')
        for i in links:
            if bool(got[i]):
                env.holds(f'link {i} is decided by one draw', i not in out)
                out[i] = r
    env.holds('each link has its own draw', len(out) == len(links) and len(set(out.values())) == len(links))
    return out


@harness([dict(scen=s, band=b, direction=d, angle=a, size=SIZES[max(0, (3 * k + j) % 8 - 4)]) for k, a in enumerate(ANGLES) for j, s in enumerate(SCEN) for b, d in [(('S', 'downlink'), ('Ka', 'uplink'), ('S', 'uplink'), ('Ka', 'downlink'))[(j + k) % 4]]],
         product(scen=list(SCEN), band=['S', 'Ka'], direction=['downlink', 'uplink'], angle=ANGLES, size=SIZES))
def drawn(env, scen, band, direction, angle, size):
    shape = tuple(size)
    s, p = make(env, scen, band, direction, angle)
    t = topo(env, shape[0], shape[2], shape[1], indoor='sym')
    ind = env.arr(t['in_state'])
    d = draw_of_link(env, s, t, shape)
    base = env.F.RNG.k if env.sym else env.k
    us = {}

    def f(kind, lo, hi, isint, name):
        if kind != 'uniform':
            return 0.0
        us[name] = env.real('u_' + str(int(name[3:].split('_')[0]) - base) + '_' + name.split('_')[1], 0.0, 1 - 1e-9)
        return us[name]
    with env.forced(f):
        s.set_topology(**t)
    los = env.arr(s.los)
    env.shape('LoS states', s.los, shape)
    for i in np.ndindex(*shape):
        if i not in d:
            continue
        u = us[f'rnd{d[i][0] + base}_{d[i][1]}']
        env.assume(S.or_(S.le(u, p - 1e-9), S.le(p + 1e-9, u)))
        env.close(f'LoS state of link {i}', los[i], S.and_(S.lt(u, p), S.not_(ind[i[0], i[2]])))


@harness(product(scen=list(SCEN), first=[None, True, False], third=[None, True, False], size=[(2, 2, 2)]) + [dict(scen='urb', first=a, third=b, size=z) for a, b, z in ((True, None, (1, 1, 3)), (False, True, (3, 1, 1)), (True, False, (1, 3, 2)))])
def requests(env, scen, first, third, size):
    shape = tuple(size)
    s = scenario(env, scen, 2e9, 'downlink', 45.0)
    t = topo(env, shape[0], shape[2], shape[1], indoor='sym')
    ind = env.arr(t['in_state'])
    s.set_topology(**t, **({} if first is None else {'los': first}))

    def check(label, ind, req):
        los = env.arr(s.los)
        env.holds(f'{label}: one state per link', los.shape == shape)
        for i in np.ndindex(*shape):
            inside = S._tob(ind[i[0], i[2]]) if env.sym else bool(ind[i[0], i[2]])
            env.holds(f'{label}: indoor user not LoS {i}', S.not_(S.and_(los[i], inside)))
            if req is not None:
                env.close(f'{label}: request applies to link {i}', los[i], S.and_(req, S.not_(inside)))
    check('first update', ind, first)
    ind2 = env.bools('second', (shape[0], shape[2]))
    s.set_topology(in_state=env.t(ind2, 'b'))
    check('update of the indoor states', ind2, first)
    s.set_topology(ut_loc=t['ut_loc'], **({} if third is None else {'los': third}))
    check('third update', ind2, first if third is None else third)
