"""Random coupling of the rays inside a cluster."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = ('all angle values (degrees, +-360) and all permutations (a permutation matrix of Boolean variables per drawing; argsort of distinct keys is axiomatized as a permutation, the replay turns it into keys); '
          'the 20 rays and 2-4 clusters of the tables; 1-2 examples, 1-2 satellites, 1-3 users; LoS and NLoS')
ASSUMPTIONS = ['two of the continuous random keys are never equal']
KINDS = ('aoa', 'aod', 'zoa', 'zod')


def equals(v, x):
    """v == x with the selection made on Booleans"""
    if isinstance(v, N) and v.op == 'ite':
        c, a, b = v.args
        return S.or_(S.and_(c, equals(a, x)), S.and_(S.not_(c), equals(b, x)))
    if isinstance(v, N) and v.op == 'v' and isinstance(x, N) and x.op == 'v' and v is not x:
        return S.FALSE      # stronger than needed: another angle does not count, even if it has the same value
    return S.eq(v, x)


def setup(env, scen, band, angle, direction, states):
    s, r, g = ray_setup(env, scen, band, angle, direction, states)
    st = np.array(states, dtype=object)
    return s, r, st.shape + (cluster_max(scen, band, direction, angle), 20)


@harness([dict(args=a, perm='matrix') for a in (dict(scen='dur', band='S', angle=50, direction='downlink', states=[[['L', 'N']]]),
                                                dict(scen='urb', band='Ka', angle=20, direction='uplink', states=[[['N', 'L', 'N']]]),
                                                dict(scen='sur', band='S', angle=70, direction='downlink', states=[[['N'], ['L']], [['L'], ['L']]]))],
         [dict(args=dict(scen=a, band=b, angle=c, direction=d, states=[[['L', 'N']]]), perm='matrix') for a, b, c in RAY_CASES for d in ('uplink', 'downlink')]
         + [dict(args=dict(scen='sur', band='S', angle=70, direction='downlink', states=[[['N', 'L'], ['L', 'L']], [['L', 'N'], ['N', 'L']]]), perm='matrix')])
def permutes(env, **a):
    s, r, shape = setup(env, **a)
    ins = [env.reals(k, shape, -360.0, 360.0) for k in KINDS]
    n0 = len(env.drawlog)
    outs = r._random_coupling(*[env.t(x) for x in ins])
    permutation_facts(env)
    keys = env.drawlog[n0:]
    env.holds('own keys for the rays of every cluster, satellite, example and angle', len(keys) >= 4 * shape[0] * shape[1] * shape[3] * 20)
    for k, x, y in zip(KINDS, ins, outs):
        env.shape(k, y, shape)
        y = env.arr(y)
        for i in np.ndindex(*shape[:4]):
            for m in range(20):
                env.holds(f'{k} {m} of cluster {i} survives', S.or_(*[equals(y[i + (j,)], x[i + (m,)]) for j in range(20)]))


def forced_keys(groups, n, choice, op):
    """forcing function: local draw j of key set g is choice[g](j).  The sets are drawing operations of n draws each,
    or the four parts of one operation of 4n draws, along its first or its last axis"""
    if op is None:
        return forced_tensors({groups[g]: c for g, c in choice.items()})
    t, last = op
    return forced_tensors({t: lambda j: choice[j % 4](j // 4) if last else choice[j // n](j % n)})


def key_tensors(env, fn, n):
    """key set of each angle kind: fn() returns the four arrays, whose rays are reversed by descending keys.
    Returns {kind: set}, forcing function for a choice of key sets, arrays under ascending keys"""
    log = probe(env, fn)
    ops = [t for t, (k, c, isint) in enumerate(log) if c == n and not isint]
    same = lambda a, b: all(v is S.TRUE or v is True or isinstance(v, np.bool_) and bool(v) for v in (S.eq(x, y) for x, y in zip(a.flat, b.flat)))
    joint = [t for t, (k, c, isint) in enumerate(log) if c == 4 * n and not isint]
    layouts = [None] if len(ops) == 4 or len(joint) != 1 else [(joint[0], False), (joint[0], True)]
    if layouts == [None]:
        env.holds('one set of keys per angle kind', len(ops) == 4)
    best = {}, None, None
    for op in layouts:
        num = 4 if op else len(ops)
        force = lambda choice, op=op: env.forced(forced_keys(ops, n, choice, op))
        up = {g: (lambda j: float(j) / n) for g in range(num)}
        with force(up):
            base = fn()
        where = {}
        spread = [k for k in range(4) if not same(base[k], base[k][..., ::-1])]     # without cluster spread the order is invisible
        for g in range(num):
            with force({**up, g: lambda j: -float(j) / n}):
                x = fn()
            for k in spread:
                if same(x[k], base[k][..., ::-1]):
                    where.setdefault(k, g)
        if best[1] is None or len(where) > len(best[0]):
            best, found = (where, force, base), spread
    env.holds('every angle kind has its own keys', sorted(best[0]) == found and len(set(best[0].values())) == len(best[0]))
    return best + (range(4 if layouts[0] else len(ops)),)


@harness([dict(kind=k) for k in range(4)])
def independent(env, kind):
    """prescribed keys for one angle kind prescribe its order, whatever the keys of the other kinds are"""
    s, r, shape = setup(env, 'dur', 'S', 50, 'downlink', [[['L', 'N'], ['N', 'L']]])
    per = shape[0] * shape[1] * shape[3] * 20
    marks = [np.arange(np.prod(shape)).reshape(shape).astype(float) * 1e-2 - 100.0 + 0.001 * k for k in range(4)]
    where, force, _, sets = key_tensors(env, lambda: [env.arr(y) for y in r._random_coupling(*[env.t(x.astype(object)) for x in marks])], per)
    if len(where) < 4:
        return
    ins = [env.reals(k, shape, -360.0, 360.0) for k in KINDS]
    keys = np.random.default_rng(5).permutation(per).astype(float) / per
    ch = {t: (lambda j, t=t: env.real(f'free{t}_{j}', -6.0, 6.0) if env.sym else float(np.random.default_rng(1000 * t + j).normal())) for t in sets}
    ch[where[kind]] = lambda j: float(keys[j])
    with force(ch):
        outs = r._random_coupling(*[env.t(x) for x in ins])
    order = np.argsort(keys.reshape(shape[0], shape[1], shape[3], 20), axis=-1)
    x, y = ins[kind], env.arr(outs[kind])
    for i in np.ndindex(*shape[:4]):
        for m in range(20):
            env.close(f'{KINDS[kind]} {i} {m}', y[i + (m,)], x[i + (int(order[i[0], i[1], i[3], m]),)])


@harness([dict(scen=a, band=b, angle=c, direction=d) for (a, b, c), d in zip(RAY_CASES[:4], ('uplink', 'downlink', 'uplink', 'downlink'))])
def in_rays(env, scen, band, angle, direction):
    """the generator couples each angle kind: the rays of aoa, aod, zoa and zod are reversed by their own keys"""
    st = np.array([[['L', 'N']]], dtype=object)
    s, r, g = ray_setup(env, scen, band, angle, direction, st.tolist(), h=100e3)
    sh = st.shape
    sp = [env.reals(n, sh, 1.0, 20.0) for n in ('asd', 'asa', 'zsa', 'zsd')]
    one = lambda v: env.t(np.full(sh, v, dtype=object))
    l = env.mod().LSP(one(1e-7), env.t(sp[0]), env.t(sp[1]), one(1.0), one(7.0), env.t(sp[2]), env.t(sp[3]))
    cm = cluster_max(scen, band, direction, angle)

    def run():
        x = r(l)
        return [env.arr(getattr(x, k)) for k in KINDS]
    n = sh[0] * sh[1] * cm * 20
    where, force, base, sets = key_tensors(env, run, n)
    for k in sorted(where):
        with force({t: (lambda j, t=t: (-1.0 if t == where[k] else 1.0) * float(j) / n) for t in sets}):
            x = run()
        for k2 in range(4):
            env.close(f'{KINDS[k2]} with reversed {KINDS[k]}', x[k2], base[k2][..., ::-1] if k2 == k else base[k2])
