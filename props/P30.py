"""Links and batch examples do not influence each other: every stage is run twice with the same draws, all parameters of the other
links being other variables in the second run; the observed link must come out the same."""
from .chan import *

HARNESSES, harness = registry()
BOUNDS = ('two or three batch examples or users (also two or three satellites); all parameters of the other links (independent values in the two compared runs), and all parameters of the observed link in the coefficient stage; '
          'ray stage: one symbolic large-scale parameter set per link, draws fixed numbers; end to end: locations, orientations, velocities, indoor and LoS states of the other users, large-scale parameters of the observed link fixed numbers; satellite heights 100-36000 km')
ASSUMPTIONS = ['the random draws of both runs are the same; the end-to-end runs use fixed draws']


def copy_link(dst, src, b, s, u, moving):
    """dst's parameters of one link := those of src"""
    for x, y in zip(dst.ang + dst.losang + [dst.powers, dst.delays, dst.xpr, dst.d3d, dst.los], src.ang + src.losang + [src.powers, src.delays, src.xpr, src.d3d, src.los]):
        x[b, s, u] = y[b, s, u]
    dst.o_tx[b, s], dst.o_rx[b, u] = src.o_tx[b, s], src.o_rx[b, u]
    k = u if moving == 'rx' else s
    dst.vel[b, k] = src.vel[b, k]
    k = s if moving == 'rx' else u
    dst.h[b, k] = src.h[b, k]


CO = [dict(sizes=(1, 1, 2, 1, 1), moving='rx', link=(0, 0, 0)), dict(sizes=(1, 1, 2, 1, 1), moving='rx', link=(0, 0, 1)), dict(sizes=(2, 1, 1, 1, 1), moving='rx', link=(1, 0, 0)), dict(sizes=(1, 2, 1, 1, 1), moving='tx', link=(0, 1, 0)),
      dict(sizes=(2, 1, 1, 2, 1), moving='tx', link=(0, 0, 0)), dict(sizes=(2, 2, 2, 1, 1), moving='rx', link=(1, 0, 1)), dict(sizes=(1, 2, 1, 2, 2), moving='tx', link=(0, 0, 0), high=True), dict(sizes=(2, 1, 2, 1, 1), moving='rx', link=(0, 0, 1), high=True),
      dict(sizes=(1, 1, 3, 1, 1), moving='rx', link=(0, 0, 1)), dict(sizes=(3, 1, 1, 1, 1), moving='rx', link=(2, 0, 0)), dict(sizes=(1, 3, 1, 1, 1), moving='tx', link=(0, 1, 0))]
CO += [dict(sizes=(2, 1, 1, 1, 1), moving='tx', link=(0, 0, 0), high=None), dict(sizes=(1, 2, 1, 1, 1), moving='rx', link=(0, 1, 0), high=None), dict(sizes=(2, 2, 1, 1, 1), moving='rx', link=(1, 0, 0), high=None), dict(sizes=(2, 1, 2, 1, 1), moving='tx', link=(0, 0, 1), high=None)]
CO = [dict(c, ants=('V', 'VH') if k % 2 else ('VH', 'V'), doppler=bool(k % 3 == 0 or c.get("high", 0) is None), sub=False, high=c.get('high', False)) for k, c in enumerate(CO)]


@harness(CO + [dict(CO[0], sizes=(1, 1, 2, 2, 20), sub=True, ants=('V', 'V')), dict(CO[2], sizes=(2, 1, 1, 2, 20), sub=True, ants=('V', 'V'))],
         [dict(c, doppler=d, ants=a) for c in CO for d in (False, True) for a in (('V', 'VH'), ('VH', 'VH'), ('H2', 'V'))] + [dict(c, sizes=tuple(c['sizes'][:3]) + (3, 20), sub=True, ants=('V', 'V')) for c in CO], budget=600)
def coefficients(env, sizes, moving, link, ants, doppler, sub, high):
    sizes, link = tuple(sizes), tuple(link)
    b, s, u = link
    nb, nt, nr, nc, nm = sizes
    heights = (100e3, 36000e3) if high is None else (601e3, 36000e3) if high else (100e3, 599e3)
    kw = dict(moving=moving, fc=2.1e9, heights=heights, doppler=doppler, subclustering=sub, angles=not sub, orient=not sub)
    A = Setup(env, *ants, sizes, tag='A', **kw)
    B_ = Setup(env, *ants, sizes, tag='B', **kw)
    copy_link(B_, A, b, s, u, moving)
    M = env.mod('OpenNTN.channel_coefficients')
    t = env.t
    out = []
    KA, KB = (sym_array(env, n + 'K', sizes[:3], 0.0, 100.0) for n in 'AB')
    cA, cB = (sym_array(env, n + 'c', sizes[:3], 0.5, 20.0) for n in 'AB')
    KB[link], cB[link] = KA[link], cA[link]
    if sub:
        # the two strongest clusters are divided: fixed order of the powers, the same one in no two links
        for x, sh in ((A, 0), (B_, 1)):
            for i in np.ndindex(*sizes[:3]):
                for c in range(nc):
                    x.powers[i + (c,)] = 0.1 + 0.1 * ((c + (0 if i == link else sh + i[2] + i[0])) % nc)
                    x.delays[i + (c,)] = 0.1 * c + (0.0 if i == link else 0.01 * sh)
    for x, K, c in ((A, KA, cA), (B_, KB, cB)):
        rays = env.mod('OpenNTN.rays').Rays(t(x.delays), t(x.powers), *[t(y) for y in x.ang], t(x.xpr))
        with env.forced(const_draws() if sub else keyed(env)):
            top = M.Topology(t(x.vel), moving, *[t(y) for y in x.losang], t(x.los, 'b'), t(x.d3d), t(x.o_tx), t(x.o_rx), t(x.h), 45.0, doppler)
            out.append(x.gen(2, 1e6, t(K), rays, top, t(c * 1e-9)))
    (hA, dA), (hB, dB) = out
    env.close('coefficients', env.arr(hA)[link], env.arr(hB)[link], tol=1e-6)
    env.close('delays', env.arr(dA)[link], env.arr(dB)[link], tol=1e-6)


def two_lsp(env, shape, link):
    vA, _ = make_lsp(env, shape, 'A')
    vB, _ = make_lsp(env, shape, 'B')
    for n in LSP_NAMES:
        for i in np.ndindex(*shape):
            for v, k in ((vA, 0), (vB, 1)):
                if n == 'ds':
                    v[n][i] = v[n][i] * 1e-7
                if n == 'k_factor':
                    v[n][i] = v[n][i] + 0.2
        vB[n][link] = vA[n][link]
    LSP = env.mod('OpenNTN.lsp').LSP
    return vA, vB, [LSP(**{n: env.t(v[n]) for n in LSP_NAMES}) for v in (vA, vB)]


RS = [dict(states=([[['L', 'N']]], [[['L', 'L']]]), link=(0, 0, 0)), dict(states=([[['L', 'N']]], [[['N', 'N']]]), link=(0, 0, 1)), dict(states=([[['L']], [['N']]], [[['L']], [['L']]]), link=(0, 0, 0)),
      dict(states=([[['N'], ['L']]], [[['N'], ['N']]]), link=(0, 0, 0)), dict(states=([[['L', 'N', 'L']]], [[['N', 'N', 'N']]]), link=(0, 0, 1)), dict(states=([[['N']], [['L']], [['L']]], [[['L']], [['L']], [['N']]]), link=(1, 0, 0))]
RS = [dict(c, scen=('dur', 'urb', 'sur')[k % 3], band=('S', 'Ka')[k % 2], angle=(10, 70, 80, 50, 30, 90)[k], direction=('downlink', 'uplink')[k // 2 % 2]) for k, c in enumerate(RS)]


@harness(RS, [dict(c, scen=s, band=b, angle=a) for c in RS for s in SCEN for b, a in (('S', 10), ('Ka', 70), ('S', 90))], budget=600, perm='fork')
def rays(env, states, link, scen, band, angle, direction):
    """rays of a link for other parameters, states and locations of the others"""
    link = tuple(link)
    out = []
    st = np.array(states[0], dtype=object)
    vA, vB, Ls = two_lsp(env, st.shape, link)
    for k, L in enumerate(Ls):
        s = scenario(env, scen, 2e9 if band == 'S' else 2e10, direction, float(angle))
        nb, ns, nu = st.shape
        t = topo(env, nb, nu, ns)
        if k:
            for n in ('ut_loc', 'bs_loc'):
                a = env.arr(t[n]).copy()
                for i in np.ndindex(a.shape[0], a.shape[1]):
                    if i != (link[0], link[2] if n == 'ut_loc' else link[1]):
                        a[i] = [a[i][0] * 1.5 + 1e4, a[i][1] * 0.5, a[i][2] * 1.25]
                t[n] = env.t(a)
        set_states(env, s, t, states[k])
        r = env.mod().RaysGenerator(s)
        r.topology_updated_callback()
        with env.forced(const_draws()):
            out.append(r(L))
    for n in RAYS:
        a, b = env.arr(getattr(out[0], n)), env.arr(getattr(out[1], n))
        if n in ('aoa', 'aod', 'zoa', 'zod', 'xpr'):
            # clusters without power count for nothing
            m = min(a.shape[3], b.shape[3])
            nc = clusters(lambda i, x: param(scen, st[i] == 'L', 2e9 if band == 'S' else 2e10, direction, x, angle), link)
            a, b = a[link][:nc], b[link][:nc]
        else:
            a, b = (x[link] * (1e9 if n == 'delays' else 1.0) for x in (a, b))
        env.close(n, a, b, tol=1e-5)


EE = [dict(scen=s, direction=d, size=z, link=l, what=w) for s, d, z, l, w in (
    ('dur', 'downlink', (1, 1, 2), (0, 0, 0), 'vel'), ('urb', 'uplink', (1, 1, 2), (0, 0, 1), 'vel'), ('sur', 'downlink', (1, 1, 2), (0, 0, 1), 'state'), ('dur', 'uplink', (1, 1, 2), (0, 0, 0), 'state'),
    ('urb', 'downlink', (2, 1, 1), (0, 0, 0), 'vel'), ('sur', 'uplink', (2, 1, 1), (1, 0, 0), 'loc'), ('urb', 'downlink', (1, 1, 2), (0, 0, 0), 'loc'), ('dur', 'uplink', (1, 1, 2), (0, 0, 1), 'or'), ('dur', 'downlink', (2, 1, 1), (0, 0, 0), 'or'), ('sur', 'downlink', (1, 1, 3), (0, 0, 1), 'vel'), ('urb', 'uplink', (1, 1, 3), (0, 0, 2), 'loc'))]


@harness(EE, [dict(c, scen=s, direction=d) for c in EE for s in SCEN for d in ('downlink', 'uplink')], budget=600, perm='fork')
def end_to_end(env, scen, direction, size, link, what):
    """the whole model; the large-scale parameters are given when users of one example are compared"""
    size, link = tuple(size), tuple(link)
    nb, ns, nu = size
    b, s, u = link
    out = []
    rng = np.random.default_rng(5)
    lv = {n: rng.uniform(0.5, 2.0, size).astype(object) * (1e-7 if n == 'ds' else 10.0 if n[0] in 'az' else 1.0) for n in LSP_NAMES}
    L = env.mod('OpenNTN.lsp').LSP(**{n: env.t(lv[n]) for n in LSP_NAMES})
    for k in range(2):
        m = model(env, scen, 2e9, direction, 40.0, enable_pathloss=True)
        t = topo(env, nb, nu, ns)
        a = {n: env.arr(t[n]).copy() for n in t}
        for i in np.ndindex(nb, nu):
            if i == (b, u):
                continue
            j = f'{"AB"[k]}{i[0]}_{i[1]}'
            if what == 'vel':
                a['ut_velocities'][i] = env.reals('v' + j, 3, -300.0, 300.0)
            if what == 'or':
                a['ut_orientations'][i] = env.reals('o' + j, 3, -PI, PI)
            if what == 'loc':
                a['ut_loc'][i] = [env.real('x' + j, 1e5, 3e6), env.real('y' + j, 1e5, 3e6), env.real('z' + j, 1.0, 20.0)]
            if what == 'state':
                a['in_state'][i] = False
        if nb > 1:
            for i in np.ndindex(nb, ns):
                if i[0] != b:
                    a['bs_loc'][i] = [env.real(f'hx{k}{i[0]}', -1e6, 0.0), 1e4, env.real(f'h{k}{i[0]}', 600e3, 36000e3)] if what == 'loc' else a['bs_loc'][i]
                    a['bs_orientations'][i] = env.reals(f'bo{k}{i[0]}_{i[1]}', 3, -PI, PI) if what == 'or' else a['bs_orientations'][i]
        t = {n: env.t(x, 'b') if n == 'in_state' else env.t(x) for n, x in a.items()}
        states = np.full(size, 'L', dtype=object)
        if what == 'state':
            for i in np.ndindex(*size):
                states[i] = 'L' if i == link or k else 'N'
        with patched(env, **({'lsp': lambda self: L} if nb == 1 else {})):
            set_states(env, m, t, states.tolist())
            with env.forced(const_draws()):
                H, d = m(2, 1e6)
        out.append((env.arr(H), env.arr(d)))
    for n, x, y in (('coefficients', out[0][0], out[1][0]), ('delays', out[0][1], out[1][1])):
        if direction == 'downlink':
            x, y = x[b, u], y[b, u]
        else:
            x, y = x[b, :, ..., :] if x.ndim == 4 else x[b], y[b]
            x, y = (x[:, :, u], y[:, :, u]) if n == 'coefficients' else (x[:, u], y[:, u])
        sc = 1e9 if n == 'delays' else 1.0
        # relative to the size of the link's own coefficients
        env.shape(n, y, x.shape)
        if n == 'coefficients':
            big = max(abs(complex(S.tocx(v).re, S.tocx(v).im) if env.sym else v) for v in x.reshape(-1) if not env.sym or not isinstance(S.tocx(v).re, N))
            sc = 1.0 / big
        env.close(n, x * sc, y * sc, tol=1e-5)
