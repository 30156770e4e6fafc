"""Correlation matrix helpers."""
from .common import *

HARNESSES, harness = registry()
BOUNDS = 'all complex a with |a| < 1 - 1e-6 (zero included), all angles +-360 degrees, angular spreads 0-60 degrees, spacings 0-10 wavelengths; sizes 1-9, scalars and batches of shape (2,), (3,) and (2,2)'
ASSUMPTIONS = []


def cx(env, re, im):
    return CX(re, im) if env.sym else complex(re, im)


@harness([dict(n=n, batch=b) for n, b in ((1, ()), (4, ()), (3, (2,)), (2, (2, 2)), (5, ()), (9, ()), (3, (3,)))])
def exponential(env, n, batch):
    batch = tuple(batch)
    a = np.empty(batch, dtype=object)
    for i in np.ndindex(*batch):
        k = '_'.join(map(str, i))
        re, im = env.real('re' + k, -1.0, 1.0), env.real('im' + k, -1.0, 1.0)
        env.assume(S.le(re * re + im * im, (1 - 1e-6) ** 2))
        env.assume(S.le(1e-9, re * re + im * im))
        a[i] = cx(env, re, im)
    r = env.mod('OpenNTN.utils').exp_corr_mat(env.t(a, 'c'), n, precision=env.precision)
    env.shape('matrix', r, batch + (n, n))
    r = env.arr(r)
    for i in np.ndindex(*batch):
        p = [cx(env, 1.0, 0.0)]
        for _ in range(1, n):
            p.append(p[-1] * a[i])
        for j in range(n):
            for k in range(n):
                w = p[abs(j - k)]
                env.close(f'entry {i} {j, k}', r[i + (j, k)], w if j >= k else w.conjugate(), tol=1e-6)


@harness([{}])
def zero(env):
    """a = 0 gives the identity, also inside a batch"""
    U = env.mod('OpenNTN.utils')
    x = env.real('x', -0.9, 0.9)
    env.assume(S.le(0.01, x))
    r = env.arr(U.exp_corr_mat(env.t(np.array([cx(env, 0.0, 0.0), cx(env, x, 0.0)], dtype=object), 'c'), 3, precision=env.precision))
    env.close('zero', r[0], np.eye(3), tol=1e-9)
    env.close('other', r[1], np.array([[1.0, x, x * x], [x, 1.0, x], [x * x, x, 1.0]], dtype=object), tol=1e-6)


@harness([dict(batch=()), dict(batch=(2,))])
def refusal(env, batch):
    """|a| >= 1 is refused"""
    U = env.mod('OpenNTN.utils')
    re, im = env.real('re', -2.0, 2.0), env.real('im', -2.0, 2.0)
    env.assume(S.le(1.0 + 1e-6, re * re + im * im))
    a = cx(env, re, im)
    a = np.array([cx(env, 0.25, 0.5), a], dtype=object) if batch else np.array(a, dtype=object).reshape(())
    r, e = env.attempt(lambda: U.exp_corr_mat(env.t(a, 'c'), 3, precision=env.precision))
    env.holds('refused', e is not None)


@harness([dict(n=n, batch=b, defaults=d) for n, b, d in ((4, (), True), (4, (), False), (3, (2,), False), (2, (2, 2), True), (1, (), False), (9, (), False), (3, (3,), True))])
def one_ring(env, n, batch, defaults):
    batch = tuple(batch)
    phi = np.empty(batch, dtype=object)
    for i in np.ndindex(*batch):
        phi[i] = env.real('phi' + '_'.join(map(str, i)), -360.0, 360.0)
    kw, d, s = {}, 0.5, 15.0
    if not defaults:
        s = env.real('s', 0.0, 60.0)
        d = 0.3
        kw = dict(sigma_phi_deg=s, d_h=d)
    r = env.mod('OpenNTN.utils').one_ring_corr_mat(env.t(phi), n, precision=env.precision, **kw)
    env.shape('matrix', r, batch + (n, n))
    r = env.arr(r)
    for i in np.ndindex(*batch):
        p, g = phi[i] * (PI / 180), s * (PI / 180)
        for j in range(n):
            for k in range(n):
                m = abs(j - k)
                ph = 2 * PI * d * m * S.sin(p)
                w = cx(env, S.cos(ph), S.sin(ph)) * S.exp(-0.5 * (g * 2 * PI * d * m * S.cos(p)) ** 2)
                env.close(f'entry {i} {j, k}', r[i + (j, k)], w if j >= k else w.conjugate(), tol=1e-6)


@harness([dict(d=d) for d in (0.0, 0.25, 1.0, 7.3)])
def spacing(env, d):
    phi = env.real('phi', -360.0, 360.0)
    r = env.arr(env.mod('OpenNTN.utils').one_ring_corr_mat(env.t(np.array(phi, dtype=object).reshape(())), 2, d_h=d, sigma_phi_deg=10, precision=env.precision))
    p = phi * (PI / 180)
    ph = 2 * PI * d * S.sin(p)
    env.close('lower', r[1, 0], cx(env, S.cos(ph), S.sin(ph)) * S.exp(-0.5 * (10 * PI / 180 * 2 * PI * d * S.cos(p)) ** 2), tol=1e-6)
