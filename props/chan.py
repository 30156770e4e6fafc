"""The channel model with its stages (large-scale parameters, rays, coefficients) observed or replaced."""
import contextlib
from .coef import *

STAGES = {'lsp': ('OpenNTN.lsp', 'LSPGenerator'), 'rays': ('OpenNTN.rays', 'RaysGenerator'), 'coefs': ('OpenNTN.channel_coefficients', 'ChannelCoefficientsGenerator')}
RAYS = ('delays', 'powers', 'aoa', 'aod', 'zoa', 'zod', 'xpr')


@contextlib.contextmanager
def patched(env, **fns):
    """replace methods: stage=function or stage__method=function, restored afterwards"""
    old = []
    try:
        for k, f in fns.items():
            stage, _, meth = k.partition('__')
            meth = meth or '__call__'
            mod, name = STAGES[stage]
            cls = getattr(env.mod(mod), name)
            old.append((cls, meth, cls.__dict__[meth]))
            setattr(cls, meth, f)
        yield
    finally:
        for cls, meth, f in reversed(old):
            setattr(cls, meth, f)


@contextlib.contextmanager
def watched(env, log, *stages):
    """record (stage, arguments, result) of every call of the stages, without changing them"""
    fns = {}
    for st in stages:
        mod, name = STAGES[st.partition('__')[0]]
        orig = getattr(env.mod(mod), name).__dict__[st.partition('__')[2] or '__call__']

        def f(self, *a, _o=orig, _s=st, **kw):
            r = _o(self, *a, **kw)
            log.append((_s, a, kw, r))
            return r
        fns[st] = f
    with patched(env, **fns):
        yield


def sym_array(env, name, shape, lo, hi):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = env.real(name + ''.join(f'_{k}' for k in i), lo, hi)
    return out


def make_lsp(env, shape, tag='', t=None):
    """-> (arrays by name, LSP)"""
    v = {n: sym_array(env, tag + n, shape, 1e-3, 50.0) for n in LSP_NAMES}
    L = env.mod('OpenNTN.lsp').LSP(**{n: env.t(v[n]) for n in LSP_NAMES})
    return v, L


def make_rays(env, shape, nc, nm, tag=''):
    v = {'delays': sym_array(env, tag + 'tau', shape + (nc,), 0.0, 10.0), 'powers': sym_array(env, tag + 'p', shape + (nc,), 0.0, 1.0)}
    for n in ('aoa', 'aod', 'zoa', 'zod'):
        v[n] = sym_array(env, tag + n, shape + (nc, nm), -PI if n[0] == 'a' else 0.0, PI)
    v['xpr'] = sym_array(env, tag + 'x', shape + (nc, nm), 1e-3, 1e4)
    return v, lambda: env.mod('OpenNTN.rays').Rays(**{n: env.t(v[n]) for n in RAYS})


def given(direction, a, axes=(0, 2, 1)):
    """array of [example, satellite, user, ...] in the order [example, transmitter, receiver, ...]"""
    if direction == 'downlink':
        return a
    return np.swapaxes(a, 1, 2)
