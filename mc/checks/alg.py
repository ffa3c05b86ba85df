"""Algorithms under test and training data for them."""
from .util import *

PLS = ('PLS1', 'SIMPLS', 'NIPALS', 'KernelPLS', 'OPLS', 'VCPLS', 'CCARegression', 'SparsePLS', 'PRM', 'DIPLS')
MOD = {'PCA': 'wai.ma.algorithm._PCA', 'CCAFilter': 'wai.ma.algorithm._CCAFilter', 'FastICA': 'wai.ma.algorithm.ica._FastICA',
       'GLSW': 'wai.ma.algorithm.glsw._GLSW', 'EPO': 'wai.ma.algorithm.glsw._EPO', 'YGradientGLSW': 'wai.ma.algorithm.glsw._YGradientGLSW',
       'YGradientEPO': 'wai.ma.algorithm.glsw._YGradientEPO'}

BASE = [[1, 2, 0], [3, -1, 2], [-2, 0, 1], [0, 4, -3], [5, 1, 1], [-1, -2, 4]]
RESP = [2, 5, -3, 1, 7, -4]


def cls(env, which):
    return getattr(env.lib(MOD.get(which, 'wai.ma.algorithm.pls._' + which)), which)


def cg(env, g):
    return [[env.const(v) if not hasattr(v, 'rec') else v for v in r] for r in g]


def line(env, n, p, s=None, k=0):
    """Fixed predictors, response on a line through response space (symbolic parameter s)."""
    x = [[env.const(BASE[(i + k) % 6][j % 3] + (i + k) // 6 * (j + 1) + j // 3 * i) for j in range(p)] for i in range(n)]
    y = [[env.const(RESP[(i + k) % 6] + i // 6)] for i in range(n)]
    if s is not None:
        for i in range(n):
            y[i][0] = y[i][0] + s * ((i * i + 1) % 3)
    return x, y


def wide(env, n, p):
    """More columns than rows, rows in general position."""
    x = [[env.const(BASE[i % 6][j % 3] + (i * i * 7 + j * j * 5 + i * j * 3) % 11 - 5) for j in range(p)] for i in range(n)]
    return x, [[env.const(RESP[i % 6] + i // 6)] for i in range(n)]


PROFILES = ('centred', 'short', 'tall', 'scaled', 'constant', 'repeated')


def profile(env, name, p=3):
    """Fixed training sets whose shape takes the less travelled branches."""
    n = {'short': p + 1 if p < 4 else p, 'tall': 26, 'wide': 4}.get(name, 8)
    x, y = line(env, n, p)
    if name == 'centred':  # column means exactly zero
        for g in (x, y):
            for j in range(len(g[0])):
                g[-1][j] = -vsum([r[j] for r in g[:-1]])
    if name == 'scaled':
        f = [env.const(c) for c in ('1/64', '256', '1')]
        x = [[v * f[j % 3] for j, v in enumerate(r)] for r in x]
        y = [[v * 128 for v in r] for r in y]
    if name == 'constant':
        for r in x:
            r[p - 1] = env.const(7)
    if name == 'repeated':  # the same samples measured twice
        x, y = x[:5] + [list(r) for r in x[:3]], y[:5] + [list(r) for r in y[:3]]
    return x, y


def suits(which, prof, p=3):
    """Whether the profile has the rank the algorithm needs (otherwise its result is rounding noise or a refusal)."""
    return not (which == 'DIPLS' and prof == 'short' or which == 'CCARegression' and prof == 'short' and p > 3 or which == 'OPLS' and prof == 'constant')


def setup(env, a, which, nc=2):
    """Options that suit the small training sets."""
    if which in PLS:
        a.num_components = nc
    if which == 'OPLS':
        a.num_components = 1
        a.base_PLS.num_components = nc
    if which == 'KernelPLS':
        a.kernel = env.lib('wai.ma.transformation.kernel').LinearKernel()
    if which in ('EPO', 'YGradientEPO'):
        a.N = nc
    return a


def make(env, which, nc=2, opts=()):
    a = setup(env, cls(env, which)(), which, nc)
    for k, v in opts:
        setattr(a, k, v)
    return a


def train(env, a, which, x, y):
    """Trains with predictors x and response y (lists of rows)."""
    if which == 'DIPLS':
        h = len(x) // 2
        return a.initialize_supervised(env.M(x[:h]), env.M(x[h:]), env.M(y[:h]), env.M(y[h:]))
    if which in ('GLSW', 'EPO'):
        return a.initialize(env.M(x), env.M([[x[i][j] * (2 + j) - y[i][0] for j in range(len(x[0]))] for i in range(len(x))]))
    return a.initialize(env.M(x), env.M(y))


MULTI = ('NIPALS', 'KernelPLS', 'CCARegression')
SINGLE = tuple(w for w in PLS if w not in MULTI)
TRAINED = PLS + ('CCAFilter', 'GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO')
