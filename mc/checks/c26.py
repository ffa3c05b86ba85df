"""Interference weighting (GLSW, EPO and their response-gradient variants): the weighting matrix is the documented function of the difference covariance."""
from .alg import *
from fractions import Fraction
from .pls_ref import means, devs, shift

BOUNDS = ('all four filters; pairs of matrices of 5-9 rows and 1-5 columns; strengths and numbers of directions: every value up to 8 (EPO), '
          'listed strengths (GLSW); all real new rows; the response-gradient covariance for all response orders of 5 rows')
ASSUMPTIONS = ['fixed training data run in double arithmetic, results equal up to 1e-9 relative']


def data(env, n, p, k):
    x, y = line(env, n, p, k=k) if p < n else wide(env, n, p)
    x2 = [[x[i][j] * (2 + j) - y[i][0] + (i * j) % 3 for j in range(p)] for i in range(n)]
    return x, x2, y


def difference(x1, x2):
    a, b = shift(x1, means(x1)), shift(x2, means(x2))
    d = emap(lambda u, v: v - u, a, b)
    return matmul(tr(d), d)


def gradient(env, x, y):
    """Covariance of the row gradients in response order, weighted with 4^-(dy/sd)."""
    order = sorted(range(len(y)), key=lambda i: y[i][0])
    def five(g):
        e = [g[0], g[0]] + g + [g[-1], g[-1]]
        c = [env.const('1/5'), env.const('1/10'), 0, env.const('-1/10'), env.const('-1/5')]   # direction: see 'gradient direction'
        return [[vsum([e[i + q][j] * c[q] for q in range(5)]) for j in range(len(g[0]))] for i in range(len(g))]
    xd, yd = five([x[i] for i in order]), five([y[i] for i in order])
    sd = devs(env, yd)[0]
    w = [env.exp(-2 * env.log(env.const(2)) * r[0] / sd) for r in yd]
    return matmul(tr([[v * f for v in r] for r, f in zip(xd, w)]), xd)


def covariance(env, which, x, x2, y):
    return difference(x, x2) if which in ('GLSW', 'EPO') else gradient(env, x, y)


def fit(env, which, n, p, k, opts):
    a = cls(env, which)()
    for o, v in opts:
        setattr(a, o, v)
    env.doubles()
    x, x2, y = data(env, n, p, k)
    r = a.initialize(env.M(x), env.M(x2 if which in ('GLSW', 'EPO') else y))
    env.check('trained', env.lit(r is None, r))
    return a, covariance(env, which, x, x2, y)


def epo(env, which, n, p, k, hi=8):
    """G projects onto the dominant directions of the covariance."""
    z = grid(env, 'z', 2, p)
    N = idx(env, 'N', 1, hi)
    a, C = fit(env, which, n, p, k, (('N', N),))
    G = data_of(a.G)
    m = min(N, p)
    env.check('shape', env.lit(len(G) == p and len(G[0]) == p))
    env.check('symmetric', env.eq(G, tr(G)))
    env.check('idempotent', env.eq(matmul(G, G), G))
    env.check('as many directions as asked for', env.eq(vsum([G[i][i] for i in range(p)]), m))
    env.check('invariant under the covariance', env.eq(matmul(G, C), matmul(C, G)))
    env.check('applied', env.eq(a.transform(env.M(z)), matmul(z, G)))
    # the dominant ones: every other projector of the family captures less; compare the captured variance with the sum of the N largest eigenvalues
    prev = 0
    caps = []
    for q in range(1, min(p, hi) + 1):
        b, _ = fit(env, which, n, p, k, (('N', q),))
        cap = vsum([matmul(data_of(b.G), C)[i][i] for i in range(p)])
        caps.append(cap - prev)
        prev = cap
    env.check('directions in order of dominance', *[env.ge(caps[i] * (1 + 1e-9) + 1e-9, caps[i + 1]) for i in range(len(caps) - 1)])
    env.check('captured variance', env.eq(vsum([matmul(G, C)[i][i] for i in range(p)]), vsum(caps[:m])))


def glsw(env, which, n, p, k, alpha):
    z = grid(env, 'z', 2, p)
    a, C = fit(env, which, n, p, k, (('alpha', alpha),))
    G = data_of(a.G)
    env.check('symmetric', env.eq(G, tr(G)))
    env.check('function of the covariance', env.eq(matmul(G, C), matmul(C, G)))
    env.check('applied', env.eq(a.transform(env.M(z)), matmul(z, G)))
    # eigenvalues of G are 1/sqrt(s^2/alpha + 1): trace of the inverse square is known whatever the pairing
    Gi = inv(G)
    CC = matmul(C, C)
    env.check('weights', env.eq(vsum([matmul(Gi, Gi)[i][i] for i in range(p)]), vsum([CC[i][i] / env.const(alpha) + 1 for i in range(p)])))


def wide_glsw(env, which, n, p, alpha):
    """More columns than rows: every direction gets its own weight."""
    z = grid(env, 'z', 1, p)
    a, C = fit(env, which, n, p, 0, (('alpha', alpha),))
    G = data_of(a.G)
    env.check('symmetric', env.eq(G, tr(G)))
    K = [[v / env.const(alpha) for v in r] for r in matmul(C, C)]
    K = [[v + 1 if i == j else v for j, v in enumerate(r)] for i, r in enumerate(K)]
    env.check('weight of every direction', env.eq(matmul(matmul(G, G), K), [[1 if i == j else 0 for j in range(p)] for i in range(p)]))
    env.check('applied', env.eq(a.transform(env.M(z)), matmul(z, G)))


def inv(a):
    from .pls_ref import solve
    n = len(a)
    return solve(a, [[1 if i == j else 0 for j in range(n)] for i in range(n)])


def diagonal(env, alpha, order):
    """Uncorrelated differences: each column is weighted by its own variance."""
    env.doubles()
    scale = [(3, 1, 2), (1, 2, 3), (3, 2, 1)][order]
    x1 = [[env.const(0)] * 3 for _ in range(4)]
    h = [[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]
    x2 = [[env.const(h[i][j] * scale[j]) for j in range(3)] for i in range(4)]
    a = cls(env, 'GLSW')()
    a.alpha = alpha
    a.initialize(env.M(x1), env.M(x2))
    G = data_of(a.G)
    s = [4 * c * c for c in scale]
    env.check('weights by column', *[env.eq(G[i][j], 0 if i != j else 1 / env.sqrt(env.const(s[i]) * s[i] / env.const(alpha) + 1)) for i in range(3) for j in range(3)])


def any_alpha(env, scale):
    """Uncorrelated differences (descending variances, none in some columns) and every alpha."""
    alpha = env.real('alpha', lo=1e-9, hi=1e9)
    env.doubles()
    x1 = [[env.const(0)] * 3 for _ in range(4)]
    h = [[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]
    x2 = [[env.const(h[i][j] * scale[j]) for j in range(3)] for i in range(4)]
    a = cls(env, 'GLSW')()
    a.alpha = alpha
    env.check('trained', env.lit(a.initialize(env.M(x1), env.M(x2)) is None))
    G = data_of(a.G)
    s = [16 * c ** 4 for c in scale]
    env.check('weights by column', *[env.eq(G[i][j], 0) for i in range(3) for j in range(3) if i != j])
    env.check('weights', *[env.gt(G[i][i], 0) for i in range(3)])
    env.check('weights', *[env.eq(G[i][i] * G[i][i] * (env.const(s[i]) / alpha + 1), 1) for i in range(3)])


def one_column(env, which, n, alpha):
    """One column: training data along a line."""
    u = env.real('u')
    x = [[env.const((2, 5, -1, 0, 3)[i]) + u * (1, -1, 2, 4, 0)[i]] for i in range(n)]
    al = env.real('alpha', lo=1e-6, hi=1e6) if alpha is None else env.const(alpha)
    a = cls(env, which)()
    a.alpha = al
    if which == 'GLSW':
        x2 = [[env.const((1, 0, 3, 2, 7)[i])] for i in range(n)]
        r = a.initialize(env.M(x), env.M(x2))
        C = difference(x, x2)[0][0]
    else:
        y = [[env.const((3, 1, 4, 9, 7, 2)[i])] for i in range(n)]
        r = a.initialize(env.M(x), env.M(y))
        C = gradient(env, x, y)[0][0]
    env.check('trained', env.lit(r is None, r))
    z = env.real('z')
    t = a.transform(env.M([[z]])).get(0, 0)
    env.check('weight', env.eq(t * t * (C * C / al + 1), z * z), env.ge(t * z, 0))


def direction(env):
    """Samples where the response changes fast are weighted down."""
    n = 9
    y = [[env.const(v)] for v in (0, 1, 2, 3, 4, 5, 20, 40, 60)]
    h = env.real('h', lo=1, hi=2)
    a = cls(env, 'YGradientGLSW')()
    def cov(i):
        x = [[env.const(0)] for _ in range(n)]
        for j in range(i, n):
            x[j][0] = h
        return data_of(a.get_covariance_matrix(env.M(x), env.M(y)))[0][0]
    env.check('samples in a steep part of the response count less', env.le(cov(6), cov(3)))


def covariance_order(env, perm):
    """The covariance of the gradient variants for all data in a given response order (row order irrelevant)."""
    n = 5
    x = grid(env, 'x', n, 1)
    y = [[env.const((3, 1, 4, 9, 7)[i])] for i in range(n)]
    a = cls(env, 'YGradientGLSW')()
    got = a.get_covariance_matrix(env.M(x), env.M(y))
    got2 = a.get_covariance_matrix(env.M([x[i] for i in perm]), env.M([y[i] for i in perm]))
    env.check('order of the rows is irrelevant', env.eq(got, got2))
    env.check('shape', env.shape(got, 1, 1))
    c = env.real('c')
    got3 = a.get_covariance_matrix(env.M([[r[0] + c] for r in x]), env.M(y))
    env.check('a common offset is irrelevant', env.eq(got, got3))


def units(env, which, ex, ey, n, p):
    """The data in other units: the same directions and, with the strength in those units, the same weights."""
    z = grid(env, 'z', 2, p)
    env.doubles()
    x, x2, y = data(env, n, p, 1)
    out = []
    for cx, cy in ((env.const(1), env.const(1)), (env.const(Fraction(2) ** ex), env.const(Fraction(2) ** ey))):
        a = cls(env, which)()
        if which.endswith('EPO'):
            a.N = 2
        else:
            a.alpha = env.const(50) * cx * cx * cx * cx
        b = emap(lambda v: v * cx, x2) if which in ('GLSW', 'EPO') else emap(lambda v: v * cy, y)
        r = a.initialize(env.M(emap(lambda v: v * cx, x)), env.M(b))
        env.check('trained', env.lit(r is None, r))
        out.append((data_of(a.G), emap(lambda v: v / cx, data_of(a.transform(env.M(emap(lambda v: v * cx, z)))))))
    env.check('weighting matrix', env.eq(out[1][0], out[0][0]))
    env.check('applied', env.eq(out[1][1], out[0][1]))


def near_ties(env, gap):
    """Responses that differ by very little are ordered all the same."""
    n = 7
    x = grid(env, 'x', n, 1)
    y = [[env.const((3, 1, 4, 9, 7, 3, 4)[i]) + env.const(gap) * (0, 0, 2, 0, 0, 1, 1)[i]] for i in range(n)]
    a = cls(env, 'YGradientGLSW')()
    got = a.get_covariance_matrix(env.M(x), env.M(y))
    for perm in ([5, 6, 0, 1, 2, 3, 4], [6, 5, 4, 3, 2, 1, 0]):
        env.check('order of the rows is irrelevant', env.eq(got, a.get_covariance_matrix(env.M([x[i] for i in perm]), env.M([y[i] for i in perm]))))


def cov_sym(env, n, p):
    """Difference covariance for all data."""
    x, x2 = grid(env, 'a', n, p), grid(env, 'b', n, p)
    a = cls(env, 'GLSW')()
    env.check('covariance of the centered differences', env.eq(a.get_covariance_matrix(env.M(x), env.M(x2)), difference(x, x2)))


def scenarios(tier):
    S = Suite()
    sets = [(6, 3, 0), (7, 4, 1), (5, 2, 2), (9, 5, 0), (6, 1, 1)]
    if tier == 'thorough':
        sets += [(12, 4, 3), (20, 6, 0), (8, 3, 5)]
    for n, p, k in sets:
        for w in ('EPO', 'YGradientEPO'):
            S.add('%s %dx%d' % (w, n, p), epo, which=w, n=n, p=p, k=k)
        for w in ('GLSW', 'YGradientGLSW'):
            for al in ('0.001', '1', '1000'):
                S.add('%s %dx%d alpha=%s' % (w, n, p, al), glsw, which=w, n=n, p=p, k=k, alpha=float(al))
    for n, p in ((4, 7), (5, 9)) + (((5, 20),) if tier == 'thorough' else ()):
        for w in ('GLSW', 'YGradientGLSW'):
            S.add('wide %s %dx%d' % (w, n, p), wide_glsw, which=w, n=n, p=p, alpha=100.0)
        for w in ('EPO', 'YGradientEPO'):
            S.add('wide %s %dx%d' % (w, n, p), epo, which=w, n=n, p=p, k=0, hi=2)
    for al in ('1/100000000', '1/1000', '1', '100000'):
        for n in (2, 3, 4):
            S.add('one column %d alpha=%s' % (n, al), one_column, which='GLSW', n=n, alpha=al)
    for sc in ((3, 2, 1), (3, 1, 0), (2, 0, 0), (0, 0, 0), (4, '1/2', '1/64')):
        S.add('any alpha %s' % (sc,), any_alpha, scale=[__import__('fractions').Fraction(v) for v in sc])
    S.add('diagonal', diagonal, alpha=2.0, order=2)
    S.add('diagonal in another order', diagonal, alpha=2.0, order=0)
    for w in ('GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO'):
        for ex, ey in ((-8, 0), (-16, 0), (14, 0), (0, -20), (0, 20), (-30, -30)):
            S.add('units %s 2^%d 2^%d' % (w, ex, ey), units, which=w, ex=ex, ey=ey, n=8, p=3)
    S.add('gradient direction', direction)
    for gap in ('1/8', '1/1024', '1/1048576', '1/1073741824'):
        S.add('near ties %s' % gap, near_ties, gap=gap)
    for i, pm in enumerate(((4, 3, 2, 1, 0), (2, 0, 4, 1, 3))):
        S.add('gradient covariance %d' % i, covariance_order, perm=pm)
    for n, p in ((2, 2), (3, 2), (4, 3)):
        S.add('difference covariance %dx%d' % (n, p), cov_sym, n=n, p=p)
    return S
