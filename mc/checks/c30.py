"""Iterative trainings stop at the first iterate whose change is within the tolerance, or at the iteration limit."""
from .alg import *
from .pls_ref import means, devs, shift, solve
from .c27 import AF, solve_right, abs_

BOUNDS = ('fixed data sets of 5-10 rows and 2-4 columns, every tolerance in (0, 4] that is not within 1e-9 of a change and around 1e-4 ... 1e-13, limits of 1 to 6 (NIPALS also 0) iterations and the default; '
          'NIPALS and KernelPLS with two and three responses, CCA regression with two, geometric median, deflationary FastICA with all contrast functions')
ASSUMPTIONS = ['fixed data run in double arithmetic, results equal up to 1e-9 relative']


def tolerance(env, top):
    if top < 0.01:
        # changes this small need their own scale
        return env.real('tol', lo=0.25, hi=4) * env.const(top)
    t = env.real('tol', lo=0, hi=top)
    env.assume(t > env.const('1e-9'))
    return t


def done(env, change, tol, eps='1e-9'):
    d = change - tol
    e = env.const(eps)
    env.assume(env.disj([env.true(d > e), env.true(d < -e)]))
    return env.decide(env.true(d < 0))


def unit(env, v):
    n = env.sqrt(vsum([q * q for q in v]))
    return [q / n for q in v]


def col(v):
    return [[q] for q in v]


def dot(u, v):
    return vsum([p * q for p, q in zip(u, v)])


def data(env, n, p, k, resp):
    x, y = line(env, n, p, k=k)
    f = [lambda i, t: t, lambda i, t: t * t - 3 * i, lambda i, t: (i * i) % 5 - t]
    return x, [[f[j](i, r[0]) for j in range(resp)] for i, r in enumerate(y)]


def nipals(env, n, p, k, resp, limit, mode, norm, top=4):
    """Power iteration between the scores of predictors and responses."""
    tol = tolerance(env, top)
    env.doubles()
    x, y = data(env, n, p, k, resp)
    X, Y = shift(x, means(x), devs(env, x)), shift(y, means(y), devs(env, y))
    if mode == 'CCA':
        xi, yi = solve(matmul(tr(X), X), tr(X)), solve(matmul(tr(Y), Y), tr(Y))
    u = [r[0] for r in Y]
    old = [0] * p
    for i in range(limit + 1):
        w = unit(env, [r[0] for r in (matmul(xi, col(u)) if mode == 'CCA' else matmul(tr(X), col(u)))])
        t = [dot(r, w) for r in X]
        c = [r[0] for r in (matmul(yi, col(t)) if mode == 'CCA' else [[v[0] / dot(t, t)] for v in matmul(tr(Y), col(t))])]
        if norm:
            c = unit(env, c)
        u = [dot(r, c) / dot(c, c) for r in Y]
        if done(env, vsum([(a - b) * (a - b) for a, b in zip(w, old)]), tol, '1e-9' if top > 1e-6 else repr(top / 100)):
            break
        old = w
    a = cls(env, 'CCARegression' if mode == 'CCA' else 'NIPALS')()
    a.num_components = 1
    a.max_iter = limit
    a.tol = tol
    a.norm_Y_weights = norm
    env.check('trained', env.lit(a.initialize(env.M(x), env.M(y)) is None))
    env.check('predictor scores', env.eq(a.get_matrix('T'), col(t)))
    env.check('response scores', env.eq(a.get_matrix('U'), col(u)))
    if 1e-12 < top < 0.01:
        # one iteration less shows at the scale of the tolerance
        s = env.const(repr(top ** 0.5))
        env.check('stops at the tolerance', env.eq([(p - q) / s for p, q in zip(flat(data_of(a.get_matrix('T'))), t)], [0] * n))


def kernel(env, n, p, k, resp, limit, top=2):
    tol = tolerance(env, top)
    env.doubles()
    x, y = data(env, n, p, k, resp)
    X, Y = shift(x, means(x)), shift(y, means(y))
    K = matmul(X, tr(X))
    a = make(env, 'KernelPLS', 1)
    u = [r[0] for r in data_of(env.lib(FACTORY).randn(n, 1, cls(env, 'KernelPLS').SEED))]
    for i in range(limit):
        t = unit(env, [dot(r, u) for r in K])
        q = [dot(r, t) for r in tr(Y)]
        v = unit(env, [dot(r, q) for r in Y])
        ch = env.sqrt(vsum([(a_ - b) * (a_ - b) for a_, b in zip(v, u)]))
        u = v
        if done(env, ch, tol, '1e-9' if top > 1e-6 else repr(top / 100)):
            break
    a.max_iter = limit
    a.tol = tol
    env.check('trained', env.lit(train(env, a, 'KernelPLS', x, y) is None))
    env.check('predictor scores', env.eq(a.get_matrix('T'), col(t)))
    env.check('response scores', env.eq(a.get_matrix('U'), col(u)))
    env.check('response loadings', env.eq(a.get_matrix('Q'), col(q)))
    if 1e-12 < top < 0.01:
        env.check('stops at the tolerance', env.eq([(p - q) / env.const(repr(top)) for p, q in zip(flat(data_of(a.get_matrix('U'))), u)], [0] * n))


def median(env, n, p, k, limit, top=4):
    tol = tolerance(env, top)
    env.doubles()
    x, _ = line(env, n, p, k=k)
    g = means(x)
    for i in range(limit):
        w = [1 / env.sqrt(dot(d, d)) for d in shift(x, g)]
        h = [vsum([r[j] * q for r, q in zip(x, w)]) / vsum(w) for j in range(p)]
        ch = vsum([(a_ - b) * (a_ - b) for a_, b in zip(h, g)])
        g = h
        if done(env, ch, tol, '1e-9' if top > 1e-6 else repr(top / 100)):
            break
    a = cls(env, 'PRM')()
    a.tol = tol
    a.max_iter = limit
    env.check('geometric median', env.eq(a.geometric_median(env.M(x)), [g]))


def fun(env, which, s):
    if which == 'Cube':
        return [v * v * v for v in s], [3 * v * v for v in s]
    if which == 'LogCosH':
        g = [env.tanh(v) for v in s]
        return g, [1 - v * v for v in g]
    e = [env.exp(-v * v / 2) for v in s]
    return [v * q for v, q in zip(s, e)], [(1 - v * v) * q for v, q in zip(s, e)]


def ica(env, n, p, k, nc, which, limit):
    tol = tolerance(env, 1)
    env.doubles()
    x, _ = line(env, n, p, k=k)
    a = cls(env, 'FastICA')()
    a.algorithm = env.lib('wai.ma.algorithm.ica._FastICA').Algorithm.DEFLATION
    a.fun = getattr(env.lib(AF), which)()
    a.num_components = nc
    a.max_iter = limit
    a.tol = tol
    a.transform(env.M(x))
    K = data_of(a.whitening)
    c = env.sqrt(env.const(n))
    xw = [[v * c for v in r] for r in matmul(shift(x, means(x)), tr(K))]
    start = data_of(env.lib(FACTORY).randn(nc, nc, 1))
    W = []
    for j in range(nc):
        w = unit(env, start[j])
        for i in range(limit):
            g, d = fun(env, which, [dot(r, w) for r in xw])
            md = vsum(d) / n
            w1 = [vsum([r[l] * q for r, q in zip(xw, g)]) / n - md * w[l] for l in range(nc)]
            f = [dot(w1, o) for o in W]
            w1 = unit(env, [w1[l] - (vsum([q * o[l] for q, o in zip(f, W)]) if W else 0) for l in range(nc)])
            ch = abs_(env, abs_(env, dot(w1, w)) - 1)
            w = w1
            if done(env, ch, tol):
                break
        W.append(w)
    env.check('components', env.eq(a.components, matmul(W, K)))


def scenarios(tier):
    S = Suite()
    limits = (1, 2, 3, 6) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 9)
    for n, p, k, r in ((8, 3, 0, 2), (7, 2, 1, 3), (10, 4, 0, 2)):
        for m in (0,) + limits:
            for nm in (False, True):
                S.add('NIPALS %dx%d/%d limit=%d %s' % (n, p, r, m, nm), nipals, n=n, p=p, k=k, resp=r, limit=m, mode='PLS', norm=nm)
            if p < 4 and r == 2:
                S.add('CCA %dx%d/%d limit=%d' % (n, p, r, m), nipals, n=n, p=p, k=k, resp=r, limit=m, mode='CCA', norm=True)
        for m in limits:
            S.add('KernelPLS %dx%d/%d limit=%d' % (n, p, r, m), kernel, n=n, p=p, k=k, resp=r, limit=m)
    for n, p, k in ((7, 2, 0), (8, 3, 1), (5, 2, 2)):
        for m in limits:
            S.add('geometric median %dx%d limit=%d' % (n, p, m), median, n=n, p=p, k=k, limit=m)
    for top in (1e-6, 1e-10, 1e-13):
        S.add('NIPALS tolerance %s' % top, nipals, n=8, p=3, k=0, resp=2, limit=60, mode='PLS', norm=False, top=top)
        S.add('NIPALS three responses tolerance %s' % top, nipals, n=9, p=4, k=1, resp=3, limit=60, mode='PLS', norm=False, top=top)
        S.add('CCA tolerance %s' % top, nipals, n=9, p=3, k=0, resp=2, limit=60, mode='CCA', norm=True, top=top)
        S.add('geometric median tolerance %s' % top, median, n=7, p=2, k=0, limit=80, top=top)
    for top in (1e-4, 1e-7):
        S.add('KernelPLS tolerance %s' % top, kernel, n=8, p=3, k=0, resp=2, limit=60, top=top)
    for f in ('LogCosH', 'Cube', 'Exponential'):
        for n, p, k, nc in ((8, 3, 0, 1), (10, 2, 1, 2), (9, 3, 0, 3)):
            for m in limits[:3]:
                S.add('FastICA %s %dx%d nc=%d limit=%d' % (f, n, p, nc, m), ica, n=n, p=p, k=k, nc=nc, which=f, limit=m)
    return S
