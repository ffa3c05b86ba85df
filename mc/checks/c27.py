"""Canonical correlation filter and independent component analysis: projections meet their normalisation, decorrelation and reconstruction equations."""
from .alg import *
from fractions import Fraction
from .pls_ref import means, shift, solve

AF = 'wai.ma.algorithm.ica.approxfun'
BOUNDS = ('CCAFilter: 6-10 rows, 2-4 predictor and 1-3 response columns, every projection dimension, listed regularisations, all real new rows; '
          'FastICA: 4-10 rows, 2-4 columns, every number of components up to 6, both algorithms, all three contrast functions, with and without whitening; '
          'contrast functions: all real inputs of up to 3x3 and one arbitrary element in up to 40')
ASSUMPTIONS = ['fixed training data run in double arithmetic, results equal up to 1e-9 relative']


def sets(env, n, p, q, k):
    x, y = line(env, n, p, k=k) if p < n else wide(env, n, p)
    f = [lambda i, t: t, lambda i, t: t * t - i, lambda i, t: (i * i) % 5 - t]
    return x, [[f[j](i, r[0]) for j in range(q)] for i, r in enumerate(y)]


def cov(a, b, lam=None):
    g = matmul(tr(a), b)
    if lam is not None:
        for i in range(len(g)):
            g[i][i] = g[i][i] + lam
    return g


def cca(env, n, p, q, k, lx, ly):
    z, u = grid(env, 'z', 2, p), grid(env, 'u', 2, q)
    d = idx(env, 'kcca', 1, 5)
    env.doubles()
    x, y = sets(env, n, p, q, k)
    a = cls(env, 'CCAFilter')()
    a.kcca = d
    a.lambda_X = env.const(lx)
    a.lambda_Y = env.const(ly)
    r = a.initialize(env.M(x), env.M(y))
    if d > min(p, q):
        return env.check('too many dimensions are refused', env.lit(isinstance(r, str)), env.lit(not a.is_initialised()))
    env.check('trained', env.lit(r is None, r))
    mx, my = means(x), means(y)
    xc, yc = shift(x, mx), shift(y, my)
    A, B = data_of(a.proj_X), data_of(a.proj_Y)
    env.check('shapes', env.shape(a.proj_X, p, d), env.shape(a.proj_Y, q, d))
    env.check('predictor scores', env.eq(a.transform(env.M(z)), matmul(shift(z, mx), A)))
    env.check('response scores', env.eq(a.transform_response(env.M(u)), matmul(shift(u, my), B)))
    env.check('single rows', env.eq(a.transform(env.M(z[:1])), matmul(shift(z[:1], mx), A)), env.eq(a.transform_response(env.M(u[:1])), matmul(shift(u[:1], my), B)))
    cx, cy, cxy = cov(xc, xc, env.const(lx)), cov(yc, yc, env.const(ly)), cov(xc, yc)
    one = lambda g: [env.eq(g[i][j], 1 if i == j else 0) for i in range(d) for j in range(d)]
    env.check('predictor projections are orthonormal', *one(matmul(tr(A), matmul(cx, A))))
    env.check('response projections are orthonormal', *one(matmul(tr(B), matmul(cy, B))))
    rho = matmul(tr(A), matmul(cxy, B))
    env.check('different dimensions are uncorrelated', *[env.eq(rho[i][j], 0) for i in range(d) for j in range(d) if i != j])
    env.check('correlations in descending order', *[env.ge(rho[i][i] + 1e-9, rho[i + 1][i + 1]) for i in range(d - 1)] + [env.ge(rho[i][i], -1e-9) for i in range(d)])
    # canonical equations
    env.check('canonical equations', env.eq(matmul(cxy, B), [[matmul(cx, A)[i][j] * rho[j][j] for j in range(d)] for i in range(p)]),
              env.eq(matmul(tr(cxy), A), [[matmul(cy, B)[i][j] * rho[j][j] for j in range(d)] for i in range(q)]))
    # the dominant ones: the squared correlations of all dimensions add up to the trace, the first dominate the rest
    m = min(p, q)
    t = matmul(solve(cx, cxy), solve(cy, tr(cxy)))
    rest = vsum([t[i][i] for i in range(p)]) - vsum([rho[i][i] * rho[i][i] for i in range(d)])
    if d == m:
        env.check('all of the correlation', env.eq(rest + 1, 1))
    else:
        env.check('dominant dimensions', env.le(rest, rho[d - 1][d - 1] * rho[d - 1][d - 1] * (m - d) + 1e-9), env.ge(rest, -1e-9))


def units(env, ex, ey, p, q):
    """Both sides in other units, the regularisation in theirs: the same scores."""
    z, u = grid(env, 'z', 2, p), grid(env, 'u', 2, q)
    env.doubles()
    x, y = sets(env, 8, p, q, 1)
    out = []
    for cx, cy in ((env.const(1), env.const(1)), (env.const(Fraction(2) ** ex), env.const(Fraction(2) ** ey))):
        a = cls(env, 'CCAFilter')()
        a.kcca = 1
        a.lambda_X = env.const('1/4') * cx * cx
        a.lambda_Y = env.const('1/2') * cy * cy
        r = a.initialize(env.M(emap(lambda v: v * cx, x)), env.M(emap(lambda v: v * cy, y)))
        env.check('trained', env.lit(r is None, r))
        out.append((data_of(a.transform(env.M(emap(lambda v: v * cx, z)))), data_of(a.transform_response(env.M(emap(lambda v: v * cy, u))))))
    env.check('predictor scores', env.eq(out[1][0], out[0][0]))
    env.check('response scores', env.eq(out[1][1], out[0][1]))


def source_units(env, e, algo, fun):
    env.doubles()
    x, _ = line(env, 10, 3, k=1)
    out = []
    for c in (env.const(1), env.const(Fraction(2) ** e)):
        a = cls(env, 'FastICA')()
        a.algorithm = getattr(env.lib('wai.ma.algorithm.ica._FastICA').Algorithm, algo)
        a.fun = getattr(env.lib(AF), fun)()
        a.num_components = 2
        a.max_iter = 7
        S = data_of(a.transform(env.M(emap(lambda v: v * c, x))))
        out.append((S, emap(lambda v: v * c, data_of(a.components)), emap(lambda v: v / c, data_of(a.reconstruct()))))
    for i, l in enumerate(('sources', 'components', 'reconstruction')):
        env.check(l, env.eq(out[1][i], out[0][i]))


def ica(env, n, p, k, algo, fun, whiten):
    nc = idx(env, 'nc', 1, 6)
    env.doubles()
    x, _ = line(env, n, p, k=k)
    x = [[v + 3 * j for j, v in enumerate(r)] if whiten else [v * env.const('1/4') for v in r] for r in x]
    a = cls(env, 'FastICA')()
    a.algorithm = getattr(env.lib('wai.ma.algorithm.ica._FastICA').Algorithm, algo)
    a.fun = getattr(env.lib(AF), fun)()
    a.whiten = whiten
    a.num_components = nc
    a.max_iter = 50
    S = data_of(a.transform(env.M(x)))
    d = min(nc, n, p) if whiten else min(n, p)
    env.check('shapes', env.lit(len(S) == n and len(S[0]) == d), env.shape(a.components, d, p), env.shape(a.mixing, p, d))
    C, Mx = data_of(a.components), data_of(a.mixing)
    xc = shift(x, means(x)) if whiten else x
    env.check('sources are data times components', env.eq(S, matmul(xc, tr(C))))
    env.check('stored sources', env.eq(a.sources, S))
    g = matmul(tr(S), S) if whiten else matmul(C, tr(C))
    env.check('uncorrelated sources of unit length' if whiten else 'orthonormal components', *[env.eq(g[i][j], 1 if i == j else 0) for i in range(d) for j in range(d)])
    h = matmul(C, Mx)
    env.check('mixing undoes the components', *[env.eq(h[i][j], 1 if i == j else 0) for i in range(d) for j in range(d)])
    R = data_of(a.reconstruct())
    back = matmul(S, tr(Mx))
    env.check('reconstruction', env.eq(R, [[v + m for v, m in zip(r, means(x))] for r in back] if whiten else back))
    if d == p:
        env.check('all components give the data back', env.eq(R, x))
    elif whiten:
        # residual orthogonal to the sources
        e = emap(lambda u, v: u - v, x, R)
        env.check('residual is uncorrelated with the sources', *[env.eq(v, 0) for v in flat(matmul(tr(e), S))])


def fixed_point(env, n, p, k, fun):
    """With one component per step the contrast is stationary: E[x g(w'x)] - E[g'(w'x)] w stays in the direction of w (up to earlier components)."""
    env.doubles()
    x, _ = line(env, n, p, k=k)
    a = cls(env, 'FastICA')()
    a.fun = getattr(env.lib(AF), fun)()
    a.num_components = p
    a.tol = 0.0
    a.max_iter = 200
    a.transform(env.M(x))
    # whitened data and unmixing rows
    xc = shift(x, means(x))
    K = data_of(a.whitening)
    c = env.sqrt(env.const(n))
    xw = [[v * c for v in r] for r in matmul(xc, tr(K))]
    C = data_of(a.components)
    W = matmul(C, solve_right(K))
    for j in range(p):
        w = W[j]
        s = [vsum([v * q for v, q in zip(r, w)]) for r in xw]
        if fun == 'Cube':
            g, d = [v * v * v for v in s], [3 * v * v for v in s]
        elif fun == 'LogCosH':
            g = [env.tanh(v) for v in s]
            d = [1 - v * v for v in g]
        else:
            e = [env.exp(-v * v / 2) for v in s]
            g, d = [v * q for v, q in zip(s, e)], [(1 - v * v) * q for v, q in zip(s, e)]
        md = vsum(d) / n
        w1 = [vsum([r[i] * q for r, q in zip(xw, g)]) / n - md * w[i] for i in range(p)]
        for l in range(j):
            f = vsum([q * v for q, v in zip(w1, W[l])])
            w1 = [q - f * v for q, v in zip(w1, W[l])]
        lam = vsum([q * v for q, v in zip(w1, w)])
        env.check('stationary %d' % j, *[env.ge(1e-6, abs_(env, w1[i] - lam * w[i])) for i in range(p)])


def fixed_parallel(env, n, p, k):
    """Parallel mode: one more symmetric fixed-point step from the returned directions leads back to them."""
    fun = env.choose('fun', ['LogCosH', 'Cube', 'Exponential'])
    env.doubles()
    x, _ = line(env, n, p, k=k)
    a = cls(env, 'FastICA')()
    a.algorithm = env.lib('wai.ma.algorithm.ica._FastICA').Algorithm.PARALLEL
    a.fun = getattr(env.lib(AF), fun)()
    a.num_components = p
    a.tol = 1e-14
    a.max_iter = 1500
    a.transform(env.M(x))
    xc = shift(x, means(x))
    K = data_of(a.whitening)
    c = env.sqrt(env.const(n))
    xw = [[v * c for v in r] for r in matmul(xc, tr(K))]
    W = matmul(data_of(a.components), solve_right(K))
    S = matmul(xw, tr(W))
    step = []
    for j in range(p):
        s = [r[j] for r in S]
        g, d = derivs(env, fun, s)
        md = vsum(d) / n
        step.append([vsum([r[i] * q for r, q in zip(xw, g)]) / n - md * W[j][i] for i in range(p)])
    # W is the orthogonal factor of the step up to signs: step W' is symmetric after fixing the signs
    h = matmul(step, tr(W))
    for i in range(p):
        for j in range(i):
            u, v = h[i][j], h[j][i]
            if env.decide(env.true(h[i][i] < 0)):
                u = -u
            if env.decide(env.true(h[j][j] < 0)):
                v = -v
            env.check('stationary', env.ge(1e-5, abs_(env, u - v)))


def derivs(env, fun, s):
    if fun == 'Cube':
        return [v * v * v for v in s], [3 * v * v for v in s]
    if fun == 'LogCosH':
        g = [env.tanh(v) for v in s]
        return g, [1 - v * v for v in g]
    e = [env.exp(-v * v / 2) for v in s]
    return [v * q for v, q in zip(s, e)], [(1 - v * v) * q for v, q in zip(s, e)]


def abs_(env, v):
    return env.sqrt(v * v)


def solve_right(K):
    n = len(K)
    t = solve(matmul(tr(K), K), tr(K))
    return t


def contrast(env, which, r, c, free):
    x = grid(env, 'x', r, c) if free is None else [[env.const((i * 3 + j * 2) % 5 - 2) for j in range(c)] for i in range(r)]
    if free is not None:
        x[free[0]][free[1]] = env.real('v')
    F = getattr(env.lib(AF), which)
    if which == 'LogCosH' and free is None:
        al = env.real('al')
        f = F(al)
    else:
        al = 1
        f = F()
    m = env.M(x)
    g, d = f.apply(m)
    if which == 'Cube':
        gw = emap(lambda v: v * v * v, x)
        dw = emap(lambda v: 3 * v * v, x)
    elif which == 'LogCosH':
        gw = emap(lambda v: env.tanh(al * v), x)
        dw = emap(lambda v: al * (1 - v * v), gw)
    else:
        gw = emap(lambda v: v * env.exp(-(v * v) / 2), x)
        dw = emap(lambda v: (1 - v * v) * env.exp(-(v * v) / 2), x)
    env.check('value', env.eq(g, gw))
    env.check('mean derivative of each row', env.eq(d, [[vsum(r_) / c] for r_ in dw]))
    env.check('input unchanged', env.eq(m, x))


def scenarios(tier):
    S = Suite()
    for n, p, q, k in ((8, 3, 2, 0), (6, 2, 1, 1), (9, 4, 3, 0), (7, 2, 3, 2), (10, 3, 3, 3), (4, 6, 2, 0), (3, 9, 1, 0), (4, 5, 3, 0)) + (((5, 30, 2, 0),) if tier == 'thorough' else ()):
        for lx, ly in (('1/100', '1/100'), ('1', '3'), ('5', '1/1000')):
            S.add('cca %dx%d/%d %s %s' % (n, p, q, lx, ly), cca, n=n, p=p, q=q, k=k, lx=lx, ly=ly)
    for n, p, k in ((8, 3, 0), (7, 2, 1), (10, 4, 0)):
        for al in ('PARALLEL', 'DEFLATION'):
            for f in ('LogCosH', 'Cube', 'Exponential'):
                for w in (True, False):
                    S.add('ica %dx%d %s %s %s' % (n, p, al, f, w), ica, n=n, p=p, k=k, algo=al, fun=f, whiten=w)
    for ex, ey in ((-10, 0), (-24, 0), (20, 0), (0, -24), (0, 20), (-34, -34)):
        for p, q in ((3, 1), (2, 2)):
            S.add('units cca 2^%d 2^%d %d/%d' % (ex, ey, p, q), units, ex=ex, ey=ey, p=p, q=q)
        if not ey:
            for al, f in (('DEFLATION', 'LogCosH'), ('DEFLATION', 'Cube'), ('PARALLEL', 'Exponential')):
                S.add('units ica 2^%d %s %s' % (ex, al, f), source_units, e=ex, algo=al, fun=f)
    S.add('stationary parallel', fixed_parallel, n=10, p=2, k=0)
    for f in ('LogCosH', 'Cube', 'Exponential'):
        S.add('stationary %s' % f, fixed_point, n=10, p=2, k=0, fun=f)
        for r, c in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 3)):
            S.add('%s %dx%d' % (f, r, c), contrast, which=f, r=r, c=c, free=None)
        for r, c, fr in ((1, 40, (0, 33)), (19, 2, (11, 1)), (2, 19, (1, 17)), (12, 12, (3, 4))):
            S.add('%s %dx%d' % (f, r, c), contrast, which=f, r=r, c=c, free=fr)
    return S
