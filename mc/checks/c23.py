"""PLS regressions equal the least-squares fit over the PLS subspace; scores, loadings and coefficients belong together."""
from .alg import *
from .pls_ref import *
from fractions import Fraction

BOUNDS = ('PLS1, SIMPLS, NIPALS, KernelPLS (linear kernel; polynomial and radial kernels up to the offset of new rows), OPLS, SparsePLS without sparsity, PRM without down-weighting, CCARegression, VCPLS; five training sets of 6-12 rows, '
          '2-4 columns, 1 to all components, all real new rows; PLS1, SIMPLS also with the response anywhere on a line')
ASSUMPTIONS = ['fixed training data run in double arithmetic, results equal up to 1e-9 relative', 'training data of full column rank']


def data(env, n, p, k, off):
    x, y = line(env, n, p, k=k)
    return [[v + off * (j + 1) for j, v in enumerate(r)] for r in x], [[r[0] + 2 * off] for r in y]


def ref(env, which, x, y, z, nc):
    """Predictions for z."""
    if which in ('PLS1', 'SIMPLS', 'OPLS', 'PRM'):
        return matmul(z, pls(x, y, nc))
    mx, my = means(x), means(y)
    if which == 'KernelPLS':
        b = pls(shift(x, mx), shift(y, my), nc)
        return [[v[0] + my[0]] for v in matmul(shift(z, mx), b)]
    sx, sy = devs(env, x), devs(env, y)
    xs, ys = shift(x, mx, sx), shift(y, my, sy)
    b = pls(xs, ys, nc)
    return [[v[0] * sy[0] + my[0]] for v in matmul(shift(z, mx, sx), b)]


def build(env, which, nc):
    a = make(env, which, nc)
    if which == 'OPLS':
        a.num_components = 1
        a.base_PLS.num_components = nc - 1
    if which == 'SparsePLS':
        a.lambda_ = 0.0
    if which == 'PRM':
        a.C = 1e14
    if which == 'KernelPLS':
        a.tol = 1e-13
    if which == 'NIPALS':
        a.tol = 1e-25
        a.max_iter = 20000
    return a


def diag(env, label, t, unit=False):
    g = matmul(tr(t), t)
    k = len(g)
    env.check(label, *[env.eq(g[i][j], 0) for i in range(k) for j in range(k) if i != j])
    if unit:
        env.check(label + ' unit', *[env.eq(g[i][i], 1) for i in range(k)])


def fit(env, which, n, p, k, off, nc, prof=None):
    z = grid(env, 'z', 2, p)
    env.doubles()
    x, y = profile(env, prof, p) if prof else data(env, n, p, k, off)
    a = build(env, which, nc)
    env.check('trained', env.lit(train(env, a, which, x, y) is None))
    if which == 'CCARegression':
        return cca(env, a, x, y, z)
    env.check('predictions', env.eq(data_of(a.predict(env.M(z))), ref(env, which, x, y, z, nc)))
    env.check('predictions for the training data', env.eq(data_of(a.predict(env.M(x))), ref(env, which, x, y, x, nc)))
    parts(env, which, a, x, y, z, nc)


def cca(env, a, x, y, z):
    """With one response the canonical direction is the least-squares one."""
    mx, my, sx, sy = means(x), means(y), devs(env, x), devs(env, y)
    xs, ys = shift(x, mx, sx), shift(y, my, sy)
    b = ols(xs, ys)
    nrm = env.sqrt(vsum([v[0] * v[0] for v in b]))
    zt, Q = data_of(a.transform(env.M(z))), data_of(a.get_matrix('Q'))
    u = matmul(shift(z, mx, sx), b)
    env.check('scores follow the least-squares direction', *[env.eq(t[0] * nrm, v[0]) for t, v in zip(zt, u)])
    env.check('predictions from the scores', env.eq([[v[0] * sy[0] + my[0]] for v in matmul(zt, tr(Q))], a.predict(env.M(z))))
    parts(env, 'CCARegression', a, x, y, z, 1)


def parts(env, which, a, x, y, z, nc):
    """Scores, loadings, coefficients."""
    zt = data_of(a.transform(env.M(z)))
    zp = data_of(a.predict(env.M(z)))
    get = lambda n: data_of(a.get_matrix(n))
    if which == 'OPLS':
        n_orth = len(get('W_orth')[0])
        env.check('shape', env.lit(len(zt[0]) == len(x[0])))
        w, t, p = get('W_orth'), get('T_orth'), get('P_orth')
        env.check('removed scores are orthogonal to the response', *[env.eq(v, 0) for v in flat(matmul(tr(y), t))])
        env.check('weights orthogonal to X\'y', *[env.eq(v, 0) for v in flat(matmul(tr(w), matmul(tr(x), y)))])
        env.check('unit weights', *[env.eq(vsum([v * v for v in c]), 1) for c in tr(w)])
        if n_orth == 1:
            env.check('scores', env.eq(t, matmul(x, w)))
            env.check('cleaned training data', env.eq(a.X_osc, emap(lambda u, v: u - v, x, matmul(t, tr(p)))))
            env.check('cleaned rows', env.eq(zt, emap(lambda u, v: u - v, z, matmul(matmul(z, w), tr(p)))))
        else:
            k = len(x[0])
            one = ident(k)
            m = emap(lambda u, v: u - v, one, data_of(a.transform(env.M(one))))
            env.check('every row is cleaned by the same matrix', env.eq(zt, emap(lambda u, v: u - v, z, matmul(z, m))))
            env.check('only the removed loadings are subtracted', env.eq(matmul(matmul(m, p), solve(matmul(tr(p), p), tr(p))), m))
            env.check('the response direction survives', env.eq(matmul(tr(w), matmul(tr(x), y)), [[0]] * n_orth))
        return
    env.check('score columns', env.lit(len(zt[0]) == nc, len(zt[0])))
    xt = data_of(a.transform(env.M(x)))
    if which in ('PLS1', 'VCPLS'):
        W, P, b, r = get('W'), get('P'), get('b_hat'), get('RegVector')
        env.check('predictions from the scores', env.eq(matmul(zt, b), zp))
        env.check('predictions from the coefficients', env.eq(matmul(z, r), zp))
        diag(env, 'orthogonal scores', xt)
        env.check('loadings', env.eq(matmul(tr(emap(lambda u, v: u - v, x, matmul(xt, tr(P)))), xt), [[0] * nc for _ in x[0]]))
        env.check('score regression', *[env.eq(vsum([t[k] * u[0] for t, u in zip(xt, y)]), b[k][0] * vsum([t[k] * t[k] for t in xt])) for k in range(nc)])
        env.check('unit weights', *[env.eq(vsum([v * v for v in c]), 1) for c in tr(W)])
        env.check('first scores', env.eq([[r_[0]] for r_ in zt], matmul(z, [[w[0]] for w in W])))
    if which == 'PLS1':
        s = matmul(tr(x), y)
        nrm = env.sqrt(vsum([v[0] * v[0] for v in s]))
        env.check('first weight', env.eq([[w[0]] for w in W], [[v[0] / nrm] for v in s]))
        diag(env, 'orthogonal weights', W)
    if which == 'SIMPLS':
        W, B, Q = get('W'), get('B'), get('Q')
        env.check('scores', env.eq(matmul(z, W), zt))
        diag(env, 'orthonormal scores', xt, True)
        env.check('coefficients', env.eq(matmul(z, B), zp), env.eq(matmul(W, tr(Q)), B))
        env.check('score regression', env.eq(matmul(tr(xt), y), tr(Q)))
    if which in ('NIPALS', 'CCARegression'):
        T, U, P, Q = get('T'), get('U'), get('P'), get('Q')
        env.check('training scores', env.eq(T, xt))
        diag(env, 'orthogonal scores', T)
        xs = shift(x, means(x), devs(env, x))
        env.check('loadings', env.eq(matmul(tr(emap(lambda u, v: u - v, xs, matmul(T, tr(P)))), T), [[0] * nc for _ in x[0]]))
    if which == 'NIPALS':
        sy, my = devs(env, y), means(y)
        env.check('predictions from the scores', env.eq([[v[0] * sy[0] + my[0]] for v in matmul(zt, tr(Q))], zp))
    if which == 'PRM':
        env.check('coefficients', env.eq(matmul(z, get('B')), zp))
    if which == 'SparsePLS':
        sx, mx = devs(env, x), means(x)
        sy, my = devs(env, y), means(y)
        env.check('coefficients', env.eq([[v[0] * sy[0] + my[0]] for v in matmul(shift(z, mx, sx), get('B'))], zp))
        env.check('first scores', env.eq([[r[0]] for r in zt], matmul(z, [[w[0]] for w in get('W')])))
        diag(env, 'orthogonal scores', xt)
    if which == 'KernelPLS':
        T = get('T')
        diag(env, 'orthonormal scores', T, True)


def vcpls(env, n, p, k, nc, lam):
    """Weights are dominant eigenvectors of the variance-constrained problem; the regression is on the scores."""
    z = grid(env, 'z', 2, p)
    env.doubles()
    x, y = data(env, n, p, k, 0)
    a = make(env, 'VCPLS', nc)
    a.lambda_ = env.const(lam)
    env.check('trained', env.lit(train(env, a, 'VCPLS', x, y) is None))
    parts(env, 'VCPLS', a, x, y, z, nc)
    W, P = data_of(a.get_matrix('W')), data_of(a.get_matrix('P'))
    xk = x
    nu = env.const('1/10000000')
    for c in range(nc):
        xty = matmul(tr(xk), y)
        g1 = emap(lambda u, v: u - v, matmul(xty, tr(xty)), [[env.const(lam) if i == j else env.const(0) for j in range(p)] for i in range(p)])
        g2 = emap(lambda u, v: u + v, matmul(tr(xk), xk), [[nu if i == j else env.const(0) for j in range(p)] for i in range(p)])
        w = [[r[c]] for r in W]
        l, r = matmul(g1, w), matmul(g2, w)
        if c == 0:
            # (g2)^-1 g1 w = lambda w: both sides are parallel
            env.check('eigenvector', *[env.eq(l[i][0] * r[j][0], l[j][0] * r[i][0]) for i in range(p) for j in range(i)])
        t = matmul(xk, w)
        xk = emap(lambda u, v: u - v, xk, matmul(t, tr([[q[c]] for q in P])))


def converged(env, K, y, T):
    """Each score vector has the greatest covariance with the responses that is left: t is the leading eigenvector of K Y Y'."""
    for j in range(len(T[0])):
        t = [[r[j]] for r in T]
        tt = matmul(tr(t), t)[0][0]
        v = matmul(K, matmul(y, matmul(tr(y), t)))
        lam = matmul(tr(t), v)[0][0] / tt
        env.check('score vector %d solves its eigenvalue problem' % (j + 1), env.eq(v, [[lam * r[0]] for r in t]))
        g = matmul(tr(y), matmul(K, y))
        if len(g) == 2:
            h = g[0][0] - g[1][1]
            top = (g[0][0] + g[1][1] + env.sqrt(h * h + 4 * g[0][1] * g[1][0])) / 2
            env.check('score vector %d leads' % (j + 1), env.eq(lam, top))
        pr = [[(1 if i == k else 0) - t[i][0] * t[k][0] / tt for k in range(len(t))] for i in range(len(t))]
        K = matmul(pr, matmul(K, pr))
        y = matmul(pr, y)


def multi(env, which, k, n, p, nc, flags):
    """Several responses: the fit on the score space is least squares for every response."""
    z = grid(env, 'z', 2, p)
    env.doubles()
    x, y1 = data(env, n, p, 1, 0)
    cols = [lambda t: t, lambda t: t * t - 3, lambda t: 4 + t * t * t * env.const('1/8')]
    y = [[f(r[0]) for f in cols[:k]] for r in y1]
    a = build(env, which, nc)
    for f, v in flags:
        setattr(a, f, v)
    env.check('trained', env.lit(train(env, a, which, x, y) is None))
    my = means(y)
    zp = data_of(a.predict(env.M(z)))
    xp = data_of(a.predict(env.M(x)))
    if which == 'KernelPLS':
        T = data_of(a.get_matrix('T'))
        want = solve(matmul(tr(T), T), matmul(tr(T), shift(y, my)))
        env.check('least squares on the scores', env.eq(shift(xp, my), matmul(T, want)))
        diag(env, 'orthonormal scores', T, True)
        xc = shift(x, means(x))
        converged(env, matmul(xc, tr(xc)), shift(y, my), T)
        return
    sy = devs(env, y)
    T, Q = data_of(a.get_matrix('T')), data_of(a.get_matrix('Q'))
    zt = data_of(a.transform(env.M(z)))
    env.check('training scores', env.eq(T, a.transform(env.M(x))))
    diag(env, 'orthogonal scores', T)
    xs = shift(x, means(x), devs(env, x))
    converged(env, matmul(xs, tr(xs)), shift(y, my, sy), T)
    want = solve(matmul(tr(T), T), matmul(tr(T), shift(y, my, sy)))
    env.check('least squares on the scores', env.eq(xp, [[v * s + m for v, s, m in zip(r, sy, my)] for r in matmul(T, want)]))
    env.check('predictions from the scores', env.eq(zp, [[v * s + m for v, s, m in zip(r, sy, my)] for r in matmul(zt, tr(Q))]))


def kernel_model(env, kernel, opts, n, p, k, nc):
    x, y1 = data(env, n, p, 1, 0)
    x = [[v / 4 for v in r] for r in x]
    cols = [lambda t: t, lambda t: t * t - 3]
    y = [[f(r[0]) for f in cols[:k]] for r in y1]
    a = build(env, 'KernelPLS', nc)
    K = getattr(env.lib('wai.ma.transformation.kernel'), kernel)()
    for f, v in opts:
        setattr(K, f, env.const(v) if isinstance(v, str) else v)
    a.kernel = K
    env.check('trained', env.lit(train(env, a, 'KernelPLS', x, y) is None))
    return a, K, x, y


def kernel_space(env, kernel, opts, n, p, k, nc):
    """Kernels that are not linear: least squares on the scores, up to the offset."""
    z = grid(env, 'z', 2, p, lo=-3, hi=3)
    env.doubles()
    a, K, x, y = kernel_model(env, kernel, opts, n, p, k, nc)
    mx, my = means(x), means(y)
    T, U = data_of(a.get_matrix('T')), data_of(a.get_matrix('U'))
    diag(env, 'orthonormal scores', T, True)
    yc = shift(y, my)
    fitted = matmul(T, matmul(tr(T), yc))
    xp = data_of(a.predict(env.M(x)))
    rel = lambda g: [[u - v for u, v in zip(r, g[0])] for r in g[1:]]
    env.check('least squares on the scores up to the offset', env.eq(rel(xp), rel(fitted)))
    # scores of new rows: centred kernel values times U, up to the offset
    xc = env.M(shift(x, mx))
    kz = data_of(K.apply_matrix(env.M(shift(z, mx)), xc))
    kz = rel([[v - vsum(r) / n for v in r] for r in kz])
    zt = data_of(a.transform(env.M(z)))
    env.check('scores of new rows up to the offset', env.eq(rel(zt), matmul(kz, U)))
    xt = data_of(a.transform(env.M(x)))
    zp = data_of(a.predict(env.M(z)))
    # predictions are one affine map of the scores
    q = matmul(tr(T), yc)
    kk = data_of(K.apply_matrix(xc))
    rm = [vsum(r) / n for r in kk]
    tot = vsum(rm) / n
    kc = [[kk[i][j] - rm[i] - rm[j] + tot for j in range(n)] for i in range(n)]
    m = solve(matmul(matmul(tr(T), kc), U), q)
    env.check('predictions from the scores', env.eq(shift(zp, my), matmul(zt, m)), env.eq(shift(xp, my), matmul(xt, m)))


def kernel_offset(env, kernel, opts, n, p, k, nc):
    """The offset: the predictions for the training rows have the mean of the responses."""
    env.doubles()
    a, K, x, y = kernel_model(env, kernel, opts, n, p, k, nc)
    env.check('mean of the predictions', env.eq(means(data_of(a.predict(env.M(x)))), means(y)))


def order(env, which, nc):
    """The order of the training rows is irrelevant."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    x, y = data(env, 8, 3, 0, 1)
    pm = [5, 2, 7, 0, 1, 6, 4, 3]
    a, b = build(env, which, nc), build(env, which, nc)
    train(env, a, which, x, y)
    train(env, b, which, [x[i] for i in pm], [y[i] for i in pm])
    env.check('predictions', env.eq(a.predict(env.M(z)), b.predict(env.M(z))))


def online(env, which, nc, n, p):
    s = env.real('s', lo=-0.5, hi=0.5)
    x, y = line(env, n, p, s)
    z = grid(env, 'z', 1, p)
    a = build(env, which, nc)
    env.check('trained', env.lit(train(env, a, which, x, y) is None))
    env.check('predictions', env.eq(data_of(a.predict(env.M(z))), ref(env, which, x, y, z, nc)))
    if which == 'PLS1':
        zt, b = data_of(a.transform(env.M(z))), data_of(a.get_matrix('b_hat'))
        env.check('predictions from the scores', env.eq(matmul(zt, b), data_of(a.predict(env.M(z)))))
        env.check('predictions from the coefficients', env.eq(matmul(z, data_of(a.get_matrix('RegVector'))), data_of(a.predict(env.M(z)))))


FIT = ('PLS1', 'SIMPLS', 'NIPALS', 'KernelPLS', 'OPLS', 'SparsePLS', 'PRM', 'CCARegression')


POWER = {'PLS1': 1, 'OPLS': 1, 'SparsePLS': 1, 'KernelPLS': 2}      # of the units of the predictors in the scores


def units(env, which, ex, ey, n, p, k, nc):
    """Predictors and response in other units give the same model in those units."""
    z = grid(env, 'z', 2, p)
    env.doubles()
    x, y = data(env, n, p, k, 2)
    fx, fy = env.const(Fraction(2) ** ex), env.const(Fraction(2) ** ey)
    out = []
    for cx, cy in ((env.const(1), env.const(1)), (fx, fy)):
        a = build(env, which, nc)
        env.check('trained', env.lit(train(env, a, which, emap(lambda v: v * cx, x), emap(lambda v: v * cy, y)) is None))
        t = data_of(a.transform(env.M(emap(lambda v: v * cx, z))))
        q = POWER.get(which, 0)
        for _ in range(q):
            t = emap(lambda v: v / cx, t)
        r = [t]
        if which != 'CCARegression':
            r.append(emap(lambda v: v / cy, data_of(a.predict(env.M(emap(lambda v: v * cx, z))))))
        out.append(r)
    env.check('scores', env.eq(out[1][0], out[0][0]))
    env.check('predictions', *[env.eq(a, b) for a, b in zip(out[1][1:], out[0][1:])])


def cleaned(env, n, p, k):
    """Several orthogonal directions: rows are cleaned by the deflation of the training data."""
    env.doubles()
    x, y = data(env, n, p, k, 0)
    a = make(env, 'OPLS', 1)
    a.num_components = 2
    a.base_PLS.num_components = 1
    env.check('trained', env.lit(train(env, a, 'OPLS', x, y) is None))
    env.check('training rows are cleaned as in training', env.eq(a.transform(env.M(x)), a.X_osc))


def scenarios(tier):
    S = Suite()
    S.add('OPLS several directions', cleaned, n=8, p=4, k=0)
    for n, p, k, orth in ((9, 5, -1, 3), (11, 6, -1, 4), (8, 4, -1, 3)):
        S.add('parts OPLS %dx%d/%d orthogonal=%d' % (n, p, k, orth), parts_only, n=n, p=p, k=k, off=0, orth=orth)
    sets = [(8, 3, 0, 0), (9, 4, 1, 0), (7, 2, 3, 5), (12, 3, 2, -4)]
    if tier == 'thorough':
        sets += [(20, 4, 0, 2), (6, 3, 4, 1), (10, 4, 5, 0)]
    for w in FIT:
        for n, p, k, off in sets:
            ncs = [2] if w in ('OPLS',) else [1] if w == 'CCARegression' else list(range(1, p + 1))
            if w == 'OPLS' and p > 2:
                ncs.append(3)
            for nc in ncs:
                if w == 'OPLS' and nc == 3:
                    S.add('parts OPLS %dx%d/%d' % (n, p, k), parts_only, n=n, p=p, k=k, off=off)
                    continue
                S.add('fit %s %dx%d/%d nc=%d' % (w, n, p, k, nc), fit, which=w, n=n, p=p, k=k, off=off, nc=nc)
        for f in ('centred', 'tall', 'repeated') + (() if w in ('KernelPLS', 'OPLS') else ('scaled',)) + (('short',) if w != 'CCARegression' else ()):
            for nc in ([1] if w == 'CCARegression' else [2] if w == 'OPLS' else [1, 2, 3]):
                S.add('fit %s %s nc=%d' % (w, f, nc), fit, which=w, n=0, p=3, k=0, off=0, nc=nc, prof=f)
        S.add('order %s' % w, order, which=w, nc=2 if w != 'CCARegression' else 1)
        for ex, ey in ((-10, 0), (-24, 0), (24, 0), (0, -24), (0, 24), (-38, -38)) + (((-50, 0), (0, -50), (40, 30)) if tier == 'thorough' else ()):
            if w != 'PRM' or ey >= 0:
                S.add('units %s 2^%d 2^%d' % (w, ex, ey), units, which=w, ex=ex, ey=ey, n=8, p=3, k=1, nc=1 if w == 'CCARegression' else 2)
    for lam in ('1', '1/10', '3'):
        S.add('VCPLS %s' % lam, vcpls, n=8, p=3, k=0, nc=2, lam=lam)
        S.add('VCPLS %s two columns' % lam, vcpls, n=7, p=2, k=1, nc=1, lam=lam)
    S.add('order VCPLS', order, which='VCPLS', nc=2)
    for k in (2, 3):
        S.add('NIPALS %d responses' % k, multi, which='NIPALS', k=k, n=9, p=3, nc=2, flags=())
        S.add('NIPALS %d responses normalised' % k, multi, which='NIPALS', k=k, n=9, p=4, nc=3, flags=(('norm_Y_weights', True),))
        S.add('KernelPLS %d responses' % k, multi, which='KernelPLS', k=k, n=9, p=3, nc=2, flags=())
    for kernel, opts in (('PolyKernel', (('degree', 2), ('coef_0', '1/2'))), ('PolyKernel', (('degree', 3),)), ('RBFKernel', ()), ('RBFKernel', (('gamma', '1/2'),)), ('LinearKernel', ())):
        for n, p, k, nc in ((8, 2, 1, 2), (7, 3, 2, 3)):
            S.add('kernel space %s %s %dx%d/%d' % (kernel, ' '.join('%s=%s' % o for o in opts), n, p, k), kernel_space, kernel=kernel, opts=opts, n=n, p=p, k=k, nc=nc if kernel != 'LinearKernel' else 2)
    for kernel in ('LinearKernel', 'PolyKernel', 'RBFKernel'):
        S.add('kernel offset %s' % kernel, kernel_offset, kernel=kernel, opts=(), n=8, p=2, k=1, nc=2)
    for w, nc, n, p in (('PLS1', 1, 4, 2), ('PLS1', 1, 5, 3), ('SIMPLS', 1, 4, 2), ('SIMPLS', 1, 5, 3)):
        S.add('line %s %d %dx%d' % (w, nc, n, p), online, which=w, nc=nc, n=n, p=p)
    return S


def parts_only(env, n, p, k, off, orth=2):
    z = grid(env, 'z', 2, p)
    env.doubles()
    x, y = data(env, n, p, k, off) if k >= 0 else wide(env, n, p)
    a = make(env, 'OPLS', 1)
    a.num_components = orth
    a.base_PLS.num_components = 1
    env.check('trained', env.lit(train(env, a, 'OPLS', x, y) is None))
    parts(env, 'OPLS', a, x, y, z, 1)
