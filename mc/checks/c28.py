"""Sparse and robust PLS: soft-thresholded directions and feature selection, coefficient slimming, robust weights and the reweighted fit."""
from .alg import *
from .pls_ref import *

BOUNDS = ('direction vectors: all real X (3x2, 2x3), y and thresholds; feature selection: five training sets of 7-10 rows and 2-4 columns, 1-3 components, every threshold in [0, 0.95] not within '
          '1e-3 of a selection step; slimming: all real 3- and 4-element columns (also next to fixed ones), every count up to 5; weights: all real vectors of up to 3-5 elements, all constants >= 1/10; reweighted fit: listed sets and constants; all new rows')
ASSUMPTIONS = ['fixed training data run in double arithmetic, results equal up to 1e-9 relative', 'non-zero median of the covariances (sparse), scale and distances (robust)']


def med(v):
    """Median of symbolic values (splits into the relative orders)."""
    s = []
    for x in v:
        i = 0
        while i < len(s) and bool(s[i] < x):
            i += 1
        s.insert(i, x)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def mag(x):
    return x if bool(x >= 0) else -x


def soft(z, lam):
    """Soft-thresholded vector in units of the median magnitude."""
    a = [mag(v) for v in z]
    m = med(a)
    mx = a[0]
    for v in a[1:]:
        if bool(v > mx):
            mx = v
    out = []
    for v, q in zip(z, a):
        t = (q - lam * mx) / m
        out.append(0 if bool(t < 0) else (t if bool(v >= 0) else -t))
    return out


def direction(env, n, p, free):
    x = [[env.const((i * 2 + j * 5) % 7 - 3) for j in range(p)] for i in range(n)]
    if free:
        for i, j in free:
            x[i][j] = env.real('x_%d_%d' % (i, j))
    y = grid(env, 'y', n, 1)
    lam = env.real('lam', lo=0, hi=1)
    env.assume(lam < 1)
    a = cls(env, 'SparsePLS')()
    a.lambda_ = lam
    z = [r[0] for r in matmul(tr(x), y)]
    for v in z:
        env.assume(env.ne(v, 0))
    w = [r[0] for r in data_of(a.get_direction_vector(env.M(x), env.M(y), 0))]
    c = soft(z, lam)
    cc = vsum([v * v for v in c])
    env.check('soft-thresholded direction', *[env.eq(u * cc, v) for u, v in zip(w, c)])


def prep(env, n, p, k):
    x, y = line(env, n, p, k=k)
    x = [[v + (i * (j + 2)) % 5 for j, v in enumerate(r)] for i, r in enumerate(x)]
    return x, y


def selection(env, n, p, k, nc, scores=True):
    """The fitted model uses exactly the selected columns and is the PLS fit on them."""
    z = grid(env, 'z', 1, p)
    lam = env.real('lam', lo=0, hi=0.95)
    env.doubles()
    x, y = prep(env, n, p, k)
    mx, my, sx, sy = means(x), means(y), devs(env, x), devs(env, y)
    xs, ys = shift(x, mx, sx), shift(y, my, sy)
    yj, B = ys, [[env.const(0)] for _ in range(p)]
    W, sel = [], []
    for c in range(nc):
        v = [r[0] for r in matmul(tr(xs), yj)]
        a = [mag(q) for q in v]
        m = med(a)
        top = max(range(p), key=lambda i: float(a[i]) if not env.symbolic else a[i].approx() if hasattr(a[i], 'approx') else i)
        for i in range(p):
            if bool(a[i] > a[top]):
                top = i
        for q in a:
            d = q / a[top] - lam
            env.assume(env.disj([env.true(d > env.const('1/1000')), env.true(d < env.const('-1/1000'))]))
        w = [(0 if bool(q < lam * a[top]) else ((q - lam * a[top]) / m) * (1 if bool(u >= 0) else -1)) for q, u in zip(a, v)]
        ww = vsum([q * q for q in w])
        W.append([q / ww for q in w])
        A = [i for i in range(p) if not (isinstance(w[i], int)) or bool(mag(B[i][0]) > env.const('1/1000000'))]
        b = pls([[r[i] for i in A] for r in xs], ys, min(len(A), c + 1))
        B = [[env.const(0)] for _ in range(p)]
        for i, r in zip(A, b):
            B[i] = r
        yj = emap(lambda u, t: u - t, ys, matmul(xs, B))
        sel = A
    s = cls(env, 'SparsePLS')()
    s.num_components = nc
    s.lambda_ = lam
    env.check('trained', env.lit(s.initialize(env.M(x), env.M(y)) is None))
    env.check('selected columns', env.lit(sorted(s.A) == sel, (sorted(s.A), sel)))
    env.check('coefficients', env.eq(s.get_matrix('B'), B))
    env.check('predictions', env.eq(s.predict(env.M(z)), [[r[0] * sy[0] + my[0]] for r in matmul(shift(z, mx, sx), B)]))
    Wm = data_of(s.get_matrix('W'))
    env.check('directions', *[env.eq(Wm[i][c], W[c][i]) for c in range(nc) for i in range(p)])


def unit(env):
    """Direction vectors have unit length."""
    env.doubles()
    x, y = prep(env, 8, 3, 0)
    s = cls(env, 'SparsePLS')()
    s.num_components = 1
    s.lambda_ = env.const('1/2')
    s.initialize(env.M(x), env.M(y))
    env.check('direction of unit length', env.eq(vsum([r[0] * r[0] for r in data_of(s.get_matrix('W'))]), 1))


def slim(env, n, cols, k):
    g = [[env.real('w_%d' % i) if c == 0 and i < 3 else env.const((i * 2 + c) % 5 - 2) for c in range(cols)] for i in range(n)]
    a = cls(env, 'SIMPLS')()
    a.num_coefficients = k
    m = env.M(g)
    a.slim(m)
    out = data_of(m)
    for c in range(cols):
        col = [mag(r[c]) for r in g]
        for i in range(n):
            larger = sum(1 for v in col if bool(v > col[i]))
            # kept if fewer than k + 1 elements are larger, see 'slim count'
            env.check('kept or zeroed', env.eq(out[i][c], g[i][c] if larger <= k else 0))


def slim_count(env):
    g = [[env.const(v)] for v in (3, -5, 1, 4)]
    a = cls(env, 'SIMPLS')()
    k = idx(env, 'k', 1, 3)
    a.num_coefficients = k
    m = env.M(g)
    a.slim(m)
    env.check('as many coefficients as asked for', env.lit(sum(1 for r in data_of(m) if bool(r[0] != 0)) == k))


def slim_fit(env, k):
    """Only the slimmed weights change: coefficients are W Q'."""
    z = grid(env, 'z', 1, 4)
    env.doubles()
    x, y = prep(env, 9, 4, 0)
    a, b = cls(env, 'SIMPLS')(), cls(env, 'SIMPLS')()
    a.num_components = b.num_components = 2
    a.num_coefficients = k
    a.initialize(env.M(x), env.M(y))
    b.initialize(env.M(x), env.M(y))
    W, F = data_of(a.get_matrix('W')), data_of(b.get_matrix('W'))
    for c in range(2):
        col = [mag(r[c]) for r in F]
        for i in range(4):
            larger = sum(1 for v in col if bool(v > col[i]))
            env.check('weights', env.eq(W[i][c], F[i][c] if larger <= k or k <= 0 else 0))
    env.check('regression on the scores', env.eq(a.get_matrix('Q'), b.get_matrix('Q')))
    env.check('coefficients', env.eq(a.get_matrix('B'), matmul(W, tr(data_of(a.get_matrix('Q'))))))
    env.check('predictions', env.eq(a.predict(env.M(z)), matmul(z, data_of(a.get_matrix('B')))))
    env.check('scores', env.eq(a.transform(env.M(z)), matmul(z, W)))


def fair(v, c):
    q = 1 + mag(v / c)
    return 1 / (q * q)


def fair_fn(env):
    z, c = env.real('z'), env.real('c')
    env.assume(env.ne(c, 0))
    a = cls(env, 'PRM')()
    w = a.fair_function(z, c)
    env.check('formula', env.eq1(w, fair(z, c)))
    env.check('between 0 and 1', env.true(w > 0), env.true(w <= 1))


def mad(env, n):
    v = grid(env, 'v', n, 1)
    a = cls(env, 'PRM')()
    m = med([r[0] for r in v])
    env.check('median deviation from the median', env.eq1(a.median_absolute_deviation(env.M(v)), med([mag(r[0] - m) for r in v])))


def dist(env, n, p):
    x, c = grid(env, 'x', n, p), grid(env, 'c', 1, p)
    a = cls(env, 'PRM')()
    d = a.c_dist(env.M(x), env.M(c))
    env.check('distances', env.eq(d, [[env.sqrt(vsum([(u - v) * (u - v) for u, v in zip(r, c[0])]))] for r in x]))


def residual_weights(env, n):
    """First iteration: deviations from the median response in units of their median."""
    C = env.real('C', lo=0.1, hi=10)
    a = cls(env, 'PRM')()
    a.C = C
    m = 3 if n == 3 else 2
    y = grid(env, 'y', m, 1) + [[env.const(i * i - 3)] for i in range(n - m)]
    v = [r[0] for r in y]
    m = med(v)
    d = [q - m for q in v]
    md = med(d)
    s = med([mag(q - md) for q in d])
    env.assume(env.true(s > env.const('1/100')))
    a.update_residual_weights(env.M([[env.const(0)] for _ in range(n)]), env.M(y))
    env.check('weights', *[env.eq1(w[0], fair(q / s, C)) for w, q in zip(data_of(a.W_r), d)])


def later_weights(env, n, nc, free):
    """Later iterations: residuals of the fit so far in units of their median absolute deviation."""
    C = env.real('C', lo=0.1, hi=10)
    a = cls(env, 'PRM')()
    a.C = C
    T = [[env.const((i * 3 + j * 5 + i * i) % 7 - 3) for j in range(nc)] for i in range(n)]
    a.gamma = env.M([[env.const('%d/2' % (j + 1))] for j in range(nc)])
    a.T = env.M(T)
    y = [[env.const((i * i * 5 + 2 * i) % 11 - 4)] for i in range(n)]
    for i in free:
        y[i] = [env.real('y_%d' % i)]
    d = [y[i][0] - vsum([T[i][j] * env.const('%d/2' % (j + 1)) for j in range(nc)]) for i in range(n)]
    srt = lambda l: sorted_(env, l)
    med = lambda l: (srt(l)[n // 2] + srt(l)[(n - 1) // 2]) / 2
    md = med(d)
    s = med([mag(q - md) for q in d])
    env.assume(env.true(s > env.const('1/100')))
    a.update_residual_weights(env.M([[env.const(0)] for _ in range(n)]), env.M(y))
    env.check('weights', *[env.eq1(w[0], fair(q / s, C)) for w, q in zip(data_of(a.W_r), d)])


def leverage(env, n, p, k, C):
    """Weights from the distances to the geometric median, which is stationary for the sum of distances."""
    env.doubles()
    x, _ = prep(env, n, p, k)
    a = cls(env, 'PRM')()
    a.tol = 1e-20
    a.max_iter = 3000
    a.C = env.const(C)
    a.update_leverage_weights(env.M(x))
    g = data_of(a.geometric_median(env.M(x)))[0]
    d = [env.sqrt(vsum([(u - v) * (u - v) for u, v in zip(r, g)])) for r in x]
    env.check('geometric median', *[env.ge(env.const('1/100000'), mag(vsum([(r[j] - g[j]) / q for r, q in zip(x, d)]))) for j in range(p)])
    m = med(d)
    env.check('weights', *[env.eq1(w[0], fair(q / m, env.const(C))) for w, q in zip(data_of(a.W_x), d)])


def reweighted(env, n, p, k, nc, C):
    """The model is the PLS fit of the rows scaled with the square roots of the starting weights."""
    z = grid(env, 'z', 2, p)
    env.doubles()
    x, y = prep(env, n, p, k)
    a = cls(env, 'PRM')()
    a.num_components = nc
    a.C = env.const(C)
    ref = cls(env, 'PRM')()
    ref.C = env.const(C)
    ref.init_weights(env.M(x), env.M(y))
    w = [env.sqrt(u[0] * v[0]) for u, v in zip(data_of(ref.W_r), data_of(ref.W_x))]
    env.check('trained', env.lit(a.initialize(env.M(x), env.M(y)) is None))
    b = pls([[v * s for v in r] for r, s in zip(x, w)], [[r[0] * s] for r, s in zip(y, w)], nc)
    env.check('predictions', env.eq(a.predict(env.M(z)), matmul(z, b)))
    env.check('coefficients', env.eq(a.get_matrix('B'), b))
    wr, wx = data_of(a.get_matrix('Wr')), data_of(a.get_matrix('Wx'))
    env.check('combined weights', env.eq(a.get_matrix('W'), emap(lambda u, v: u * v, wr, wx)))
    env.check('weights between 0 and 1', *[env.true(v[0] > 0) for v in wr + wx] + [env.true(v[0] <= 1) for v in wr + wx])


def wide(env, n, p, nc, C):
    """More columns than rows: same fit after rotating the data."""
    z = grid(env, 'z', 1, p)
    env.doubles()
    x, y = prep(env, n, p, 0)
    a = cls(env, 'PRM')()
    a.num_components = nc
    a.C = env.const(C)
    env.check('trained', env.lit(a.initialize(env.M(x), env.M(y)) is None))
    # distances and residuals are invariant under the rotation
    ref = cls(env, 'PRM')()
    ref.C = env.const(C)
    ref.init_weights(env.M(x), env.M(y))
    w = [env.sqrt(u[0] * v[0]) for u, v in zip(data_of(ref.W_r), data_of(ref.W_x))]
    b = pls([[v * s for v in r] for r, s in zip(x, w)], [[r[0] * s] for r, s in zip(y, w)], nc)
    env.check('predictions', env.eq(a.predict(env.M(z)), matmul(z, b)))


def converged(env):
    """The weights a model ends with are those its coefficients were fitted with."""
    env.doubles()
    x, y = prep(env, 10, 2, 0)
    a = cls(env, 'PRM')()
    a.num_components = 1
    a.initialize(env.M(x), env.M(y))
    w = [env.sqrt(r[0]) for r in data_of(a.get_matrix('W'))]
    b = pls([[v * s for v in r] for r, s in zip(x, w)], [[r[0] * s] for r, s in zip(y, w)], 1)
    g = data_of(a.get_matrix('B'))
    env.check('fitted with the final weights', *[env.ge(env.const('1/1000'), mag(u[0] - v[0])) for u, v in zip(g, b)])


def big(env, n, k):
    """Larger samples: fixed values and one that is anything."""
    v = [env.const((i * i * 7 + 3 * i) % 23 - 11) for i in range(n)]
    v[k] = env.real('v')
    a = cls(env, 'PRM')()
    srt = lambda l: sorted_(env, l)
    med = lambda l: (srt(l)[n // 2] + srt(l)[(n - 1) // 2]) / 2
    m = med(v)
    env.check('median absolute deviation', env.eq(a.median_absolute_deviation(env.M([[x] for x in v])), med([mag(x - m) for x in v])))


def sorted_(env, l):
    out = []
    for x in l:
        k = 0
        while k < len(out) and env.decide(env.true(out[k] <= x)):
            k += 1
        out.insert(k, x)
    return out


def scenarios(tier):
    S = Suite()
    for n in [5, 6, 7, 8, 11, 20] + [q + 1 for q in mined_ints(['PRM'], 5, 60)][:4]:
        S.add('deviation of %d' % n, big, n=n, k=n // 3, weight=2)
    S.add('direction 3x2', direction, n=3, p=2, free=((0, 0),))
    S.add('direction 2x3', direction, n=2, p=3, free=None)
    S.add('direction 3x3', direction, n=3, p=3, free=None)
    for n, p, k in ((8, 3, 0), (9, 4, 1), (7, 2, 2), (10, 4, 3)):
        for nc in (1, 2, 3):
            if nc <= 2 or p == 4:
                S.add('selection %dx%d/%d nc=%d' % (n, p, k, nc), selection, n=n, p=p, k=k, nc=nc)
    S.add('unit direction', unit)
    for n, c in ((3, 1), (3, 2), (4, 1)):
        for k in (1, 2, 3, 5):
            S.add('slim %dx%d %d' % (n, c, k), slim, n=n, cols=c, k=k)
    S.add('slim count', slim_count)
    for k in (-1, 0, 1, 2, 3, 4):
        S.add('slim fit %d' % k, slim_fit, k=k)
    S.add('fair function', fair_fn)
    for n in (1, 2, 3, 4) + ((5,) if tier == 'thorough' else ()):
        S.add('deviation %d' % n, mad, n=n)
    for n, p in ((1, 1), (2, 2), (3, 3), (2, 4)):
        S.add('distances %dx%d' % (n, p), dist, n=n, p=p)
    for n in (3, 4) + ((5,) if tier == 'thorough' else ()):
        S.add('residual weights %d' % n, residual_weights, n=n)
    for n, nc, free in ((3, 1, (0, 1, 2)), (4, 2, (0, 3)), (5, 1, (2,)), (7, 2, (1,)), (10, 3, (4,))):
        S.add('residual weights of a fit %dx%d' % (n, nc), later_weights, n=n, nc=nc, free=free)
    for n, p, k in ((7, 2, 0), (8, 3, 1), (10, 4, 2)):
        for C in ('4', '1/2'):
            S.add('leverage %dx%d C=%s' % (n, p, C), leverage, n=n, p=p, k=k, C=C)
            for nc in (1, 2):
                S.add('reweighted %dx%d nc=%d C=%s' % (n, p, nc, C), reweighted, n=n, p=p, k=k, nc=nc, C=C)
    S.add('wide 4x6', wide, n=4, p=6, nc=2, C='4')
    S.add('wide 5x7', wide, n=5, p=7, nc=1, C='1')
    S.add('converged', converged)
    return S
