"""Principal components: scores are the preprocessed data times the loadings, uncorrelated, ordered by variance, and as many as the options ask for."""
from .alg import *
from fractions import Fraction
from .pls_ref import means, devs, shift

BOUNDS = ('fixed data sets of 2-9 rows and 1-6 columns (constant columns anywhere) with every variance threshold in (0, 1) and every column limit up to 6, centered or standardised')
ASSUMPTIONS = ['fixed data run in double arithmetic, results equal up to 1e-9 relative']


def data(env, n, p, const, k=0):
    x, _ = line(env, n, p, k=k)
    for j in const:
        for r in x:
            r[j] = env.const(7)
    for i, r in enumerate(x):
        for j in range(p):
            if j not in const:
                r[j] = r[j] * (1 + j) + i * j
    return x


def spiked(env, n, p, col, row, size):
    """A column that is constant but for one row."""
    x = data(env, n, p, ())
    for i, r in enumerate(x):
        r[col] = env.const(7) + (env.const(size) if i == row % n else 0)
    return x


def spike(env, n, p, col, row, size, center):
    env.doubles()
    x = spiked(env, n, p, col, row, size)
    keep, xs = prep(env, x, center)
    a = cls(env, 'PCA')()
    a.center = center
    a.variance = 1 - 1e-12
    s = data_of(a.transform(env.M(x)))
    env.check('nothing is constant', env.lit(len(keep) == p))
    relation(env, a, x, keep, xs, s)
    if not center:
        env.check('all of the variance', env.eq(total(s), total(xs)))


def prep(env, x, center):
    keep = [j for j in range(len(x[0])) if any(r[j] != x[0][j] for r in x)]
    g = [[r[j] for j in keep] for r in x]
    return keep, shift(g, means(g), None if center else devs(env, g))


def total(x):
    return vsum([vsum([r[j] * r[j] for r in x]) for j in range(len(x[0]))])


def full(env, n, p, const, center, k=0):
    """Every component: orthonormal loadings, uncorrelated scores with decreasing variance that add up to the total."""
    v = env.real('v', lo=0, hi=1)
    env.assume(v > env.const('0.999999999'))
    env.assume(v < 1)
    env.doubles()
    x = data(env, n, p, const, k)
    keep, xs = prep(env, x, center)
    a = cls(env, 'PCA')()
    a.center = center
    a.variance = v
    s = data_of(a.transform(env.M(x)))
    relation(env, a, x, keep, xs, s)
    if len(s[0]) == len(keep):
        env.check('all of the variance', env.eq(total(s), total(xs)))


def relation(env, a, x, keep, xs, s):
    p = len(x[0])
    L = data_of(a.loadings)
    k = len(s[0])
    env.check('shapes', env.lit(len(s) == len(x)), env.lit(len(L) == p and len(L[0]) == k + 1, (len(L), len(L[0]), k)))
    env.check('index column', *[env.eq(L[i][k], i + 1) for i in range(p)])
    env.check('constant columns do not load', *[env.eq(L[j][c], 0) for j in range(p) if j not in keep for c in range(k)])
    K = [[L[j][c] for c in range(k)] for j in keep]
    env.check('scores are data times loadings', env.eq(s, matmul(xs, K)))
    env.check('stored scores', env.eq(a.scores, s))
    g, h = matmul(tr(s), s), matmul(tr(K), K)
    env.check('orthonormal loadings', *[env.eq(h[i][j], 1 if i == j else 0) for i in range(k) for j in range(k)])
    env.check('uncorrelated scores', *[env.eq(g[i][j], 0) for i in range(k) for j in range(k) if i != j])
    env.check('decreasing variance', *[env.ge(g[i][i], g[i + 1][i + 1]) for i in range(k - 1)])


def threshold(env, n, p, const, center, k=0):
    """The smallest number of leading components that reaches the threshold, never more than the limit."""
    v = env.real('v', lo=0, hi=1)
    env.assume(v > env.const('1/1000'))
    env.assume(v < env.const('999999/1000000'))
    m = env.int('m', -1, 6)
    env.assume(env.ne(m, 0))
    env.doubles()
    x = data(env, n, p, const, k)
    keep, xs = prep(env, x, center)
    ref = cls(env, 'PCA')()
    ref.center = center
    ref.variance = 1 - 1e-15
    S = data_of(ref.transform(env.M(x)))
    var = [vsum([r[c] * r[c] for r in S]) for c in range(len(S[0]))]
    tot = total(xs)
    for c in range(len(var)):
        d = v - vsum(var[:c + 1]) / tot
        env.assume(env.disj([env.true(d > env.const('1e-9')), env.true(d < env.const('-1e-9'))]))   # not within rounding of a step
    m = m.__index__()
    a = cls(env, 'PCA')()
    a.center = center
    a.variance = v
    a.max_columns = m
    s = data_of(a.transform(env.M(x)))
    kk = len(s[0])
    env.check('leading components', env.eq(s, [r[:kk] for r in S]))
    lim = len(keep) if m == -1 else min(m, len(keep))
    env.check('limit', env.lit(kk <= lim, (kk, lim)))
    env.check('enough', env.lit(kk == lim) if kk == lim else env.true(vsum(var[:kk]) >= v * tot))
    if kk > 1:
        env.check('no more than needed', env.true(vsum(var[:kk - 1]) < v * tot))
    relation(env, a, x, keep, xs, s)


def units(env, n, p, const, center, exps):
    """Columns in units of their own do not matter when standardising, units shared by all of them only scale the scores when centering."""
    env.doubles()
    x = data(env, n, p, const)
    out = []
    for f in ([env.const(1)] * p, [env.const(Fraction(2) ** exps[0 if center else j % len(exps)]) for j in range(p)]):
        a = cls(env, 'PCA')()
        a.center = center
        a.variance = 1 - 1e-12
        s = data_of(a.transform(env.M([[v * q for v, q in zip(r, f)] for r in x])))
        out.append((emap(lambda v: v / f[0] if center else v, s), data_of(a.loadings)))
    env.check('as many components', env.lit(len(out[1][0][0]) == len(out[0][0][0])))
    env.check('scores', env.eq(out[1][0], out[0][0]))
    env.check('loadings', env.eq(out[1][1], out[0][1]))


def again(env, center):
    """Every call starts from its own data."""
    env.doubles()
    a, b = cls(env, 'PCA')(), cls(env, 'PCA')()
    a.center = b.center = center
    a.transform(env.M(data(env, 6, 4, (1,))))
    x = data(env, 7, 3, (), 1)
    env.check('same scores', env.eq(a.transform(env.M(x)), b.transform(env.M(x))))
    env.check('same loadings', env.eq(a.loadings, b.loadings))


def scenarios(tier):
    S = Suite()
    sets = [(6, 3, (), 0), (7, 4, (1,), 0), (8, 4, (0, 3), 1), (5, 2, (), 2), (9, 5, (4,), 0), (6, 2, (0,), 0), (6, 1, (), 0), (4, 4, (), 0), (8, 5, (1, 2), 3), (3, 5, (), 0), (4, 6, (2,), 1), (2, 3, (), 0)]
    if tier == 'thorough':
        sets += [(20, 6, (2,), 0), (12, 5, (0, 1), 4), (3, 3, (), 1), (30, 4, (), 2)]
    for n, p, c, k in sets:
        for ce in (True, False):
            tag = '%dx%d const=%s %s' % (n, p, list(c), 'centered' if ce else 'standardised')
            S.add('full ' + tag, full, n=n, p=p, const=c, center=ce, k=k)
            S.add('threshold ' + tag, threshold, n=n, p=p, const=c, center=ce, k=k)
    for n in dict.fromkeys([6, 40] + [k + d for k in mined_ints(['_PCA', 'helper', '_Matrix', '_Standardize', '_Center'], 4, 130)[:8] for d in (1, 4)]):
        for row in (0, -1, n // 2):
            for size in ('1', '1/1024'):
                S.add('single deviation %d rows, at %d, %s' % (n, row, size), spike, n=n, p=3, col=row % 3, row=row, size=size, center=size != '1')
    for e in ((-10, 3, 0), (-24, 0, 4), (20, -20, 1), (-36, -40, 0)):
        for n, p, c in ((6, 3, ()), (8, 4, (1,))):
            for ce in (True, False) if e[0] > -36 else (False,):
                S.add('units 2^%s %dx%d %s' % (list(e), n, p, 'centered' if ce else 'standardised'), units, n=n, p=p, const=c, center=ce, exps=e)
    for ce in (True, False):
        S.add('again %s' % ce, again, center=ce)
    return S
