"""Centering, standardising and row normalising deliver data with the promised statistics."""
from .util import *

BOUNDS = ('all real data (constant columns and rows included), 2-4 rows and 1-3 columns fully symbolic, up to 40 columns/rows with one arbitrary column/row; '
          'constants that double arithmetic cannot average exactly; single samples; statistics from the data itself or from other configuration data')
T = 'wai.ma.transformation'


def colstats(g):
    cols = tr(g)
    return [mean_(c) for c in cols], [ssd(c) / (len(c) - 1) for c in cols]


def center(env, r, c, how):
    C = env.lib(T).Center
    g = grid(env, 'a', r, c)
    m = env.M(g)
    if how == 'quick':
        out = C.quick_apply(m)
    else:
        t = C()
        if how == 'configured':
            t.configure(m)
        out = t.transform(m)
    mu, _ = colstats(g)
    env.check('centred', env.eq(out, [[g[i][j] - mu[j] for j in range(c)] for i in range(r)]))
    env.check('zero column means', *[env.eq(vsum([row[j] for row in data_of(out)]), 0) for j in range(c)])
    env.check('data unchanged', env.eq(m, g))


def standardize(env, r, c, how, const):
    """const: set of columns that hold one repeated value."""
    S = env.lib(T).Standardize
    g = grid(env, 'a', r, c)
    for j in const:
        for i in range(r):
            g[i][j] = g[0][j]
    mu, var = colstats(g)
    for j in range(c):
        if j not in const:
            env.assume(var[j] > env.const('1/100'))
    m = env.M(g)
    if how == 'quick':
        out = S.quick_apply(m)
    else:
        t = S()
        if how == 'configured':
            t.configure(m)
        out = t.transform(m)
        env.check('means and deviations reported', env.eq(t.get_means(), [mu]),
                  env.eq(t.get_std_devs(), [[env.const(1) if j in const else env.sqrt(var[j]) for j in range(c)]]))
    env.check('shape', env.shape(out, r, c))
    o = data_of(out)
    for j in range(c):
        col = [row[j] for row in o]
        if j in const:
            env.check('constant columns become zero', *[env.eq(x, 0) for x in col])
        else:
            sd = env.sqrt(var[j])
            env.check('standardised', *[env.eq(o[i][j] * sd, g[i][j] - mu[j]) for i in range(r)])
            env.check('zero mean', env.eq(vsum(col), 0))
            env.check('unit deviation', env.eq(vsum([x * x for x in col]), r - 1))
    env.check('data unchanged', env.eq(m, g))


def wide_standardize(env, c, k, const):
    """One arbitrary column among fixed ones; others may be constant."""
    S = env.lib(T).Standardize
    g = [[env.const((i * i * (j + 1) + i + j) % 7) if (j % 3) else env.const(5) for j in range(c)] for i in range(4)]
    x = env.vec('x', 4) if not const else [env.real('x')] * 4
    for i in range(4):
        g[i][k] = x[i]
    _, var = colstats(g)
    if not const:
        env.assume(var[k] > env.const('1/100'))
    out = data_of(S().transform(env.M(g)))
    for j in range(c):
        if (j % 3 == 0 and j != k) or (j == k and const):
            env.check('constant columns become zero', *[env.eq(row[j], 0) for row in out])
        else:
            env.check('zero mean, unit deviation', env.eq(vsum([row[j] for row in out]), 0), env.eq(vsum([row[j] * row[j] for row in out]), 3))


def rownorm(env, r, c, how, const):
    N = env.lib(T).RowNorm
    g = grid(env, 'a', r, c)
    for i in const:
        g[i] = [g[i][0]] * c
    mu, var = colstats(tr(g))
    for i in range(r):
        if i not in const:
            env.assume(var[i] > env.const('1/100'))
    m = env.M(g)
    out = N.quick_apply(m) if how == 'quick' else N().transform(m)
    env.check('shape', env.shape(out, r, c))
    o = data_of(out)
    for i in range(r):
        if i in const:
            env.check('constant rows become zero', *[env.eq(x, 0) for x in o[i]])
        else:
            sd = env.sqrt(var[i])
            env.check('normalised', *[env.eq(o[i][j] * sd, g[i][j] - mu[i]) for j in range(c)])
            env.check('zero mean', env.eq(vsum(o[i]), 0))
            env.check('unit deviation', env.eq(vsum([x * x for x in o[i]]), c - 1))
    env.check('data unchanged', env.eq(m, g))


def rownorm_history(env, r, c, ops):
    """Every call normalises the rows it is given, whatever was processed before."""
    N = env.lib(T).RowNorm
    t = N()
    for k, op in enumerate(ops):
        h = grid(env, 'h%d' % k, r, c)
        _, var = colstats(tr(h))
        for v in var:
            env.assume(v > env.const('1/100'))
        (t.transform if op == 't' else t.inverse_transform if op == 'i' else t.configure)(env.M(h))
    g = grid(env, 'a', r, c)
    _, var = colstats(tr(g))
    for v in var:
        env.assume(v > env.const('1/100'))
    out = data_of(t.transform(env.M(g)))
    for i in range(r):
        env.check('zero mean', env.eq(vsum(out[i]), 0))
        env.check('unit deviation', env.eq(vsum([x * x for x in out[i]]), c - 1))


def configured_elsewhere(env, which, r, c, r2):
    """Statistics of the configuration data, applied to other data of any height."""
    K = getattr(env.lib(T), which)
    a, b = grid(env, 'a', r, c), grid(env, 'b', r2, c)
    mu, var = colstats(a)
    for v in var:
        env.assume(v > env.const('1/100'))
    t = K()
    t.configure(env.M(a))
    out = data_of(t.transform(env.M(b)))
    for i in range(r2):
        for j in range(c):
            want = b[i][j] - mu[j]
            env.check('configured statistics', env.eq(out[i][j] * (env.sqrt(var[j]) if which == 'Standardize' else 1), want))


def scaled(env, which, r, c, k):
    """Only truly constant columns (rows) are special: a spread of any size, however small or large, is standardised."""
    s = env.real('s', lo=0)
    env.assume(env.true(s > 0))
    pat = [env.const((3 * i * i + i) % 5) for i in range(r)]
    g = [[env.const((i * (j + 2) + j) % 7) for j in range(c)] for i in range(r)]
    for i in range(r):
        g[i][k] = pat[i] * s
    if which == 'RowNorm':
        out = tr(data_of(env.lib(T).RowNorm().transform(env.M(tr(g)))))
    else:
        t = env.lib(T).Standardize()
        out = data_of(t.transform(env.M(g)))
        back = data_of(t.inverse_transform(env.M(out)))
        env.check('undone', *[env.eq(back[i][k], g[i][k]) for i in range(r)])
    col = [row[k] for row in out]
    env.check('zero mean', env.eq(vsum(col), 0))
    env.check('unit deviation', env.eq(vsum([x * x for x in col]), r - 1))


def single(env, which, n):
    """A single sample is constant in every column (a single column in every row)."""
    a, b = grid(env, 'a', 1, n), grid(env, 'b', 2, n)
    if which == 'RowNorm':
        out = tr(data_of(env.lib(T).RowNorm().transform(env.M(tr(a)))))
    else:
        t = env.lib(T).Standardize()
        out = data_of(t.transform(env.M(a)))
        env.check('other data', env.eq(t.transform(env.M(b)), [[b[i][j] - a[0][j] for j in range(n)] for i in range(2)]))
        env.check('undone', env.eq(t.inverse_transform(env.M(out)), a))
    env.check('becomes zero', env.eq(out, [[0] * n]))


CONSTANTS = ('1/10', '3/10', '7/10', '-1/3', '1e-7', '123456.789', '-0.012345', '1.1e12', '2/3')


def repeated(env, which, n):
    """Constant columns (rows) whose mean is not exactly the constant in double arithmetic."""
    x = env.vec('x', n)
    env.assume(env.true(x[0] > x[1] + 1))
    cs = [env.const(c) for c in CONSTANTS]
    g = [[x[i]] + cs for i in range(n)]
    t = getattr(env.lib(T), which)()
    out = data_of(t.transform(env.M(tr(g)))) if which == 'RowNorm' else tr(data_of(t.transform(env.M(g))))
    env.check('constant columns become zero', *[env.eq(v, 0, tol=1e-3) for col in out[1:] for v in col])
    env.check('zero mean', env.eq(vsum(out[0]), 0))
    env.check('unit deviation', env.eq(vsum([v * v for v in out[0]]), n - 1))


def scenarios(tier):
    S = Suite()
    for w in ('Standardize', 'RowNorm'):
        for n in (1, 2, 4):
            S.add('%s of a single sample %d' % (w, n), single, which=w, n=n)
        for n in (3, 6, 7, 10):
            S.add('%s of a repeated value %d' % (w, n), repeated, which=w, n=n)
    for w in ('Standardize', 'RowNorm'):
        for r, c, k in ((2, 1, 0), (3, 2, 1), (5, 3, 0)):
            S.add('%s of any spread %dx%d' % (w, r, c), scaled, which=w, r=r, c=c, k=k)
    hows = ('implicit', 'configured', 'quick')
    for r, c in [(1, 2), (2, 1), (2, 2), (3, 2), (3, 3), (2, 19), (19, 2)] + mined_shapes(['transformation', 'helper']):
        for h in hows:
            S.add('center %dx%d %s' % (r, c, h), center, r=r, c=c, how=h)
    for r, c in [(2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (2, 3)]:
        for h in hows:
            S.add('standardize %dx%d %s' % (r, c, h), standardize, r=r, c=c, how=h, const=())
    for c in (1, 2, 3):
        for k in range(c):
            S.add('standardize constant column %d of %d' % (k, c), standardize, r=2, c=c, how=hows[k % 3], const=(k,))
    S.add('standardize constant columns', standardize, r=2, c=3, how='implicit', const=(0, 2))
    S.add('standardize all constant', standardize, r=4, c=2, how='configured', const=(0, 1))
    for c in (5, 9, 20):
        for k in (0, c // 2, c - 1):
            for cst in (False, True):
                S.add('standardize wide %d column %d const=%s' % (c, k, cst), wide_standardize, c=c, k=k, const=cst)
    for r, c in [(1, 2), (2, 2), (2, 3), (3, 2)]:
        for h in ('implicit', 'quick'):
            S.add('row norm %dx%d %s' % (r, c, h), rownorm, r=r, c=c, how=h, const=())
    for r in (1, 2, 3):
        for k in range(r):
            S.add('row norm constant row %d of %d' % (k, r), rownorm, r=r, c=2, how='implicit', const=(k,))
    S.add('row norm constant rows', rownorm, r=3, c=4, how='quick', const=(0, 2))
    for ops in ('t', 'i', 'ti', 'it', 'c', 'tc', 'ii') + (('tit', 'iti', 'cti') if tier == 'thorough' else ()):
        S.add('row norm after %s' % ops, rownorm_history, r=2, c=2, ops=ops)
    for w in ('Center', 'Standardize'):
        for r, c, r2 in ((2, 2, 1), (2, 1, 3), (3, 2, 2)):
            S.add('%s of other data %d %d %d' % (w, r, c, r2), configured_elsewhere, which=w, r=r, c=c, r2=r2)
    return S
