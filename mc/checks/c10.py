"""Sorting, maximum search, simple regression and number formatting helpers."""
from .util import *

BOUNDS = ('lists of every real value: up to 5 elements fully symbolic (6 in thorough), up to 24 elements with two symbolic ones; NaN at every '
          'position up to 4 elements; regression over up to 4 points with distinct abscissae, over up to 65 points with one arbitrary abscissa and two arbitrary responses')


def perm_ok(ix, n):
    return sorted(int(i) for i in ix) == list(range(n))


def sort_full(env, n, distinct=False):
    U = env.lib(UTILS)
    v = env.vec('v', n)
    if distinct:
        for i in range(n):
            for j in range(i):
                env.assume(v[i] != v[j])
    arr = list(v)
    ix = U.sort(arr)
    env.check('permutation', env.lit(perm_ok(ix, n), str(ix)))
    env.check('ascending', *[env.le(v[ix[i - 1]], v[ix[i]], slack=0) for i in range(1, n)])
    env.check('argument unchanged', env.eq(arr, v))


def sort_pair(env, n, p, q, seed):
    """Long lists: two arbitrary elements among fixed ones (with duplicates)."""
    U = env.lib(UTILS)
    v = [env.const((i * seed) % (n // 2 + 1)) for i in range(n)]
    v[p], v[q] = env.real('x'), env.real('y')
    ix = U.sort(list(v))
    env.check('permutation', env.lit(perm_ok(ix, n), str(ix)))
    env.check('ascending', *[env.le(v[ix[i - 1]], v[ix[i]], slack=0) for i in range(1, n)])


def sort_plain(env, n):
    """Plain Python numbers are ordered like matrix elements."""
    U = env.lib(UTILS)
    for seed in (3, 5, 7):
        ints = [(i * seed + 2) % (n + 1) - 2 for i in range(n)]
        for arr in (ints, [float(x) / 2 for x in ints]):
            ix = U.sort(list(arr))
            env.check('plain numbers', env.lit(perm_ok(ix, n) and all(arr[ix[i - 1]] <= arr[ix[i]] for i in range(1, n)), '%s %s' % (arr, ix)))


def sort_nan(env, n):
    U = env.lib(UTILS)
    v = env.vec('v', n, lo=-1000000, hi=1000000)
    k = idx(env, 'k', 0, n - 1)
    v[k] = env.nan()
    ix = [int(i) for i in U.sort(list(v))]
    env.check('permutation', env.lit(perm_ok(ix, n), str(ix)))
    env.check('NaN sorts last', env.lit(ix[-1] == k, str(ix)))
    env.check('ascending', *[env.le(v[ix[i - 1]], v[ix[i]], slack=0) for i in range(1, n - 1)])


def maximum(env, n):
    U = env.lib(UTILS)
    v = env.vec('v', n)
    arr = list(v)
    k = int(U.max_index(arr))
    env.check('position', env.lit(0 <= k < n, str(k)))
    env.check('maximum', *[env.ge(v[k], x, slack=0) for x in v])
    env.check('first maximum', *[env.lt(v[i], v[k]) for i in range(k)])
    env.check('argument unchanged', env.eq(arr, v))


def max_wide(env, n, p):
    U = env.lib(UTILS)
    x = env.real('x')
    v = [env.const(-((i * 5) % 7) - 1) for i in range(n)]
    v[p] = x
    k = int(U.max_index(list(v)))
    env.check('maximum', *[env.ge(v[k], y, slack=0) for y in v])
    env.check('first maximum', *[env.lt(v[i], v[k]) for i in range(k)])


def max_huge(env, n):
    """Elements at the ends of the range of doubles, infinite ones included."""
    U = env.lib(UTILS)
    v = [x * env.const(10 ** 308) for x in env.vec('v', n, lo=-1.75, hi=1.75)]
    p = idx(env, 'p', 0, n)
    if p < n:
        v[p] = env.inf(-1)
    k = int(U.max_index(list(v)))
    env.check('maximum', *[env.ge(v[k], y, slack=0) for i, y in enumerate(v) if i != p], env.lit(k != p or n == 1))


def regression(env, n):
    U = env.lib(UTILS)
    x, y = env.vec('x', n), env.vec('y', n)
    env.assume(n * vsum([v * v for v in x]) - vsum(x) * vsum(x) != 0)
    ax, ay = list(x), list(y)
    a, b = U.linear_regression(ax, ay)
    res = [q - a - b * p for p, q in zip(x, y)]
    env.check('residuals balance', env.eq(vsum(res), 0), env.eq(vsum([r * p for r, p in zip(res, x)]), 0))
    env.check('arguments unchanged', env.eq(ax, x), env.eq(ay, y))


def regression_exact(env, n):
    U = env.lib(UTILS)
    x = env.vec('x', n)
    c, s = env.real('c'), env.real('s')
    env.assume(n * vsum([v * v for v in x]) - vsum(x) * vsum(x) != 0)
    a, b = U.linear_regression(list(x), [c + s * v for v in x])
    env.check('a line is recovered', env.eq(a, c), env.eq(b, s))


def regression_long(env, n, p, q):
    """Many points: two arbitrary responses and one arbitrary abscissa among fixed ones."""
    U = env.lib(UTILS)
    x = [env.const((i * 7) % (n + 3) - 4) for i in range(n)]
    y = [env.const((i * 5) % 11 - i) for i in range(n)]
    x[p] = env.real('x', lo=-20, hi=20)
    y[p], y[q] = env.real('y1'), env.real('y2')
    ax, ay = list(x), list(y)
    a, b = U.linear_regression(ax, ay)
    res = [w - a - b * v for v, w in zip(x, y)]
    env.check('residuals balance', env.eq(vsum(res), 0), env.eq(vsum([r * v for r, v in zip(res, x)]), 0))
    env.check('arguments unchanged', env.eq(ax, x), env.eq(ay, y))


def small(env, n):
    U = env.lib(UTILS)
    v = env.vec('v', n)
    env.check('sum of squares', env.eq(U.sum_of_squares(list(v)), vsum([x * x for x in v])))
    env.check('to reals', env.eq(U.to_real_array(list(v)), v), env.eq(U.to_real_array([1, 2]), [1, 2]))
    env.check('initial index', env.lit(list(U.initial_index(n)) == list(range(n))))
    env.check('exp and sqrt', env.eq(U.exp(v[0]), env.exp(v[0])))
    p = env.real('p', lo=0)
    env.check('sqrt', env.eq(U.sqrt(p), env.sqrt(p)))
    env.check('list dimensions', env.lit(U.get_list_dimensions([1, 2]) == 1 and U.get_list_dimensions([[1], [2]]) == 2 and U.get_list_dimensions([[[1]]]) == 3))
    e = U.sort([])
    env.check('empty list', env.lit(list(e) == []))


def scenarios(tier):
    S = Suite()
    have = set()
    for n in range(1, 5):
        S.add('sort %d' % n, sort_full, n=n)
    S.add('sort 5', sort_full, n=5, weight=5)
    if tier == 'thorough':
        S.add('sort 6', sort_full, n=6, distinct=True, weight=9)
    for n in (4, 5, 7, 8, 12, 16, 24):
        for p, q, seed in ((0, n - 1, 3), (n // 2, n - 2, 5), (1, n // 2, 7)):
            if p == q:
                continue
            S.add('sort long %d %d %d' % (n, p, q), sort_pair, n=n, p=p, q=q, seed=seed)
    for n in (1, 2, 3, 4, 5, 6, 9, 15):
        S.add('sort plain %d' % n, sort_plain, n=n)
    for n in (2, 3, 4):
        S.add('sort nan %d' % n, sort_nan, n=n)
    for n in (1, 2, 3, 4, 5):
        S.add('max %d' % n, maximum, n=n)
    for n in (2, 3, 4):
        S.add('max huge %d' % n, max_huge, n=n)
    for n in (9, 40):
        for p in (0, n // 2, n - 1):
            S.add('max long %d %d' % (n, p), max_wide, n=n, p=p)
    for n in (2, 3, 4):
        S.add('regression %d' % n, regression, n=n)
        S.add('regression exact %d' % n, regression_exact, n=n)
    for n in (5, 6, 8, 10, 12, 13, 14, 17, 20, 30, 33, 65) + tuple(k + d for k in mined_ints(['core/utils'], hi=130) for d in (0, 1)):
        if n not in have:
            have.add(n)
            S.add('regression long %d' % n, regression_long, n=n, p=n // 2, q=n - 1)
    for n in (1, 2, 5):
        S.add('small helpers %d' % n, small, n=n)
    return S
