"""Kernels: matrix form, vector form and formula agree; default parameters follow the data."""
from .util import *

BOUNDS = ('all real data with up to 3x3 rows and 1-3 attributes (1-2 rows of 12 attributes), every gamma and coefficient, degrees 1-4 (up to 8 for single values); one or two data sets in any order')
K = 'wai.ma.transformation.kernel'


def dotp(x, y):
    return vsum([a * b for a, b in zip(x, y)])


def mk(env, which, gamma):
    k = getattr(env.lib(K), which)()
    if which == 'PolyKernel' and gamma is not None:
        k.gamma = gamma
    if which == 'RBFKernel' and gamma is not None:
        k.gamma = gamma
    return k


def formula(env, which, r, r2, c, single, deg, setg):
    x = grid(env, 'x', r, c)
    y = x if single else grid(env, 'y', r2, c)
    gm = env.real('g', lo=0.25, hi=4) if setg else None
    k = mk(env, which, gm)
    co = env.const(0)
    if which == 'PolyKernel':
        k.degree = deg
        if setg:
            co = env.real('co')
            k.coef_0 = co
    X, Y = env.M(x), env.M(y)
    out = k.apply_matrix(X) if single else k.apply_matrix(X, Y)
    env.check('shape', env.shape(out, len(x), len(y)))
    for i in range(len(x)):
        for j in range(len(y)):
            v = k.apply_vector(env.M([x[i]]), env.M([y[j]]))
            o = out.get(i, j)
            env.check('matrix form is the vector form', env.eq(o, v))
            if which == 'LinearKernel':
                env.check('formula', env.eq(o, dotp(x[i], y[j])))
            if which == 'PolyKernel':
                g = gm if setg else env.const('1/%d' % c)
                b = g * dotp(x[i], y[j]) + co
                p = b
                for _ in range(deg - 1):
                    p = p * b
                env.check('formula', env.eq(o, p))
    env.check('data unchanged', env.eq(X, x), env.eq(Y, y))


def rbf(env, r, r2, c, single, setg):
    x = grid(env, 'x', r, c, lo=-3, hi=3)
    y = x if single else grid(env, 'y', r2, c, lo=-3, hi=3)
    k = mk(env, 'RBFKernel', env.real('g', lo=0.25, hi=2) if setg else None)
    g = k.gamma
    X, Y = env.M(x), env.M(y)
    out = k.apply_matrix(X) if single else k.apply_matrix(X, Y)
    env.check('shape', env.shape(out, len(x), len(y)))
    for i in range(len(x)):
        for j in range(len(y)):
            o = out.get(i, j)
            d = [a - b for a, b in zip(x[i], y[j])]
            sq = dotp(d, d)
            env.check('formula up to the power of the distance', env.disj([env.eq(o, env.exp(-g * env.sqrt(sq))), env.eq(o, env.exp(-g * sq))]))
            env.check('matrix form is the vector form', env.eq(o, k.apply_vector(env.M([x[i]]), env.M([y[j]]))))
            env.check('bounded by one', env.le(o, 1), env.ge(o, 0))
            if single and i == j:
                env.check('one on the diagonal', env.eq(o, 1))
    env.check('data unchanged', env.eq(X, x), env.eq(Y, y))


def rbf_formula(env):
    x, y = env.vec('x', 2, lo=-3, hi=3), env.vec('y', 2, lo=-3, hi=3)
    k = mk(env, 'RBFKernel', None)
    d = [a - b for a, b in zip(x, y)]
    env.check('squared distance', env.eq(k.apply_vector(env.M([x]), env.M([y])), env.exp(-dotp(d, d))))


def far(env, c):
    """Twice the gamma squares the kernel, near and far."""
    env.doubles()
    x = [[env.const(0)] * c]
    y = [[env.const(v) for j in range(c)] for v in (0, '1/1048576', '1/64', 1, 4, 9, 20, 45, 100, 170)]
    for g in ('1/100', '1/2', 1):
        g = env.const(g)
        k, k2 = mk(env, 'RBFKernel', g), mk(env, 'RBFKernel', g * 2)
        a, b = data_of(k.apply_matrix(env.M(x), env.M(y)))[0], data_of(k2.apply_matrix(env.M(x), env.M(y)))[0]
        ok = [env.eq(q / p / p, 1) for p, q in zip(a, b)]
        env.check('twice the gamma', *ok)
        env.check('farther is less', *[env.true(p > q) for p, q in zip(a, a[1:])])
        env.check('vector form', *[env.eq(k.apply_vector(env.M(x), env.M([r])) / v, 1) for r, v in zip(y, a)])


def symmetric(env, which, r, c):
    x = grid(env, 'x', r, c, lo=-3, hi=3)
    k = mk(env, which, None)
    X = env.M(x)
    a, b = k.apply_matrix(X), k.apply_matrix(X, env.M(x))
    env.check('one argument means twice the same', env.eq(a, b))
    env.check('symmetric', env.eq(a, tr(data_of(a))))
    y = grid(env, 'y', 2, c, lo=-3, hi=3)
    env.check('exchange of arguments', env.eq(k.apply_matrix(X, env.M(y)), tr(data_of(k.apply_matrix(env.M(y), X)))))


def reuse(env, which, c1, c2, nan):
    """A kernel used on one data set behaves on the next like a new one."""
    x, y = grid(env, 'x', 2, c1, lo=-3, hi=3), grid(env, 'y', 2, c2, lo=-3, hi=3)
    k = mk(env, which, env.nan() if nan else None)
    k.apply_matrix(env.M(x))
    k.apply_vector(env.M([x[0]]), env.M([x[1]]))
    k2 = mk(env, which, env.nan() if nan else None)
    env.check('like a new kernel', env.eq(k.apply_matrix(env.M(y)), k2.apply_matrix(env.M(y))))
    env.check('vector form like a new kernel', env.eq(k.apply_vector(env.M([y[0]]), env.M([y[1]])), mk(env, which, env.nan() if nan else None).apply_vector(env.M([y[0]]), env.M([y[1]]))))


def mismatched(env, which):
    k = mk(env, which, None)
    x, y = grid(env, 'x', 2, 3), grid(env, 'y', 2, 2)
    raises(env, 'different numbers of attributes', k.apply_matrix, env.M(x), env.M(y))
    raises(env, 'vectors of different length', k.apply_vector, env.M([x[0]]), env.M([y[0]]))


def params(env):
    P = env.lib(K).PolyKernel
    k = P()
    x = grid(env, 'x', 2, 2)
    g = env.real('g')
    k.gamma = g
    k.apply_matrix(env.M(x))
    env.check('set parameter kept', env.eq(k.gamma, g))
    k2 = P()
    k2.apply_matrix(env.M(x))
    k2.gamma = g
    env.check('set after use', env.eq(k2.apply_matrix(env.M(x)), k.apply_matrix(env.M(x))))


def bad_degree(env):
    """An invalid degree is never taken over (rejected or ignored)."""
    P = env.lib(K).PolyKernel
    x = grid(env, 'x', 2, 2)
    d = env.int('d', -3, 0).__index__()
    k = P()
    k.degree = 2
    env.attempt(setattr, k, 'degree', d)
    k2 = P()
    k2.degree = 2
    env.check('degree kept', env.eq(k.apply_matrix(env.M(x)), k2.apply_matrix(env.M(x))))


def scenarios(tier):
    S = Suite()
    for r, r2, c in ((1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 3), (3, 2, 2), (1, 1, 12), (3, 1, 3)):
        for single in (False, True):
            n = '%d/%d of %d%s' % (r, r2, c, ' single' if single else '')
            S.add('linear ' + n, formula, which='LinearKernel', r=r, r2=r2, c=c, single=single, deg=1, setg=False)
            for deg in (1, 2, 3, 4) + ((5, 6, 7, 8) if r * r2 == 1 and c < 3 else ()):
                if deg > 2 and c > 3:
                    continue
                S.add('poly %d %s' % (deg, n), formula, which='PolyKernel', r=r, r2=r2, c=c, single=single, deg=deg, setg=bool((deg + r) % 2))
                S.add('poly %d %s other gamma' % (deg, n), formula, which='PolyKernel', r=r, r2=r2, c=c, single=single, deg=deg, setg=not (deg + r) % 2)
            if c < 4 and r * r2 < 5:
                for sg in (False, True):
                    S.add('rbf %s gamma=%s' % (n, sg), rbf, r=r, r2=r2, c=c, single=single, setg=sg)
    S.add('rbf formula', rbf_formula)
    for c in (1, 2):
        S.add('rbf far %d' % c, far, c=c)
    for w in ('LinearKernel', 'PolyKernel', 'RBFKernel'):
        for r, c in ((2, 1), (3, 2), (2, 3)):
            S.add('symmetric %s %dx%d' % (w, r, c), symmetric, which=w, r=r, c=c)
        for c1, c2 in ((1, 2), (2, 1), (3, 2)):
            S.add('reuse %s %d %d' % (w, c1, c2), reuse, which=w, c1=c1, c2=c2, nan=False)
        S.add('mismatched %s' % w, mismatched, which=w)
    S.add('reuse RBFKernel unset', reuse, which='RBFKernel', c1=2, c2=3, nan=True)
    S.add('parameters', params)
    S.add('invalid degree', bad_degree)
    for r, r2, c in ((1, 2, 7), (2, 1, 12)):
        S.add('rbf wide %d/%d of %d' % (r, r2, c), rbf, r=r, r2=r2, c=c, single=False, setg=True)
    return S
