"""Inverse transformations undo the transformation."""
from .util import *
from fractions import Fraction

BOUNDS = ('all real data (domain-restricted for logarithms), shapes up to 3x3, up to 8x8 for centring and pass-through, up to 7 rows of data configured elsewhere; FFT lengths 1-6, 8 (both pair modes, both normalisations); '
          'statistics from the data itself or other configuration data; logarithm bases 2, 10, 1/2, 5/2, e and every real offset')
ASSUMPTIONS = ['scikit-learn: inverse_transform of PowerTransformer/RobustScaler undoes transform']
T = 'wai.ma.transformation'


def spread(env, g):
    for col in tr(g):
        env.assume(ssd(col) > env.const('1/100'))


def make(env, which):
    K = getattr(env.lib(T + '._' + which) if which.startswith('YGrad') else env.lib(T), which)
    return K()


def column_wise(env, which, r, c, other, const):
    g = grid(env, 'a', r, c, lo=-100, hi=100)
    t = make(env, which)
    if other:
        h = grid(env, 'h', 3, c, lo=-100, hi=100)
        spread(env, h)
        t.configure(env.M(h))
    elif const:
        for i in range(r):
            g[i][const - 1] = g[0][const - 1]
        for j in range(c):
            if j != const - 1:
                env.assume(ssd([row[j] for row in g]) > env.const('1/100'))
    else:
        if which not in ('PassThrough', 'Center'):
            spread(env, g)
    m = env.M(g)
    y = t.transform(m)
    yl = data_of(y)
    env.check('inverse of transform', env.eq(t.inverse_transform(y), g))
    env.check('transformed data unchanged', env.eq(y, yl))
    env.check('transform of inverse', env.eq(t.transform(t.inverse_transform(env.M(g))), g))
    env.check('data unchanged', env.eq(m, g))


def sk(env, which, opts):
    """Wrapped scikit-learn transformers."""
    g = grid(env, 'a', 4, 2, lo=1, hi=20)
    for i in range(1, 4):
        for j in range(2):
            env.assume(g[i][j] > g[i - 1][j] + 1)
    t = make(env, which)
    for k, v in opts.items():
        setattr(t, k, v)
    m = env.M(g)
    y = t.transform(m)
    env.check('inverse of transform', env.eq(t.inverse_transform(y), g, tol=1e-4))
    q = [[env.real('q', lo=2, hi=10), env.real('q', lo=2, hi=10)]]
    env.check('inverse on other data', env.eq(t.inverse_transform(t.transform(env.M(q))), q, tol=1e-4))
    env.check('data unchanged', env.eq(m, g))


def log(env, r, c, base):
    L = make(env, 'Log')
    off = env.real('off', lo=-10, hi=10)
    L.offset = off
    if base is not None:
        L.base = env.const(base) if isinstance(base, str) else base
    g = grid(env, 'a', r, c, lo=-5, hi=50)
    for x in flat(g):
        env.assume(x + off > env.const('1/100'))
    m = env.M(g)
    y = L.transform(m)
    env.check('inverse of transform', env.eq(L.inverse_transform(y), g))
    k = env.log(env.const(base)) if base is not None else env.const(1)
    env.check('logarithm', *[env.eq(y.get(i, j) * k, env.log(g[i][j] + off)) for i in range(r) for j in range(c)])
    z = grid(env, 'z', r, c, lo=-3, hi=3)
    env.check('transform of inverse', env.eq(L.transform(L.inverse_transform(env.M(z))), z))
    env.check('data unchanged', env.eq(m, g))


def log_range(env, base):
    """Elements of every magnitude come back with all of their digits."""
    L = make(env, 'Log')
    L.base = base
    L.offset = 0.0
    env.doubles()
    v = [env.const(Fraction(k) * Fraction(10) ** e) for e in (-300, -120, -40, -25, -10, -3, 0, 4, 10, 22, 25, 60, 150, 300) for k in (1, 7)]
    for g in ([v], [[x] for x in v]):
        back = flat(data_of(L.inverse_transform(L.transform(env.M(g)))))
        env.check('elements', *[env.eq(b / x, 1) for b, x in zip(back, v)])


def log_domain(env, r, c):
    """Undefined elements are rejected wherever they are."""
    L = make(env, 'Log')
    off = env.real('off', lo=-10, hi=10)
    L.offset = off
    g = grid(env, 'a', r, c, lo=-50, hi=50)
    ok, v = env.attempt(L.transform, env.M(g))
    if ok:
        env.check('defined everywhere', *[env.gt(x + off, 0) for x in flat(g)])
    else:
        b = g[0][0] + off <= 0
        for x in flat(g)[1:]:
            b = b | (x + off <= 0)
        env.check('undefined somewhere', env.true(b), env.lit(isinstance(v, ValueError), type(v).__name__))


def log_bases(env):
    L = make(env, 'Log')
    b = env.real('b', lo=-3, hi=3)
    env.assume(b != 0)

    def f():
        L.base = b
    ok, v = env.attempt(f)
    if ok:
        env.check('admissible base', env.true((b > 0) & (b != 1)))
    else:
        env.check('inadmissible base', env.true((b <= 0) | (b == 1)), env.lit(isinstance(v, ValueError)))
    L2 = make(env, 'Log')

    def z():
        L2.base = 0.0
    raises(env, 'base zero', z)


def fft(env, r, n, mode, ortho):
    F = env.lib(T + '._FFT')
    g = grid(env, 'a', r, n)
    if mode == 12:
        # the angle of a zero amplitude is arbitrary
        for a in g:
            if n == 3:
                env.assume(ssd(a) > env.const('1/100'))
            if n == 4:
                env.assume((a[0] - a[2]) * (a[0] - a[2]) + (a[1] - a[3]) * (a[1] - a[3]) > env.const('1/100'))
    t = F.FFT()
    t.output_mode = mode
    t.orthonormalisation = ortho
    m = env.M(g)
    y = t.transform(m)
    env.check('shape', env.shape(y, r, n))
    back = t.inverse_transform(y)
    env.check('inverse of transform', env.eq(back, g))
    env.check('data unchanged', env.eq(m, g))


def no_inverse(env, which, n):
    t = make(env, which)
    g = [[env.const(i + 1), env.const(i * i), env.real('a')][:3] + [env.const(1)] * (n - 3) for i in range(3)]
    t.configure(env.M(g))
    raises(env, 'inverse is rejected', t.inverse_transform, env.M(g))


def fft_no_inverse(env, mode):
    F = env.lib(T + '._FFT')
    t = F.FFT()
    t.output_mode = mode
    raises(env, 'inverse is rejected', t.inverse_transform, env.M(grid(env, 'a', 1, 3)))


def scenarios(tier):
    S = Suite()
    for w in ('Center', 'Standardize', 'PassThrough'):
        for r, c in [(2, 1), (2, 2), (3, 2), (3, 3)]:
            S.add('%s %dx%d' % (w, r, c), column_wise, which=w, r=r, c=c, other=False, const=0)
        for r, c in [(4, 4), (5, 5), (6, 6), (2, 6), (6, 2), (8, 8), (3, 12)] if w != 'Standardize' else []:
            S.add('%s %dx%d' % (w, r, c), column_wise, which=w, r=r, c=c, other=False, const=0)
        for r, c in [(1, 2), (2, 2), (1, 5), (4, 4), (5, 5), (6, 6), (7, 3)]:
            S.add('%s configured elsewhere %dx%d' % (w, r, c), column_wise, which=w, r=r, c=c, other=True, const=0)
        for k in (1, 2):
            S.add('%s constant column %d' % (w, k), column_wise, which=w, r=2, c=2, other=False, const=k)
    for o in ({}, {'method': 'box-cox'}, {'standardise': False}):
        S.add('PowerTransformer %s' % o, sk, which='PowerTransformer', opts=o)
    for o in ({}, {'with_centering': False}, {'with_scaling': False}, {'quantile_range': (10.0, 90.0)}):
        S.add('RobustScaler %s' % o, sk, which='RobustScaler', opts=o)
    for b in (None, 2, 10, '1/2', '5/2'):
        for r, c in ((1, 1), (2, 2)):
            S.add('Log base %s %dx%d' % (b, r, c), log, r=r, c=c, base=b)
    for r, c in ((1, 1), (1, 3), (3, 1), (2, 2)):
        S.add('Log domain %dx%d' % (r, c), log_domain, r=r, c=c)
    S.add('Log bases', log_bases)
    for b in (2, 10, 2.718281828459045, 0.5):
        S.add('Log range base %s' % b, log_range, base=b)
    for n in (1, 2, 3, 4, 5, 6, 8):
        for r in ((1, 2, 3) if n < 5 else (1, 2)):
            for o in (False, True):
                S.add('FFT real and imaginary %dx%d ortho=%s' % (r, n, o), fft, r=r, n=n, mode=3, ortho=o)
    for n in (1, 2, 3, 4):
        S.add('FFT amplitude and angle 1x%d' % n, fft, r=1, n=n, mode=12, ortho=False)
    S.add('FFT amplitude and angle 2x4', fft, r=2, n=4, mode=12, ortho=True)
    for w in ('SavitzkyGolay', 'SavitzkyGolay2', 'MultiplicativeScatterCorrection', 'YGradientGLSWSavitzkyGolayFilter'):
        S.add('no inverse %s' % w, no_inverse, which=w, n=8)
    for mode in (1, 2, 4, 8):
        S.add('no inverse FFT mode %d' % mode, fft_no_inverse, mode=mode)
    return S
