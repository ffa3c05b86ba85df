"""Life cycle of transformations: the first data configures and sticks; reset, explicit configuration and every option change take effect."""
from .util import *

BOUNDS = ('every transformation class, all real data of 2-4 rows and 2-8 columns; histories of up to four calls out of transform, inverse, configure, reset, '
          'option change (every option, valid and invalid values) on one or two instances')
ASSUMPTIONS = ['scikit-learn transformers are functions of their parameters and the data they were fitted on']
T = 'wai.ma.transformation'


def dat(env, which, name):
    """Data suited to the transformation."""
    if which in ('PowerTransformer', 'RobustScaler', 'QuantileTransformer'):
        g = grid(env, name, 4, 2, lo=1, hi=30)
        for i in range(1, 4):
            for j in range(2):
                env.assume(g[i][j] > g[i - 1][j] + 1)
        return g
    if which.startswith('SavitzkyGolay'):
        return grid(env, name, 2, 9)
    if which == 'MultiplicativeScatterCorrection':
        y = [env.real(name + '_0')]
        for i in (1, 2):
            y.append(y[-1] + env.real('%s_%d' % (name, i), lo=0.125, hi=4))
        return [[env.const(10 * (i + 1)), y[i]] for i in range(3)]
    if which == 'Log':
        return grid(env, name, 2, 2, lo=1, hi=50)
    if which == 'FFT':
        return grid(env, name, 1, 4)
    g = grid(env, name, 3, 2)
    for col in tr(g):
        env.assume(ssd(col) > env.const('1/100'))
    if which == 'RowNorm':
        for row in g:
            env.assume(ssd(row) > env.const('1/100'))
    return g


def make(env, which, opts=()):
    mod = env.lib(T + '._' + which) if which.startswith('YGrad') or which == 'FFT' or which.startswith('Mult') else env.lib(T)
    t = getattr(mod, which)()
    if which.startswith('Mult'):
        t.correction.ranges = [(0, 100)]
    for k, v in opts:
        put(env, t, k, v)
    return t


def put(env, t, k, v):
    if k == 'ranges':
        t.correction.ranges = v
    else:
        setattr(t, k, env.const(v) if isinstance(v, str) and '/' in v else v)


def run(env, t, g):
    ok, v = env.attempt(t.transform, env.M(g))
    return (True, v) if ok else (False, type(v).__name__)


def same(env, label, a, b):
    if a[0] != b[0] or not a[0]:
        env.check(label, env.lit(a[0] == b[0] and a[1] == b[1], '%s / %s' % (a, b)))
    else:
        env.check(label, env.eq(a[1], b[1]))


KINDS = ('Center', 'Standardize', 'RowNorm', 'PassThrough', 'Log', 'FFT', 'SavitzkyGolay', 'SavitzkyGolay2', 'MultiplicativeScatterCorrection',
         'YGradientGLSWSavitzkyGolayFilter', 'PowerTransformer', 'RobustScaler', 'QuantileTransformer')
INVERTIBLE = ('Center', 'Standardize', 'RowNorm', 'PassThrough', 'Log', 'PowerTransformer', 'RobustScaler', 'QuantileTransformer')
OPTIONS = {
    'Log': [('base', 2.0), ('base', 10), ('offset', '1/2'), ('offset', 0.0)],
    'FFT': [('output_mode', 1), ('output_mode', 2), ('output_mode', 3), ('output_mode', 8), ('output_mode', 12), ('orthonormalisation', True)],
    'SavitzkyGolay': [('polynomial_order', 3), ('derivative_order', 0), ('derivative_order', 2), ('num_points_left', 2), ('num_points_left', 4),
                      ('num_points_right', 2), ('num_points_right', 4), ('num_points_left', 0)],
    'SavitzkyGolay2': [('polynomial_order', 3), ('derivative_order', 0), ('num_points', 2), ('num_points', 4)],
    'MultiplicativeScatterCorrection': [('ranges', [(0, 15)]), ('ranges', [(0, 25)]), ('ranges', [])],
    'PowerTransformer': [('method', 'box-cox'), ('standardise', False)],
    'RobustScaler': [('with_centering', False), ('with_scaling', False), ('quantile_range', (10.0, 90.0))],
    'QuantileTransformer': [('n_quantiles', 3), ('output_distribution', 'normal'), ('random_state', 1), ('subsample', 5000), ('ignore_implicit_zeroes', True)],
}
INVALID = {
    'Log': [('base', 1.0), ('base', 0.0), ('base', -2.0)],
    'FFT': [('output_mode', 5), ('output_mode', 0), ('output_mode', 16)],
    'SavitzkyGolay': [('polynomial_order', 1), ('polynomial_order', -1), ('derivative_order', -1), ('num_points_left', -1), ('num_points_right', -1)],
    'SavitzkyGolay2': [('polynomial_order', 1), ('derivative_order', -1), ('num_points', -1)],
    'PowerTransformer': [('method', 'x'), ('method', '')],
    'RobustScaler': [('quantile_range', (0.0, 50.0)), ('quantile_range', (60.0, 40.0)), ('quantile_range', (10.0, 100.0)), ('quantile_range', (30.0, 30.0))],
    'QuantileTransformer': [('output_distribution', 'x')],
}


def conf(env, which, g, opts=()):
    t = make(env, which, opts)
    t.configure(env.M(g))
    return t


def sticks(env, which):
    """Statistics come from the first data; later data do not change them."""
    a, b, c = [dat(env, which, n) for n in 'abc']
    t = make(env, which)
    ra = run(env, t, a)
    rb = run(env, t, b)
    rc = run(env, t, c)
    if which == 'RowNorm':
        for r, g in ((ra, a), (rb, b), (rc, c)):
            same(env, 'rows at hand', r, run(env, make(env, which), g))
        return
    same(env, 'first call', ra, run(env, conf(env, which, a), a))
    same(env, 'second call', rb, run(env, conf(env, which, a), b))
    same(env, 'third call', rc, run(env, conf(env, which, a), c))
    same(env, 'same data again', run(env, t, a), ra)


def inverse_first(env, which):
    a, b = dat(env, which, 'a'), dat(env, which, 'b')
    t = make(env, which)
    env.attempt(t.inverse_transform, env.M(a))
    same(env, 'transform after inverse', run(env, t, b), run(env, make(env, which) if which == 'RowNorm' else conf(env, which, a), b))


def resets(env, which, again):
    a, b, c = [dat(env, which, n) for n in 'abc']
    t = make(env, which)
    run(env, t, a)
    t.reset()
    if again:
        run(env, t, c)
        t.reset()
    same(env, 'like a new instance', run(env, t, b), run(env, make(env, which), b))
    if which != 'RowNorm':
        same(env, 'new configuration sticks', run(env, t, c), run(env, conf(env, which, b), c))


def explicit(env, which):
    a, b, c = [dat(env, which, n) for n in 'abc']
    t = make(env, which)
    run(env, t, a)
    t.configure(env.M(b))
    same(env, 'explicit configuration wins', run(env, t, c), run(env, make(env, which) if which == 'RowNorm' else conf(env, which, b), c))


def explicit_other(env, which, rows, then):
    """Configured again with data of another number of rows (or columns)."""
    a, c = dat(env, which, 'a'), dat(env, which, 'c')
    if which.startswith('Mult'):
        b = [[v[0], v[1]] + [v[1] * (k + 2) for k in range(rows)] for v in dat(env, which, 'b')]
    elif which in ('PowerTransformer', 'RobustScaler', 'QuantileTransformer'):
        b = [[env.const(2 + i * i + j) for j in range(2)] for i in range(rows + 2)]
    else:
        w = len(a[0])
        lo, hi = (1, 50) if which == 'Log' else (None, None)
        b = grid(env, 'b', rows, w, lo=lo, hi=hi)
        if rows > 1:
            for col in tr(b):
                env.assume(ssd(col) > env.const('1/100'))
        if which == 'RowNorm':
            for row in b:
                env.assume(ssd(row) > env.const('1/100'))
    t = make(env, which)
    if then == 'implicit':
        run(env, t, a)
    else:
        t.configure(env.M(a))
    got = env.attempt(t.configure, env.M(b))
    ref = make(env, which)
    want = env.attempt(ref.configure, env.M(b))
    env.check('accepted alike', env.lit(got[0] == want[0], '%s %s' % (got, want)))
    same(env, 'explicit configuration wins', run(env, t, c), run(env, ref, c))
    if which in INVERTIBLE and got[0]:
        x, y = env.attempt(t.inverse_transform, env.M(c)), env.attempt(ref.inverse_transform, env.M(c))
        env.check('inverse alike', env.lit(x[0] == y[0]))
        if x[0] and y[0]:
            env.check('inverse', env.eq(x[1], y[1]))


def option(env, which, k, v, how):
    """Every option change takes effect at once, with statistics from then on."""
    a, b, c = [dat(env, which, n) for n in 'abc']
    t = make(env, which)
    if how == 'transform':
        run(env, t, a)
    elif how == 'configure':
        t.configure(env.M(a))
    put(env, t, k, v)
    fresh = make(env, which, [(k, v)])
    if which.startswith('Mult'):
        # the average spectrum is not affected by the correction's options
        fresh.configure(env.M(a))
    same(env, 'option takes effect', run(env, t, b), run(env, fresh, b))
    same(env, 'and stays', run(env, t, c), run(env, fresh, c))


def back_and_forth(env, which, k, v):
    a, b = dat(env, which, 'a'), dat(env, which, 'b')
    t = make(env, which)
    old = t.correction.ranges if k == 'ranges' else getattr(t, k)
    run(env, t, a)
    put(env, t, k, v)
    run(env, t, a)
    put(env, t, k, old)
    fresh = make(env, which)
    if which.startswith('Mult'):
        fresh.configure(env.M(a))
    same(env, 'back to the old option', run(env, t, b), run(env, fresh, b))


def invalid(env, which, k, v):
    """A rejected option changes nothing."""
    a, b = dat(env, which, 'a'), dat(env, which, 'b')
    t = make(env, which)
    run(env, t, a)
    raises(env, 'rejected', put, env, t, k, v)
    same(env, 'nothing changed', run(env, t, b), run(env, conf(env, which, a), b))


def instances(env, which, quick):
    """Instances do not influence one another."""
    a, b, c = [dat(env, which, n) for n in 'abc']
    t, u = make(env, which), make(env, which)
    run(env, t, a)
    run(env, u, b)
    if quick and not which.startswith('Mult'):
        type(t).quick_apply(env.M(c))
    for o in OPTIONS.get(which, [])[:1]:
        put(env, u, *o)
    ref = make(env, which) if which == 'RowNorm' else conf(env, which, a)
    same(env, 'other instance', run(env, t, c), run(env, ref, c))
    u.reset()
    same(env, 'reset of the other', run(env, t, c), run(env, ref, c))


def caller_keeps_writing(env, which):
    """Configuration data may be overwritten by the caller afterwards."""
    a, b = dat(env, which, 'a'), dat(env, which, 'b')
    m = env.M(a)
    t = make(env, which)
    t.configure(m)
    env.check('configuration data unchanged', env.eq(m, a))
    for i in range(len(a)):
        for j in range(len(a[0])):
            m.set(i, j, env.const(7 + i * j))
    same(env, 'configuration kept', run(env, t, b), run(env, make(env, which) if which == 'RowNorm' else conf(env, which, a), b))
    t2 = make(env, which)
    m2 = env.M(a)
    r = env.attempt(t2.transform, m2)
    if r[0]:
        want = data_of(r[1])
        if which != 'PassThrough':
            for i in range(len(a)):
                m2.set(i, 0, env.const(3))
            env.check('result kept', env.eq(r[1], want))
    same(env, 'implicit configuration kept', run(env, t2, b), run(env, make(env, which) if which == 'RowNorm' else conf(env, which, a), b))


def scenarios(tier):
    S = Suite()
    for w in KINDS:
        S.add('first data sticks %s' % w, sticks, which=w)
        for g in (False, True):
            S.add('reset %s%s' % (w, ' twice' if g else ''), resets, which=w, again=g)
        S.add('explicit configuration %s' % w, explicit, which=w)
        for n in (1, 2, 5):
            for then in ('implicit', 'explicit'):
                S.add('explicit configuration %s %d rows after %s' % (w, n, then), explicit_other, which=w, rows=n, then=then)
        S.add('two instances %s' % w, instances, which=w, quick=False)
        S.add('two instances and quick %s' % w, instances, which=w, quick=True)
        S.add('caller writes %s' % w, caller_keeps_writing, which=w)
        if w in INVERTIBLE:
            S.add('inverse first %s' % w, inverse_first, which=w)
        for k, v in OPTIONS.get(w, []):
            for h in ('transform', 'configure', 'nothing'):
                if w.startswith('Mult') and h == 'nothing':
                    continue
                S.add('option %s.%s=%s after %s' % (w, k, v, h), option, which=w, k=k, v=v, how=h)
            S.add('option %s.%s=%s and back' % (w, k, v), back_and_forth, which=w, k=k, v=v)
        for k, v in INVALID.get(w, []):
            S.add('invalid %s.%s=%s' % (w, k, v), invalid, which=w, k=k, v=v)
    return S
