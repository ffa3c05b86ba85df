"""Data handed to transformations, filters and algorithms stays the caller's: never modified, and later changes on either side do not reach the other."""
from .alg import *
from . import c13

BOUNDS = ('every algorithm, transformation and filter; training sets of 8 rows and 3 columns (fixed) and all real new rows; transformations with all real data of 1-4 rows; '
          'one arbitrary element of the caller\'s matrices or of the result overwritten with any value after the call')
ASSUMPTIONS = ['fixed training data run in double arithmetic']


def trained(env, which, pre=None, prof=None):
    env.doubles()
    x, y = profile(env, prof) if prof else line(env, 8, 3)
    a = make(env, which)
    if pre:
        a.preprocessing_type = getattr(env.lib('wai.ma.core').PreprocessingType, pre)
    return a, x, y


def args(env, which, x, y):
    """The matrices handed over for training and the call."""
    if which == 'DIPLS':
        h = len(x) // 2
        ms = [env.M(x[:h]), env.M(x[h:]), env.M(y[:h]), env.M(y[h:])]
        return ms, lambda a: a.initialize_supervised(*ms)
    if which in ('GLSW', 'EPO'):
        ms = [env.M(x), env.M([[x[i][j] * (2 + j) - y[i][0] for j in range(3)] for i in range(len(x))])]
    else:
        ms = [env.M(x), env.M(y)]
    return ms, lambda a: a.initialize(*ms)


def training(env, which, pre, prof=None):
    """Training leaves its data alone, and the model does not hang on to the caller's matrices."""
    z = grid(env, 'z', 2, 3)
    v = env.real('v', lo=-50, hi=50)
    a, x, y = trained(env, which, pre, prof)
    ms, call = args(env, which, x, y)
    snap = [data_of(m) for m in ms]
    env.check('trained', env.lit(call(a) is None))
    for k, m in enumerate(ms):
        env.check('training data %d unchanged' % k, env.eq(m, snap[k]))
    p1 = data_of(a.predict(env.M(z))) if which in PLS else None
    t1 = data_of(a.transform(env.M(z)))
    for k, m in enumerate(ms):
        env.check('training data %d unchanged by use' % k, env.eq(m, snap[k]))
    for m in ms:
        i = env.choose('row%d' % ms.index(m), [0, m.num_rows() - 1])
        m.set(i, 0, v)
    if p1:
        env.check('predictions of the model', env.eq(data_of(a.predict(env.M(z))), p1))
    env.check('scores of the model', env.eq(data_of(a.transform(env.M(z))), t1))


def using(env, which, pre, prof=None):
    """Predicting and transforming leave the rows alone; results are the caller's."""
    z = grid(env, 'z', 2, 3)
    v = env.real('v', lo=-50, hi=50)
    a, x, y = trained(env, which, pre, prof)
    ms, call = args(env, which, x, y)
    call(a)
    ops = [('scores', a.transform)] + ([('predictions', a.predict)] if which in PLS else [])
    for name, f in ops:
        m = env.M(z)
        out = f(m)
        env.check(name + ': rows unchanged', env.eq(m, z))
        want = data_of(out)
        m.set(1, 2, v)
        env.check(name + ': result independent of the rows', env.eq(out, want))
        m = env.M(z)
        for i in range(out.num_rows()):
            out.set(i, 0, v)
        env.check(name + ': rows independent of the result', env.eq(m, z))
        env.check(name + ': model independent of the result', env.eq(data_of(f(env.M(z))), want))
    if which == 'CCAFilter':
        m = env.M([r[:1] for r in z])
        out = a.transform_response(m)
        env.check('response rows unchanged', env.eq(m, [r[:1] for r in z]))


def unsup(env, which):
    v = env.real('v', lo=-50, hi=50)
    env.doubles()
    x, y = line(env, 8, 3)
    x[0][1] = x[0][1] + 1
    a = make(env, which)
    m = env.M(x)
    out = a.transform(m)
    env.check('data unchanged', env.eq(m, x))
    want = data_of(out)
    rec = data_of(a.reconstruct()) if which == 'FastICA' else data_of(a.loadings)
    m.set(3, 1, v)
    env.check('result independent of the data', env.eq(out, want))
    env.check('model independent of the data', env.eq(data_of(a.reconstruct()) if which == 'FastICA' else data_of(a.loadings), rec))
    out.set(2, 0, v)
    env.check('model independent of the result', env.eq(data_of(a.reconstruct()) if which == 'FastICA' else data_of(a.loadings), rec))
    env.check('scores independent of the result', env.eq(data_of(a.sources if which == 'FastICA' else a.scores), want))


def transformation(env, which, opts, inverse):
    """Transformations and their inverses leave the data alone; the caller may overwrite configuration data and results."""
    g = c13.dat(env, which, 'a')
    v = env.real('v', lo=1, hi=20)
    t = c13.make(env, which, opts)
    m = env.M(g)
    ok, _ = env.attempt(t.configure, m)
    env.check('configuration data unchanged', env.eq(m, g))
    out = t.transform(m)
    env.check('data unchanged', env.eq(m, g))
    want = data_of(out)
    if inverse:
        b = t.inverse_transform(out)
        env.check('transformed data unchanged', env.eq(out, want))
        back = data_of(b)
    if which != 'PassThrough':
        m.set(0, 0, v)
        env.check('result independent of the data', env.eq(out, want))
        env.check('configuration independent of the data', env.eq(data_of(t.transform(env.M(g))), want))
        m2 = env.M(g)
        o2 = t.transform(m2)
        o2.set(0, 0, v)
        env.check('data independent of the result', env.eq(m2, g))
        env.check('transformation independent of the result', env.eq(data_of(t.transform(env.M(g))), want))
        if inverse:
            o3 = env.M(want)
            b = t.inverse_transform(o3)
            o3.set(0, 0, v)
            env.check('inverse independent of its input', env.eq(data_of(b), back))


def window(env, which, extra):
    """Data as wide as a smoothing window, or hardly wider."""
    l, r = env.choose('window', [(1, 2), (2, 0), (0, 3)]) if which == 'SavitzkyGolay' else (2, 2)
    g = grid(env, 'a', 2, l + r + 1 + extra)
    v = env.real('v', lo=-50, hi=50)
    if which == 'YGradientGLSWSavitzkyGolayFilter':
        t = env.lib('wai.ma.transformation._YGradientGLSWSavitzkyGolayFilter').YGradientGLSWSavitzkyGolayFilter()
    else:
        t = getattr(env.lib('wai.ma.transformation'), which)()
    if which == 'SavitzkyGolay':
        t.num_points_left, t.num_points_right = l, r
    elif which == 'SavitzkyGolay2':
        t.num_points = 2
    m = env.M(g)
    ok, out = env.attempt(t.transform, m)
    env.check('data unchanged', env.eq(m, g))
    if not ok:
        return
    want = data_of(out)
    m.set(0, 0, v)
    env.check('result independent of the data', env.eq(out, want))
    m2 = env.M(g)
    o2 = t.transform(m2)
    for j in range(o2.num_columns()):
        o2.set(0, j, v)
    env.check('data independent of the result', env.eq(m2, g))
    env.check('transformation independent of the result', env.eq(t.transform(env.M(g)), want))


def rows(env, which):
    """Constant columns and rows take special paths: still no modification."""
    g = grid(env, 'a', 3, 3)
    for i in range(3):
        g[i][1] = g[0][1]
    g[2] = [g[2][0]] * 3
    g[2][1] = g[0][1]
    env.assume(ssd([r[0] for r in g]) > env.const('1/100'))
    t = getattr(env.lib('wai.ma.transformation'), which)()
    m = env.M(g)
    out = t.transform(m)
    env.check('data unchanged', env.eq(m, g))
    b = data_of(out)
    env.attempt(t.inverse_transform, out)
    env.check('transformed data unchanged', env.eq(out, b))


def kernels(env, which):
    K = getattr(env.lib('wai.ma.transformation.kernel'), which)()
    g, h = grid(env, 'a', 2, 2, lo=-3, hi=3), grid(env, 'b', 2, 2, lo=-3, hi=3)
    a, b = env.M(g), env.M(h)
    K.apply_matrix(a, b)
    env.check('data unchanged', env.eq(a, g), env.eq(b, h))
    K.apply_matrix(a)
    env.check('single data set unchanged', env.eq(a, g))
    r1, r2 = a.get_row(0), b.get_row(1)
    K.apply_vector(r1, r2)
    env.check('vectors unchanged', env.eq(r1, g[:1]), env.eq(r2, h[1:]))


def chain(env):
    MF = env.lib('wai.ma.core').MultiFilter if hasattr(env.lib('wai.ma.core'), 'MultiFilter') else env.lib('wai.ma.core._MultiFilter').MultiFilter
    T = env.lib('wai.ma.transformation')
    g = grid(env, 'a', 3, 2)
    fs = [T.Center(), T.PassThrough(), T.Center()]
    m = env.M(g)
    f = MF(fs)
    f.transform(m)
    env.check('data unchanged', env.eq(m, g))
    env.check('filters kept', env.lit(len(f.filters) == 3 and all(x is y for x, y in zip(f.filters, fs))))


def scenarios(tier):
    S = Suite()
    for w in TRAINED:
        for pre in ((None, 'CENTER', 'STANDARDIZE') if w in PLS else (None,)):
            tag = '%s %s' % (w, pre or '')
            S.add('training ' + tag, training, which=w, pre=pre)
            S.add('using ' + tag, using, which=w, pre=pre)
        for f in [f for f in PROFILES if suits(w, f)]:
            for pre in ((None, 'CENTER', 'STANDARDIZE') if w in PLS and tier == 'thorough' else ('CENTER' if w in PLS and PLS.index(w) % 2 == PROFILES.index(f) % 2 else None,)):
                S.add('training %s %s %s' % (w, pre or '', f), training, which=w, pre=pre, prof=f)
                if tier == 'thorough' or f in ('centred', 'short'):
                    S.add('using %s %s %s' % (w, pre or '', f), using, which=w, pre=pre, prof=f)
    for w in ('PCA', 'FastICA'):
        S.add(w, unsup, which=w)
    for w in c13.KINDS:
        optsets = [()]
        if w == 'FFT':
            optsets += [[('output_mode', o)] for o in (1, 2, 3, 8)]
        for k, o in enumerate(optsets):
            S.add('%s %d' % (w, k), transformation, which=w, opts=tuple(o), inverse=w in c13.INVERTIBLE)
    for w in ('SavitzkyGolay', 'SavitzkyGolay2', 'YGradientGLSWSavitzkyGolayFilter'):
        for e in (0, 1):
            S.add('%s of a window and %d' % (w, e), window, which=w, extra=e)
    for w in ('Center', 'Standardize', 'RowNorm'):
        S.add('constant %s' % w, rows, which=w)
    for w in ('LinearKernel', 'PolyKernel', 'RBFKernel'):
        S.add(w, kernels, which=w)
    S.add('chain', chain)
    return S
