"""Built-in centering/standardising of PLS equals preprocessing the data by hand and undoing it on the predictions."""
from .alg import *

BOUNDS = ('every PLS algorithm, centering and standardising, one response column (and two or three where supported), training sets of 8-9 rows and 2-4 columns '
          '(PLS1, SIMPLS also with the response anywhere on a line), all real new rows')
ASSUMPTIONS = ['fixed training data run in double arithmetic, results equal up to 1e-9 relative']


def stats(env, g, mode):
    n = len(g)
    m = [vsum(c) / n for c in tr(g)]
    if mode == 'CENTER':
        return m, [env.const(1)] * len(m)
    return m, [env.sqrt(ssd(c) / (n - 1)) for c in tr(g)]


def pre(g, ms):
    m, s = ms
    return [[(r[j] - m[j]) / s[j] for j in range(len(r))] for r in g]


def undo(g, ms):
    m, s = ms
    return [[r[j] * s[j] + m[j] for j in range(len(r))] for r in g]


def compare(env, which, mode, x, y, z, nc, dom=None):
    PT = env.lib('wai.ma.core').PreprocessingType
    a = make(env, which, nc)
    a.preprocessing_type = getattr(PT, mode)
    env.check('trained', env.lit(train(env, a, which, x, y) is None))
    b = make(env, which, nc)
    sx, sy = stats(env, x, mode), stats(env, y, mode)
    env.check('trained by hand', env.lit(train(env, b, which, pre(x, sx), pre(y, sy)) is None))
    zp = pre(z, sx)
    want = undo(data_of(b.predict(env.M(zp))), sy)
    env.check('predictions', env.eq(data_of(a.predict(env.M(z))), want))
    env.check('scores', env.eq(a.transform(env.M(z)), b.transform(env.M(zp))))
    for n in a.get_matrix_names():
        env.check('matrix ' + n, env.eq(a.get_matrix(n), b.get_matrix(n)))
    # training rows are not special
    env.check('training rows', env.eq(data_of(a.predict(env.M(x))), undo(data_of(b.predict(env.M(pre(x, sx)))), sy)))


def fixed(env, which, mode, n, p, k, nc, off):
    z = grid(env, 'z', 2, p)
    env.doubles()
    x, y = line(env, n, p)
    x = [[v + off * (j + 1) for j, v in enumerate(r)] for r in x]
    cols = [lambda t: t, lambda t: t * t - 3, lambda t: 40 + t * t * t * env.const('1/8')]
    y = [[f(r[0]) + off for f in cols[:k]] for r in y]
    compare(env, which, mode, x, y, z, nc)


def shaped(env, which, mode, prof, p, nc):
    z = grid(env, 'z', 2, p)
    env.doubles()
    x, y = profile(env, prof, p)
    compare(env, which, mode, x, y, z, nc)


def scaled(env, which, mode, fx, fy):
    """Predictors and response measured in very small or large units."""
    z = grid(env, 'z', 2, 3)
    z = [[v * env.const(fx) for v in r] for r in z]
    env.doubles()
    x, y = line(env, 9, 3)
    x = [[(v + j) * env.const(fx) for j, v in enumerate(r)] for r in x]
    y = [[(v + 3) * env.const(fy) for v in r] for r in y]
    compare(env, which, mode, x, y, z, 2)


def online(env, which, mode):
    s = env.real('s', lo=-0.5, hi=0.5)
    x, y = line(env, 4, 2, s)
    z = grid(env, 'z', 1, 2)
    compare(env, which, mode, x, y, z, 1)


def unknown(env, which):
    """A setting that is none of the documented ones is rejected at the latest on training, not ignored."""
    env.doubles()
    x, y = line(env, 8, 3)
    a = make(env, which)
    ok, r = env.attempt(setattr, a, 'preprocessing_type', 'center')
    if ok:
        ok, r = env.attempt(train, env, a, which, x, y)
    env.check('not silently ignored', env.lit(not ok or isinstance(r, str), r))
    env.check('not trained', env.lit(a.is_initialised() is False))


def none(env, which):
    """Without preprocessing the constructor's default applies and equals an explicit NONE."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    x, y = line(env, 8, 3)
    PT = env.lib('wai.ma.core').PreprocessingType
    a, b = make(env, which), make(env, which)
    env.check('default', env.lit(a.preprocessing_type is PT.NONE))
    b.preprocessing_type = PT.STANDARDIZE
    b.preprocessing_type = PT.NONE
    train(env, a, which, x, y)
    train(env, b, which, x, y)
    env.check('predictions', env.eq(a.predict(env.M(z)), b.predict(env.M(z))))
    # switching the preprocessing of a trained model back and forth
    c = make(env, which)
    c.preprocessing_type = PT.STANDARDIZE
    train(env, c, which, x, y)
    c.predict(env.M(z))
    c = setup(env, cls(env, which)(), which) if which == 'DIPLS' else c
    c.preprocessing_type = PT.NONE
    train(env, c, which, x, y)
    env.check('switched off', env.eq(a.predict(env.M(z)), c.predict(env.M(z))))
    env.check('switched off scores', env.eq(a.transform(env.M(z)), c.transform(env.M(z))))


def scenarios(tier):
    S = Suite()
    for w in PLS:
        for m in ('CENTER', 'STANDARDIZE'):
            S.add('%s %s' % (w, m), fixed, which=w, mode=m, n=8, p=3, k=1, nc=2, off=0)
            S.add('%s %s offset' % (w, m), fixed, which=w, mode=m, n=9, p=4, k=1, nc=2, off=10)
            S.add('%s %s one component' % (w, m), fixed, which=w, mode=m, n=8, p=2, k=1, nc=1, off=-3)
            if tier == 'thorough':
                S.add('%s %s more' % (w, m), fixed, which=w, mode=m, n=12, p=4, k=1, nc=3, off=3)
        for f in PROFILES:
            if f != 'constant':
                for p in [p for p in (3, 4) if suits(w, f, p)]:
                    m = ('CENTER', 'STANDARDIZE')[(PROFILES.index(f) + p + PLS.index(w)) % 2]
                    for mm in (m,) if tier != 'thorough' and f != 'short' else ('CENTER', 'STANDARDIZE'):
                        S.add('%s %s %s %d' % (w, mm, f, p), shaped, which=w, mode=mm, prof=f, p=p, nc=1 if w == 'VCPLS' else 2)
        for mm in ('CENTER', 'STANDARDIZE'):
            for fx, fy in (('1', '1/65536'), ('1/4096', '1')) if mm == 'STANDARDIZE' else (('1', '1/1024'),):
                S.add('%s %s in units of %s and %s' % (w, mm, fx, fy), scaled, which=w, mode=mm, fx=fx, fy=fy)
        S.add('%s unknown setting' % w, unknown, which=w)
        S.add('%s none' % w, none, which=w)
    for w in MULTI:
        for m in ('CENTER', 'STANDARDIZE'):
            for k in (2, 3):
                S.add('%s %s %d responses' % (w, m, k), fixed, which=w, mode=m, n=8, p=3, k=k, nc=2, off=2)
    for w in ('PLS1', 'SIMPLS'):
        S.add('line %s CENTER' % w, online, which=w, mode='CENTER')
    if tier == 'thorough':
        S.add('line PLS1 STANDARDIZE', online, which='PLS1', mode='STANDARDIZE')
    return S
