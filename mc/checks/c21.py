"""Training is a function of options and training data: nothing of earlier training, predictions or other instances survives."""
from .alg import *

BOUNDS = ('every algorithm; histories of up to six calls (train on A, predict, refused training, reset, train on B) on one or two instances; training sets of '
          '6-9 rows and 2-4 columns, for PLS1, SIMPLS, NIPALS, SparsePLS and CCARegression also with the response anywhere on a line; all real new rows')
ASSUMPTIONS = ['fixed training data run in double arithmetic, results equal up to 1e-9 relative']


def other(env, n, p, which=None):
    if which == 'DIPLS':
        # same means of both domains: the centers of DIPLS survive retraining (known finding, see "DIPLS recentered")
        x, y = line(env, 8, p)
        out = []
        for part in (x[:4], x[4:]):
            m = [vsum(c) / 4 for c in tr(part)]
            out += [[2 * m[j] - r[j] for j in range(p)] for r in part]
        return out, [[v[0] * 2 - 5] for v in y]
    x, y = line(env, n, p, k=2)
    return [[v * 3 + 1 for v in r] for r in x], [[v[0] * 2 - 5] for v in y]


def same(env, which, a, b, z, label):
    if which in PLS:
        env.check(label + ': predictions', env.eq(a.predict(env.M(z)), b.predict(env.M(z))))
    env.check(label + ': scores', env.eq(a.transform(env.M(z)), b.transform(env.M(z))))
    if which == 'CCAFilter':
        env.check(label + ': response scores', env.eq(a.transform_response(env.M([r[:1] for r in z])), b.transform_response(env.M([r[:1] for r in z]))))


def history(env, which, how, pre=None):
    p = 3
    z = grid(env, 'z', 2, p)
    env.doubles()
    xa, ya = other(env, 9, p, which)
    xb, yb = line(env, 8, p)
    PT = env.lib('wai.ma.core').PreprocessingType
    opts = [('preprocessing_type', getattr(PT, pre))] if pre else []
    b = make(env, which, opts=opts)
    env.check('fresh', env.lit(train(env, b, which, xb, yb) is None))
    a = make(env, which, opts=opts)
    if how == 'again':
        train(env, a, which, xa, ya)
    elif how == 'used':
        train(env, a, which, xa, ya)
        a.transform(env.M(z))
        if which in PLS:
            a.predict(env.M(z))
    elif how == 'reset':
        train(env, a, which, xa, ya)
        a.transform(env.M(z))
        a.reset()
    elif how == 'refused':
        train(env, a, which, xa, ya)
        if which in PLS + ('CCAFilter', 'GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO'):
            a.initialize(env.M(xa), None)
    elif how == 'twice':
        train(env, a, which, xb, yb)
    elif how == 'option':
        if which in PLS:
            n = a.num_components
            a.num_components = 1
            train(env, a, which, xa, ya)
            a.num_components = n
        elif which == 'CCAFilter':
            train(env, a, which, xa, ya)
            a.lambda_X = 3.0
            train(env, a, which, xa, ya)
            a.lambda_X = b.lambda_X
        else:
            a.alpha = 3.0
            train(env, a, which, xa, ya)
            a.alpha = b.alpha
    env.check('retrained', env.lit(train(env, a, which, xb, yb) is None))
    same(env, which, a, b, z, how)


def shapes(env, which, before, now):
    """Earlier training data of another shape."""
    p = 3
    z = grid(env, 'z', 2, p)
    env.doubles()
    xb, yb = profile(env, now, p) if now else line(env, 8, p)
    b = make(env, which)
    env.check('fresh', env.lit(train(env, b, which, xb, yb) is None))
    a = make(env, which)
    if before == 'wider':
        xa, ya = line(env, 9, 5)
    elif before == 'narrower':
        xa, ya = line(env, 8, 2, k=1)
    elif before == 'responses':
        xa, ya = line(env, 9, p, k=1)
        ya = [[v[0], v[0] * v[0] - 3] for v in ya]
    else:
        xa, ya = profile(env, before, p)
    ok, r = env.attempt(train, env, a, which, xa, ya)
    if ok and r is None:
        q = len(xa[0])
        o = [[env.const(i + j - 1) for j in range(q)] for i in range(3)]
        a.transform(env.M(o))
        if which in PLS:
            a.predict(env.M(o))
    env.check('retrained', env.lit(train(env, a, which, xb, yb) is None))
    same(env, which, a, b, z, before)
    env.check('training rows', env.eq(a.transform(env.M(xb)), b.transform(env.M(xb))))
    if which in PLS:
        env.check('training predictions', env.eq(a.predict(env.M(xb)), b.predict(env.M(xb))))
        env.check('names', env.lit(sorted(a.get_matrix_names()) == sorted(b.get_matrix_names())))
        for n in a.get_matrix_names():
            env.check('matrix ' + n, env.eq(data_of(a.get_matrix(n)), data_of(b.get_matrix(n))))


def interleaved(env, which):
    """Two instances do not influence each other."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    xa, ya = other(env, 9, 3, which)
    xb, yb = line(env, 8, 3)
    ra, rb = make(env, which), make(env, which)
    train(env, ra, which, xa, ya)
    want = data_of(ra.transform(env.M(z)))
    wantp = data_of(ra.predict(env.M(z))) if which in PLS else None
    a, b = make(env, which), make(env, which)
    train(env, a, which, xa, ya)
    train(env, b, which, xb, yb)
    b.transform(env.M(z))
    env.check('first', env.eq(data_of(a.transform(env.M(z))), want))
    if wantp:
        env.check('first prediction', env.eq(data_of(a.predict(env.M(z))), wantp))
    b.reset()
    cls(env, which)()
    env.check('after reset of the second', env.eq(data_of(a.transform(env.M(z))), want))
    train(env, rb, which, xb, yb)
    train(env, b, which, xb, yb)
    same(env, which, b, rb, z, 'second')


def stateless(env, which):
    """Predictions and transformations leave the model alone."""
    z = grid(env, 'z', 2, 3)
    u = grid(env, 'u', 1, 3)
    env.doubles()
    xb, yb = line(env, 8, 3)
    a = make(env, which)
    train(env, a, which, xb, yb)
    w1 = data_of(a.transform(env.M(z)))
    w2 = data_of(a.predict(env.M(z))) if which in PLS else None
    mats = {n: data_of(a.get_matrix(n)) for n in a.get_matrix_names()} if which in PLS else {}
    a.transform(env.M(u))
    if w2:
        a.predict(env.M(u))
    env.check('transform', env.eq(data_of(a.transform(env.M(z))), w1))
    if w2:
        env.check('predict', env.eq(data_of(a.predict(env.M(z))), w2))
    for n, m in mats.items():
        env.check('matrix ' + n, env.eq(data_of(a.get_matrix(n)), m))


def debug(env, which):
    """Debug output and textual descriptions change nothing."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    xb, yb = line(env, 8, 3)
    a, b = make(env, which), make(env, which)
    a.debug = True
    str(a)
    if which in ('PCA', 'FastICA'):
        w1, w2 = data_of(a.transform(env.M(xb))), data_of(b.transform(env.M(xb)))
        str(a)
        env.check('same result', env.eq(w1, w2), env.eq(a.transform(env.M(xb)), w2))
        return
    env.check('trained', env.lit(train(env, a, which, xb, yb) is None))
    train(env, b, which, xb, yb)
    str(a)
    same(env, which, a, b, z, 'debug')
    a.debug = False
    same(env, which, a, b, z, 'switched off')


def unsup(env, which, how):
    """Transforming data depends on the options and these data alone."""
    env.doubles()
    xa, _ = other(env, 9, 3)
    xb, _ = line(env, 8, 3)
    opts = {'wide': [], 'narrow': [('num_components', 2)] if which == 'FastICA' else [('max_columns', 2)],
            'raw': [('whiten', False)] if which == 'FastICA' else [('center', True)]}[how]
    a, b, c = (make(env, which, opts=opts) for _ in range(3))
    want = data_of(b.transform(env.M(xb)))
    c.transform(env.M(xa))
    a.transform(env.M(xa))
    a.transform(env.M([r[:2] for r in xa]))
    env.check('after other data', env.eq(data_of(a.transform(env.M(xb))), want))
    env.check('again', env.eq(data_of(a.transform(env.M(xb))), want))
    env.check('first instance', env.eq(data_of(b.transform(env.M(xb))), want))
    if which == 'FastICA':
        for n in ('components', 'mixing', 'sources'):
            env.check(n, env.eq(getattr(a, n), getattr(b, n)))
        env.check('reconstruction', env.eq(a.reconstruct(), b.reconstruct()))
    else:
        for n in ('loadings', 'scores'):
            env.check(n, env.eq(getattr(a, n), getattr(b, n)))
        a.transform(env.M([[r[0], env.const(2), r[1]] for r in xa]))
        env.check('after constant column', env.eq(data_of(a.transform(env.M(xb))), want))
        env.check('loadings after constant column', env.eq(a.loadings, b.loadings))


EXTREMES = {
    'num_components': (1, 3), 'lambda_': (0.0, 1e-12, 0.25, 8.0), 'tol': (1e-8, 0.5), 'max_iter': (1, 2, 20), 'C': (1.0, 100.0),
    'num_SIMPLS_coefficients': (1, 2), 'num_coefficients': (1, 2), 'norm_Y_weights': (True,), 'lambda_X': (0.0, 1e-12, 10.0), 'lambda_Y': (0.0, 1e-12, 10.0),
    'kcca': (1, 2), 'alpha': (1e-9, 0.5, 1e6), 'N': (1, 2), 'variance': (0.001, 0.5, 0.999), 'max_columns': (1, 2), 'center': (True,), 'whiten': (False,),
}


HAS = {'NIPALS': ('tol', 'max_iter', 'norm_Y_weights'), 'CCARegression': ('tol', 'max_iter'), 'KernelPLS': ('tol', 'max_iter'),
       'PRM': ('tol', 'max_iter', 'C', 'num_SIMPLS_coefficients'), 'SparsePLS': ('tol', 'max_iter', 'lambda_'), 'DIPLS': ('lambda_',), 'VCPLS': ('lambda_',),
       'SIMPLS': ('num_coefficients',), 'FastICA': ('num_components', 'max_iter', 'tol', 'whiten'), 'PCA': ('variance', 'max_columns', 'center'),
       'CCAFilter': ('kcca', 'lambda_X', 'lambda_Y'), 'GLSW': ('alpha',), 'YGradientGLSW': ('alpha',), 'EPO': ('alpha', 'N'), 'YGradientEPO': ('alpha', 'N')}


def elsewhere(env, which, opt):
    """Instances of the same class trained with extreme options leave every other instance, earlier or later, alone."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    w = [[env.const(i - 2 * j) / 16 for j in range(3)] for i in range(2)]
    xb, yb = line(env, 8, 3)
    xw, yw = line(env, 9, 3, k=2)
    xw = [[v / 32 for v in r] for r in xw]

    def go(a, data, new):
        x, y = data
        if which in ('PCA', 'FastICA'):
            ok, r = env.attempt(a.transform, env.M(x))
            return [data_of(r) if ok else type(r).__name__]
        ok, r = env.attempt(train, env, a, which, x, y)
        if not ok or r is not None:
            return [None]
        out = []
        for f in (a.transform, a.predict) if which in PLS else (a.transform,):
            ok, r = env.attempt(f, env.M(new))
            out.append(data_of(r) if ok else type(r).__name__)
        return out

    def agree(label, p, q):
        env.check(label, env.lit(len(p) == len(q)))
        for u, v in zip(p, q):
            env.check(label, env.eq(u, v) if isinstance(u, list) and isinstance(v, list) else env.lit(u == v, '%s %s' % (u, v)))

    sets = ((xb, yb), z), ((xw, yw), w)
    sets = sets[:1] if which in ('DIPLS', 'PRM') else sets
    early = [make(env, which) for _ in sets]
    want = [go(a, *d) for a, d in zip(early, sets)]
    for v in EXTREMES[opt]:
        first = None
        for _ in range(3):
            a = make(env, which)
            ok, r = env.attempt(setattr, a, opt, v)
            if not ok:
                break
            got = go(a, *sets[0])
            if first is None:
                first = got
            elif which not in ('VCPLS', 'SparsePLS', 'OPLS'):  # extreme options leave rounding noise there
                agree('%s=%s again' % (opt, v), got, first)
            if len(sets) > 1:
                go(a, *sets[1])
    for a, d, t in zip(early, sets, want):
        agree('later instance', go(make(env, which), *d), t)
        if which not in ('PCA', 'FastICA') and t[0] is not None:
            agree('earlier instance', [data_of(f(env.M(d[1]))) for f in ((a.transform, a.predict) if which in PLS else (a.transform,))], t)


def online(env, which, nc, pre):
    """Response anywhere on a line (symbolic training data)."""
    s = env.real('s', lo=-0.5, hi=0.5)
    x, y = line(env, 4, 2, s)
    xa, ya = line(env, 5, 2, k=1)
    z = grid(env, 'z', 1, 2)
    a, b = make(env, which, nc), make(env, which, nc)
    if pre:
        PT = env.lib('wai.ma.core').PreprocessingType
        a.preprocessing_type = b.preprocessing_type = getattr(PT, pre)
    train(env, a, which, xa, ya)
    a.transform(env.M(z))
    env.check('retrained', env.lit(train(env, a, which, x, y) is None))
    train(env, b, which, x, y)
    same(env, which, a, b, z, 'line')


def recentered(env):
    z = grid(env, 'z', 2, 3)
    env.doubles()
    xa, ya = other(env, 9, 3)
    xb, yb = line(env, 8, 3)
    a, b = make(env, 'DIPLS'), make(env, 'DIPLS')
    train(env, a, 'DIPLS', xa, ya)
    train(env, a, 'DIPLS', xb, yb)
    train(env, b, 'DIPLS', xb, yb)
    env.check('new training data are centered with their own means', env.eq(a.predict(env.M(z)), b.predict(env.M(z))))


def scenarios(tier):
    S = Suite()
    hows = ('again', 'used', 'reset', 'refused', 'twice', 'option')
    for w in TRAINED:
        for h in hows:
            S.add('%s %s' % (h, w), history, which=w, how=h)
        if w != 'DIPLS':
            for k, (be, now) in enumerate((('wider', None), ('narrower', None), ('responses', None), ('tall', None), ('wider', 'short'), (PROFILES[0], 'tall'),
                                           ('constant', 'centred'), ('repeated', 'scaled'))):
                if be == 'responses' and w not in MULTI + ('CCAFilter',):
                    continue
                if (be is None or suits(w, be)) and (now is None or suits(w, now)):
                    S.add('shapes %s then %s %s' % (be, now or 'plain', w), shapes, which=w, before=be, now=now)
        S.add('interleaved %s' % w, interleaved, which=w)
        S.add('stateless %s' % w, stateless, which=w)
        S.add('debug %s' % w, debug, which=w)
    for w in TRAINED + ('PCA', 'FastICA'):
        for o in sorted(EXTREMES):
            if o in HAS.get(w, ()) or o == 'num_components' and w in PLS:
                S.add('elsewhere %s %s' % (w, o), elsewhere, which=w, opt=o)
    for w in PLS:
        for pre in ('CENTER', 'STANDARDIZE'):
            S.add('used %s %s' % (w, pre), history, which=w, how='used', pre=pre)
            if tier == 'thorough':
                for h in hows:
                    if h != 'used':
                        S.add('%s %s %s' % (h, w, pre), history, which=w, how=h, pre=pre)
    for w in ('PCA', 'FastICA'):
        S.add('debug %s' % w, debug, which=w)
        for h in ('wide', 'narrow', 'raw'):
            S.add('%s %s' % (w, h), unsup, which=w, how=h)
    for w in ('PLS1', 'SIMPLS', 'NIPALS', 'CCARegression', 'SparsePLS'):
        S.add('line %s' % w, online, which=w, nc=1, pre=None)
    S.add('line PLS1 center', online, which='PLS1', nc=1, pre='CENTER')
    S.add('line SIMPLS center', online, which='SIMPLS', nc=1, pre='CENTER')
    if tier == 'thorough':
        S.add('line PLS1 2', online, which='PLS1', nc=2, pre=None)
        S.add('line SIMPLS 2', online, which='SIMPLS', nc=2, pre=None)
    S.add('DIPLS recentered', recentered)
    return S
