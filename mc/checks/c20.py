"""Life cycle of algorithms: nothing is predicted without a successful training, refused training is reported, options are validated and invalidate the model."""
import math
from .alg import *

BOUNDS = ('every algorithm class; training sets of 8 rows and 3-4 columns; all real rows handed to predict/transform; every real or integer option value; '
          'histories of up to five calls out of construct, train (valid, missing, ill-shaped), option change, predict, transform')
ASSUMPTIONS = ['training runs on concrete data (double arithmetic); options and new rows are symbolic']

UNSUP = ('PCA', 'FastICA')
MATRICES = {'PLS1': ('RegVector', 'P', 'W', 'b_hat'), 'VCPLS': ('RegVector', 'P', 'W', 'b_hat'), 'SIMPLS': ('W', 'B', 'Q'), 'NIPALS': ('T', 'U', 'P', 'Q'),
            'CCARegression': ('T', 'U', 'P', 'Q'), 'KernelPLS': ('K', 'T', 'U', 'P', 'Q'), 'OPLS': ('P_orth', 'W_orth', 'T_orth'), 'SparsePLS': ('W', 'B'),
            'PRM': ('B', 'Wr', 'Wx', 'W'), 'DIPLS': ('T', 'Ts', 'Tt', 'Wdi', 'P', 'Ps', 'Pt', 'bdi')}
LOADINGS = {'PLS1': 'P', 'VCPLS': 'P', 'SIMPLS': 'W', 'NIPALS': 'P', 'CCARegression': 'P', 'KernelPLS': 'T', 'OPLS': 'P_orth', 'SparsePLS': 'W', 'PRM': None,
            'DIPLS': 'T'}


NAN = math.nan


def rej(env, label, fn, *a):
    ok, v = env.attempt(fn, *a)
    env.check(label, env.lit(not ok and type(v).__name__ == 'RuntimeError', '%s %s' % (ok, type(v).__name__)))


def untrained(env, a, which, z, label, clean=True):
    env.check(label + ': not initialised', env.lit(a.is_initialised() is False, a.is_initialised()))
    if which in PLS:
        rej(env, label + ': predict', a.predict, env.M(z))
        for n in MATRICES[which] if clean else ():
            ok, m = env.attempt(a.get_matrix, n)
            env.check(label + ': no matrix ' + n, env.lit(ok and m is None, m))
        if clean:
            env.check(label + ': no loadings', env.lit(a.get_loadings() is None))
    rej(env, label + ': transform', a.transform, env.M(z))
    if which == 'CCAFilter':
        rej(env, label + ': transform_response', a.transform_response, env.M([r[:1] for r in z]))


def msg(env, label, r):
    env.check(label, env.lit(isinstance(r, str) and len(r) > 0, r))


def trained(env, a, which, z, label):
    env.check(label + ': initialised', env.lit(a.is_initialised() is True))
    if which in PLS:
        ok, v = env.attempt(a.predict, env.M(z))
        env.check(label + ': predicts', env.lit(ok and env_shape(v) == (len(z), 1), v))
    ok, v = env.attempt(a.transform, env.M(z))
    env.check(label + ': transforms', env.lit(ok and env_shape(v)[0] == len(z), v))


def env_shape(m):
    return (m.num_rows(), m.num_columns())


def before(env, which):
    z = grid(env, 'z', 2, 3)
    env.doubles()
    x, y = line(env, 8, 3)
    a = make(env, which)
    untrained(env, a, which, z, 'new')
    # a refused training leaves it untrained, before and after a successful one
    for label, args in (('no response', (env.M(x), None)), ('no predictors', (None, env.M(y)))):
        ok, r = env.attempt(a.initialize, *args)
        env.check(label + ' reported', env.lit(ok and isinstance(r, str) and len(r) > 0, r))
        untrained(env, a, which, z, label)
    env.check('training succeeds', env.lit(train(env, a, which, x, y) is None))
    trained(env, a, which, z, 'trained')
    for label, args in (('no response', (env.M(x), None)), ('no predictors', (None, env.M(y)))):
        env.check('training succeeds again', env.lit(train(env, a, which, x, y) is None))
        ok, r = env.attempt(a.initialize, *args)
        env.check(label + ' reported later', env.lit(ok and isinstance(r, str) and len(r) > 0, r))
        untrained(env, a, which, z, label + ' later')
    a = make(env, which)
    train(env, a, which, x, y)
    a.reset()
    untrained(env, a, which, z, 'reset')
    train(env, a, which, x, y)
    a.initialize()
    untrained(env, a, which, z, 'defaults')


def shapes(env, which):
    """Ill-shaped training data is refused (message or error), never trained on."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    x, y = line(env, 8, 3)
    y2 = [[r[0], r[0] * r[0] - 3] for r in y]
    y3 = [[r[0], r[0] * r[0] - 3, 2 - r[0] * r[0] * r[0]] for r in y]
    a = make(env, which)
    if which in SINGLE:
        for lab, bad in (('two', y2), ('three', y3)):
            if which != 'DIPLS':
                r = a.initialize(env.M(x), env.M(bad))
            else:
                r = train(env, a, which, x, bad)
            msg(env, lab + ' responses refused', r)
            untrained(env, a, which, z, lab + ' responses')
    else:
        for lab, good in (('two', y2), ('three', y3)):
            r = a.initialize(env.M(x), env.M(good))
            env.check(lab + ' responses accepted', env.lit(r is None, r))
            env.check(lab + ' responses predicted', env.lit(env_shape(a.predict(env.M(z))) == (2, len(good[0]))))
    if which != 'DIPLS':
        for lab, bad in (('short', y[:7]), ('long', y + y[:1])):
            a = make(env, which)
            train(env, a, which, x, y)
            ok, r = env.attempt(a.initialize, env.M(x), env.M(bad))
            env.check(lab + ' response refused', env.lit(not ok or isinstance(r, str), r))
            untrained(env, a, which, z, lab + ' response', clean=ok)


def others(env, which):
    z = grid(env, 'z', 2, 3)
    env.doubles()
    x, y = line(env, 8, 3)
    y2 = [[r[0], r[0] * r[0] - 3] for r in y]
    if which == 'CCAFilter':
        for kc, ny, ok_ in ((1, 1, True), (2, 1, False), (2, 2, True), (3, 2, False), (4, 2, False)):
            a = make(env, which, opts=[('kcca', kc)])
            r = a.initialize(env.M(x), env.M(y if ny == 1 else y2))
            if ok_:
                env.check('kcca %d/%d' % (kc, ny), env.lit(r is None, r))
                env.check('dim', env.lit(env_shape(a.transform(env.M(z))) == (2, kc)))
                env.check('dim response', env.lit(env_shape(a.transform_response(env.M([q[:ny] for q in z]))) == (2, kc)))
            else:
                msg(env, 'kcca %d/%d' % (kc, ny), r)
                untrained(env, a, which, z, 'kcca')
        return
    if which == 'DIPLS':
        a = make(env, which)
        msg(env, 'plain training', a.initialize(env.M(x), env.M(y)))
        untrained(env, a, which, z, 'plain')
        for h in (1, 7):
            msg(env, 'single sample %d' % h, a.initialize_supervised(env.M(x[:h]), env.M(x[h:]), env.M(y[:h]), env.M(y[h:])))
            untrained(env, a, which, z, 'single')
        for r in (a.initialize_unsupervised(env.M(x[:5]), env.M(x[5:]), env.M(y[:5])),
                  make(env, which).initialize_semisupervised(env.M(x[:3]), env.M(x[3:6]), env.M(x[6:]), env.M(y[:3]), env.M(y[3:6]))):
            env.check('accepted', env.lit(r is None, r))
        return
    a = make(env, which)
    bad = [(x, x[:7]), (x[:7], x)] + ([] if which.startswith('Y') else [(x, [r[:2] for r in x]), ([r[:2] for r in x], x)])
    for p, q in bad:
        train(env, a, which, x, y)
        msg(env, 'shape mismatch', a.initialize(env.M(p), env.M(q if not which.startswith('Y') else [r[:1] for r in q])))
        untrained(env, a, which, z, 'mismatch')


# option -> (kind, is valid?, a valid value that differs from the default)
NUM = {
    'NIPALS': {'tol': ('r', 'ge0', 0.5), 'max_iter': ('i', 'ge0', 7), 'num_components': ('i', None, 1), 'norm_Y_weights': ('b', None, True)},
    'CCARegression': {'tol': ('r', 'ge0', 0.5), 'max_iter': ('i', 'ge0', 7), 'num_components': ('i', None, 1),
                      'norm_Y_weights': ('b', None, True)},
    'KernelPLS': {'tol': ('r', 'ge0', 0.5), 'max_iter': ('i', 'ge0', 7), 'num_components': ('i', None, 1)},
    'PRM': {'tol': ('r', 'ge0', 0.5), 'max_iter': ('i', 'ge0', 7), 'C': ('r', 'nz10', 2.0), 'num_SIMPLS_coefficients': ('i', None, 1),
            'num_components': ('i', None, 1)},
    'SparsePLS': {'tol': ('r', 'ge0', 0.5), 'max_iter': ('i', 'ge0', 7), 'lambda_': ('r', 'ge0', 0.25), 'num_components': ('i', None, 1)},
    'DIPLS': {'lambda_': ('r', 'nz8', 2.0), 'num_components': ('i', None, 1)},
    'PLS1': {'num_components': ('i', None, 1)},
    'VCPLS': {'lambda_': ('r', None, 2.0), 'num_components': ('i', None, 1)},
    'SIMPLS': {'num_coefficients': ('i', None, 1), 'num_components': ('i', None, 1)},
    'OPLS': {'num_components': ('i', None, 2)},
    'FastICA': {'num_components': ('i', 'ge1', 2), 'max_iter': ('i', 'ge0', 7), 'tol': ('r', 'ge0', 0.5), 'whiten': ('b', None, False)},
    'PCA': {'variance': ('r', 'in01', 0.5), 'max_columns': ('i', 'm1gt0', 2), 'center': ('b', None, True)},
    'CCAFilter': {'kcca': ('i', 'ge1', 1), 'lambda_X': ('r', None, 0.5), 'lambda_Y': ('r', None, 0.5)},
    'GLSW': {'alpha': ('r', 'gt0', 0.5)},
    'YGradientGLSW': {'alpha': ('r', 'gt0', 0.5)},
    'EPO': {'alpha': ('r', 'gt0', 0.5), 'N': ('i', 'ge1', 1)},
    'YGradientEPO': {'alpha': ('r', 'gt0', 0.5), 'N': ('i', 'ge1', 1)},
}


def valid(env, rule, v):
    if rule is None:
        return env.true(True)
    if rule == 'ge0':
        return env.ge(v, 0)
    if rule == 'ge1':
        return env.ge(v, 1)
    if rule == 'gt0':
        return env.gt(v, 0)
    if rule == 'in01':
        return env.conj([env.gt(v, 0), env.lt(v, 1)])
    if rule == 'm1gt0':
        return env.disj([env.eq1(v, -1), env.gt(v, 0)])
    eps = {'nz10': 1e-10, 'nz8': 1e-8}[rule]
    return env.true(bool(abs(v) >= eps))


def option(env, which, opt):
    """A valid value is taken over and drops the model; an invalid one is refused and changes nothing."""
    kind, rule, _ = NUM[which][opt]
    z = grid(env, 'z', 1, 3)
    if kind == 'r' and rule and rule.startswith('nz'):
        v = env.choose('v', [0.0, 2.0, -3.0, 0.5])
    elif kind == 'r':
        v = env.real('v', lo=-4, hi=4)
    elif kind == 'i':
        v = env.int('v', -3, 6)
    else:
        v = env.choose('v', [True, False])
    env.doubles()
    x, y = line(env, 8, 3)
    a = make(env, which)
    if which in UNSUP:
        a.transform(env.M(x))
    else:
        env.check('trained', env.lit(train(env, a, which, x, y) is None))
    old = getattr(a, opt)
    ref = a.transform(env.M(z)) if which not in UNSUP else None
    ok, e = env.attempt(setattr, a, opt, v)
    good = env.decide(valid(env, rule, v))
    if good:
        env.check('valid value accepted', env.lit(ok, e))
        env.check('valid value stored', env.eq1(getattr(a, opt), v))
        if which in UNSUP:
            env.check('dropped', env.lit(a.is_initialised() is False))
        else:
            untrained(env, a, which, z, 'after option change')
    else:
        env.check('invalid value refused', env.lit(not ok, 'accepted'))
        env.check('kind of error', env.lit(type(e).__name__ == 'ValueError', e))
        env.check('old value kept', env.eq1(getattr(a, opt), old))
        env.check('model kept', env.lit(a.is_initialised() is True))
        if ref is not None:
            env.check('same model', env.eq(a.transform(env.M(z)), ref))


def validity(env, which, opt):
    """Exactly the valid values are accepted."""
    kind, rule, _ = NUM[which][opt]
    v = env.real('v', lo=-4, hi=4) if kind == 'r' else env.int('v', -3, 6)
    a = make(env, which)
    old = getattr(a, opt)
    ok, e = env.attempt(setattr, a, opt, v)
    if env.decide(valid(env, rule, v)):
        env.check('valid value accepted', env.lit(ok, e))
        env.check('valid value stored', env.eq1(getattr(a, opt), v))
    else:
        env.check('invalid value refused', env.lit(not ok and type(e).__name__ == 'ValueError', e))
        env.check('old value kept', env.eq1(getattr(a, opt), old))


def boundary(env, which, opt):
    """Values next to the limit of the valid range."""
    kind, rule, _ = NUM[which][opt]
    vals = {'ge0': [0.0, -1e-12, 1e-300, 1e9, NAN, math.inf, -math.inf], 'gt0': [0.0, 1e-12, -1e-12, 1e9, NAN, math.inf, -math.inf], 'in01': [0.0, 1.0, 1e-9, 1 - 1e-9, -1.0, 2.0, NAN, math.inf, -math.inf],
            'nz10': [0.0, 1e-9, -1e-9, 5e-11, -5e-11, NAN, math.inf, -math.inf], 'nz8': [0.0, 1e-7, -1e-7, 5e-9, -5e-9, NAN, math.inf, -math.inf]}.get(rule, [])
    env.doubles()
    a = make(env, which)
    for v in vals:
        c = env.const(repr(v)) if abs(v) < math.inf else env.nan() if v != v else env.inf(1 if v > 0 else -1)
        ok, e = env.attempt(setattr, a, opt, c)
        good = {'ge0': v >= 0, 'gt0': v > 0, 'in01': 0 < v < 1, 'nz10': abs(v) >= 1e-10, 'nz8': abs(v) >= 1e-8}[rule]
        env.check('%s = %r' % (opt, v), env.lit(ok == good, e))


def defaults(env, which):
    """Restoring the defaults gives the options of a new object."""
    a, b = cls(env, which)(), cls(env, which)()
    for o, (kind, rule, v) in NUM[which].items():
        setattr(a, o, v)
    env.check('changed', env.lit(any(getattr(a, o) != getattr(b, o) for o in NUM[which])))
    a.initialize()
    for o in NUM[which]:
        env.check('default of ' + o, env.lit(getattr(a, o) == getattr(b, o), '%s %s' % (getattr(a, o), getattr(b, o))))


def retrain(env, which, opt):
    """Training after an option change uses the new value (same as a new object with it)."""
    z = grid(env, 'z', 2, 3)
    kind, rule, v = NUM[which][opt]
    env.doubles()
    x, y = line(env, 8, 3)
    a = make(env, which)
    b = make(env, which, opts=[(opt, v)])
    if which in UNSUP:
        a.transform(env.M(x))
        setattr(a, opt, v)
        env.check('same scores', env.eq(a.transform(env.M(x)), b.transform(env.M(x))))
        return
    train(env, a, which, x, y)
    a.transform(env.M(z))
    setattr(a, opt, v)
    env.check('trains', env.lit(train(env, a, which, x, y) is None))
    env.check('trains', env.lit(train(env, b, which, x, y) is None))
    env.check('transform', env.eq(a.transform(env.M(z)), b.transform(env.M(z))))
    if which in PLS:
        env.check('predict', env.eq(a.predict(env.M(z)), b.predict(env.M(z))))


def thing(env, name):
    """A value of an option that is not a number: constructor."""
    if name in ('NONE', 'CENTER', 'STANDARDIZE'):
        return getattr(env.lib('wai.ma.core._PreprocessingType').PreprocessingType, name)
    if name in ('CANONICAL', 'REGRESSION'):
        return getattr(env.lib('wai.ma.algorithm.pls._NIPALS').DeflationMode, name)
    if name in PLS:
        return make(env, name)
    return getattr(env.lib('wai.ma.transformation.kernel'), name)()


OBJ = {w: {'preprocessing_type': ('NONE', 'CENTER', 'STANDARDIZE')} for w in PLS}
OBJ['NIPALS']['deflation_mode'] = ('REGRESSION', 'CANONICAL')
OBJ['KernelPLS']['kernel'] = ('LinearKernel', 'PolyKernel', 'RBFKernel')
OBJ['OPLS']['base_PLS'] = ('PLS1', 'SIMPLS', 'NIPALS')


def objects(env, which, opt):
    """Same as option/retrain, for options that are modes or other objects: every ordered pair of values."""
    z = grid(env, 'z', 2, 3)
    vals = OBJ[which][opt]
    env.doubles()
    x, y = line(env, 8, 3)
    if which == 'DIPLS':  # source and target domain both centred: the stale means of the known finding "DIPLS recentered" (C21) play no part
        for j in range(3):
            x[3][j] = -vsum([r[j] for r in x[:3]])
            x[7][j] = -vsum([r[j] for r in x[4:7]])
    for p in vals:
        for q in vals:
            if p == q:
                continue
            lab = '%s to %s' % (p, q)
            a, b = make(env, which, opts=[(opt, thing(env, p))]), make(env, which, opts=[(opt, thing(env, q))])
            env.check(lab + ': trains', env.lit(train(env, a, which, x, y) is None))
            a.predict(env.M(z))
            v = thing(env, q)
            setattr(a, opt, v)
            env.check(lab + ': stored', env.lit(getattr(a, opt) is v))
            untrained(env, a, which, z, lab)
            env.check(lab + ': retrains', env.lit(train(env, a, which, x, y) is None and train(env, b, which, x, y) is None))
            env.check(lab + ': transform', env.eq(a.transform(env.M(z)), b.transform(env.M(z))))
            env.check(lab + ': predict', env.eq(a.predict(env.M(z)), b.predict(env.M(z))))


def fixedmode(env):
    """The deflation mode of the CCA regression cannot be changed: setting it leaves mode and model alone."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    x, y = line(env, 8, 3)
    a = make(env, 'CCARegression')
    env.check('canonical', env.lit(a.deflation_mode is thing(env, 'CANONICAL')))
    train(env, a, 'CCARegression', x, y)
    ref = a.predict(env.M(z))
    for n in ('REGRESSION', 'CANONICAL'):
        env.attempt(setattr, a, 'deflation_mode', thing(env, n))
        env.check(n + ': still canonical', env.lit(a.deflation_mode is thing(env, 'CANONICAL')))
        env.check(n + ': still trained', env.lit(a.is_initialised() is True))
        env.check(n + ': same model', env.eq(a.predict(env.M(z)), ref))
    b = make(env, 'CCARegression')
    env.attempt(setattr, b, 'deflation_mode', thing(env, 'REGRESSION'))
    train(env, b, 'CCARegression', x, y)
    env.check('same training', env.eq(b.predict(env.M(z)), ref))


def matrices(env, which):
    env.doubles()
    x, y = line(env, 8, 3)
    a = make(env, which)
    env.check('names', env.lit(tuple(a.get_matrix_names()) == MATRICES[which], a.get_matrix_names()))
    env.check('can predict', env.lit(a.can_predict() is True))
    train(env, a, which, x, y)
    for n in MATRICES[which]:
        m = a.get_matrix(n)
        env.check('matrix ' + n, env.lit(m is not None and type(m).__name__ == 'Matrix', m))
    env.check('unknown', env.lit(a.get_matrix('no such matrix') is None))
    env.check('unknown', env.lit(a.get_matrix('') is None))
    if LOADINGS[which] is None:
        env.check('loadings', env.lit(a.has_loadings() is False and a.get_loadings() is None))
    else:
        env.check('has loadings', env.lit(a.has_loadings() is True))
        env.check('loadings', env.eq(a.get_loadings(), a.get_matrix(LOADINGS[which])))


def ica(env):
    a = cls(env, 'FastICA')()
    ok, e = env.attempt(a.reconstruct)
    env.check('reconstruct before transform', env.lit(not ok and type(e).__name__ == 'MatrixAlgorithmsError', e))
    x, y = line(env, 8, 3)
    env.doubles()
    a.transform(env.M(x))
    env.check('initialised', env.lit(a.is_initialised() is True))
    ok, e = env.attempt(a.reconstruct)
    env.check('reconstruct', env.lit(ok, e))
    a.num_components = 2
    ok, e = env.attempt(a.reconstruct)
    env.check('reconstruct after option change', env.lit(not ok and type(e).__name__ == 'MatrixAlgorithmsError', e))
    p = cls(env, 'PCA')()
    env.check('PCA new', env.lit(p.is_initialised() is False and p.get_coefficients() is None))
    p.transform(env.M(x))
    env.check('PCA trained', env.lit(p.is_initialised() is True))
    p.reset()
    env.check('PCA reset', env.lit(p.is_initialised() is False and p.get_coefficients() is None and p.scores is None and p.loadings is None))


def scenarios(tier):
    S = Suite()
    for w in TRAINED:
        S.add('without training %s' % w, before, which=w)
    for w in PLS:
        S.add('shapes %s' % w, shapes, which=w)
        S.add('matrices %s' % w, matrices, which=w)
    for w in ('CCAFilter', 'DIPLS', 'GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO'):
        S.add('refusals %s' % w, others, which=w)
    for w, os_ in NUM.items():
        S.add('defaults %s' % w, defaults, which=w)
        for o, (k, rule, v) in os_.items():
            S.add('option %s.%s' % (w, o), option, which=w, opt=o)
            if k != 'b':
                S.add('validity %s.%s' % (w, o), validity, which=w, opt=o)
            S.add('retrain %s.%s' % (w, o), retrain, which=w, opt=o)
            if rule in ('ge0', 'gt0', 'in01', 'nz10', 'nz8') and k == 'r':
                S.add('limits %s.%s' % (w, o), boundary, which=w, opt=o)
    for w, os_ in OBJ.items():
        for o in os_:
            S.add('mode %s.%s' % (w, o), objects, which=w, opt=o)
    S.add('fixed deflation mode', fixedmode)
    S.add('reconstruct', ica)
    return S
