"""A call that fails leaves operands, configured transformations and trained models as they were, and never a half-made one."""
from .alg import *
from . import c13

BOUNDS = ('all real matrices up to 3x3 in every refused call of the matrix interface; every transformation and algorithm class, all real data handed in after the failure; '
          'failures by a missing matrix, wrong widths and heights, a raising callback (cell function, kernel, prefilter, base model, contrast function), a missing file or folder')
ASSUMPTIONS = ['training runs on concrete data (double arithmetic); rows handed to predict and transform are symbolic',
               'scikit-learn transformers are functions of their parameters and the data they were fitted on']


class Boom(Exception):
    pass


def fails(env, label, fn, *a):
    ok, v = env.attempt(fn, *a)
    env.check(label + ' refused', env.lit(not ok, 'returned %r' % (v,)))


def boom(*a, **k):
    raise Boom()


def after(n):
    """A cell function that fails at its n-th call."""
    left = [n]

    def f(x):
        left[0] -= 1
        if left[0] < 0:
            raise Boom()
        return x * 2
    return f


def refused(env, r, c):
    """(label, call on the matrix, further operands) of calls that must fail on an r x c matrix."""
    def g(name, p, q):
        return grid(env, name, p, q)
    row, col, big = g('p', 1, c), g('q', r, 1), g('b', r + 1, c + 1)
    longrow, longcol = g('lr', 1, c + 1), g('lc', r + 1, 1)
    out = [('set below', lambda m: m.set(r, 0, 7)), ('set right', lambda m: m.set(0, c, 7)), ('get', lambda m: m.get(r, 0)),
           ('get row', lambda m: m.get_row(r)), ('get column', lambda m: m.get_column(c)),
           ('sum axis', lambda m: m.sum(2)), ('mean axis', lambda m: m.mean(2))]
    ops = [('set row below', lambda m, o: m.set_row(r, o), row), ('set column right', lambda m, o: m.set_column(c, o), col),
           ('set row to a block', lambda m, o: m.set_row(0, o), big), ('set column to a block', lambda m, o: m.set_column(0, o), big),
           ('set last row', lambda m, o: m.set_row(r - 1, o), big), ('set last column', lambda m, o: m.set_column(c - 1, o), big)]
    for n in ('add', 'sub', 'mul', 'div'):
        ops.append((n + ' vector in place', lambda m, o, n=n: getattr(m, n + '_by_vector_modify')(o), longrow))
        ops.append((n + ' column vector in place', lambda m, o, n=n: getattr(m, n + '_by_vector_modify')(o), g('lc2', r + 2, 1)))
    for n in ('add', 'sub', 'mul_elementwise', 'div_elementwise', 'scale_by_row_vector', 'scale_by_column_vector', 'mul'):
        ops.append((n, lambda m, o, n=n: getattr(m, n)(o), big))
    ops += [('concat rows', lambda m, o: m.concat_along_rows(o), big), ('concat columns', lambda m, o: m.concat_along_columns(o), big)]
    if r * c > 1:
        out.append(('as number', lambda m: m.as_real()))
        for k in (0, r * c - 1):
            out.append(('cell function %d' % k, lambda m, k=k: m.apply_elementwise(after(k))))
    if r != c:
        out += [('trace', lambda m: m.trace()), ('inverse', lambda m: m.inverse())]
    if r > 1 and c > 1:
        out += [('diagonal', lambda m: m.vector_to_diagonal()), ('vector cell', lambda m: m.get_from_vector(0)), ('where', lambda m: m.where_vector(boom))]
    out += [('any', lambda m: m.any(boom)), ('all', lambda m: m.all(boom)), ('which', lambda m: m.which(boom)), ('cell function', lambda m: m.apply_elementwise(boom))]
    return out, ops


def infinite(env, r, c):
    """Refused calls leave infinite and undefined elements alone, too."""
    a = grid(env, 'a', r, c)
    a[0][0] = env.inf()
    a[r - 1][c - 1] = env.inf(-1) if (r + c) % 2 else env.nan()
    out, ops = refused(env, r, c)
    block = [[env.const(i + j + 2) for j in range(c)] for i in range(r)]
    for n in ('add', 'sub', 'mul', 'div'):
        if r > 1 and c > 1:
            ops.append((n + ' block in place', lambda m, o, n=n: getattr(m, n + '_by_vector_modify')(o), block))
    for label, f, o in [(p, (lambda m, o, f=f: f(m)), [[0]]) for p, f in out] + ops:
        if label == 'mul' and c == r + 1:
            continue        # a product that fits is not refused
        m = env.M(a)
        ok, v = env.attempt(f, m, env.M(o))
        if not ok:
            env.check('unchanged after ' + label, env.eq(m, a))


def matrix(env, r, c):
    a = grid(env, 'a', r, c)
    out, ops = refused(env, r, c)
    m = env.M(a)
    for label, f in out:
        env.attempt(f, m)
        env.check('unchanged after ' + label, env.eq(m, a))
    for label, f, o in ops:
        x = env.M(o)
        if label == 'mul' and c == r + 1:
            continue
        fails(env, label, f, m, x)
        env.check('unchanged after ' + label, env.eq(m, a), env.eq(x, o))
    env.check('usable', env.eq(m.add(m), emap(lambda v: v + v, a)), env.eq(m.transpose(), tr(a)), env.eq(m.sum(), vsum(flat(a))))


def lists(env, r, c):
    """Index lists that reach outside: refused, operands untouched."""
    H = env.lib(HELPER)
    a = grid(env, 'a', r, c)
    m = env.M(a)
    for label, f in (('rows', lambda: m.get_rows([0, r])), ('columns', lambda: m.get_columns([c, 0])), ('delete', lambda: H.delete_cols(m, [0, c])),
                     ('delete one', lambda: H.delete_col(m, c)), ('row vector', lambda: H.row_as_vector(m, r)), ('column vector', lambda: H.column_as_vector(m, c))):
        env.attempt(f)
        env.check('unchanged after ' + label, env.eq(m, a))
    b = grid(env, 'b', r + 1, c + 1)
    k = env.M(b)
    for axis in (0, 1):
        fails(env, 'concat', H.multi_concat, axis, m, m, k)
        env.check('unchanged after concat', env.eq(m, a), env.eq(k, b))
    fails(env, 'solve', H.solve, m, k)
    env.check('unchanged after solve', env.eq(m, a), env.eq(k, b))


def decomposed(env):
    """Decompositions survive a refused change and follow an accepted one."""
    env.doubles()
    a = [[env.const(v) for v in r] for r in ((2, 1, 0), (1, 3, 1), (0, 1, 4))]
    m = env.M(a)
    w = data_of(m.get_eigenvalues())
    v = data_of(m.get_eigenvectors())
    for label, f, o in refused(env, 3, 3)[1]:
        env.attempt(f, m, env.M(o))
        env.check('eigenvalues after ' + label, env.eq(m.get_eigenvalues(), w), env.eq(m.get_eigenvectors(), v))
    m.set(0, 0, 5)
    f = env.M([[env.const(5), a[0][1], a[0][2]], a[1], a[2]])
    env.check('eigenvalues after an accepted change', env.eq(m.get_eigenvalues(), f.get_eigenvalues()))


def singular(env, n):
    """A failed inverse leaves the matrix intact and invertible later."""
    a = grid(env, 'a', n, n)
    k = [list(r) for r in a]
    k[n - 1] = [v * 2 for v in k[0]]
    env.assume(a[0][0] > 0)
    m = env.M(k)
    env.attempt(m.inverse)
    env.check('unchanged', env.eq(m, k))
    t = [[env.const(int(i == j) * (i + 2)) for j in range(n)] for i in range(n)]
    for i in range(n):
        m.set_row(i, env.M([t[i]]))
    env.check('inverse later', env.eq(m.inverse(), [[env.const(int(i == j)) / (i + 2) for j in range(n)] for i in range(n)]))


def bad(env, which, g, how):
    """Data the transformation cannot take."""
    if how == 'missing':
        return None
    if how == 'wider':
        return env.M([r + [r[0]] for r in g])
    if how == 'narrower':
        return env.M([r[:1] for r in g])
    return env.M([[-v for v in r] for r in g])


HOW = ('missing', 'wider', 'narrower', 'negative')


def configured(env, which, how, opts=()):
    """A configured transformation survives data it cannot transform."""
    a, b = c13.dat(env, which, 'a'), c13.dat(env, which, 'b')
    t = c13.make(env, which, opts)
    t.configure(env.M(a))
    x = bad(env, which, b, how)
    env.attempt(t.transform, x)
    c13.same(env, 'as before', c13.run(env, t, b), c13.run(env, c13.conf(env, which, a, opts), b))
    if which in c13.INVERTIBLE:
        env.attempt(t.inverse_transform, x)
        f = c13.conf(env, which, a, opts)
        k = c13.run(env, f, b)
        if k[0]:
            i1, i2 = env.attempt(t.inverse_transform, k[1]), env.attempt(f.inverse_transform, k[1])
            env.check('inverse as before', env.lit(i1[0] == i2[0]), *([env.eq(i1[1], i2[1])] if i1[0] and i2[0] else []))


def unconfigured(env, which, how, first, opts=()):
    """Data it cannot be configured with do not count as its first data."""
    a, b, c = c13.dat(env, which, 'a'), c13.dat(env, which, 'b'), c13.dat(env, which, 'c')
    t = c13.make(env, which, opts)
    x = bad(env, which, b, how)
    ok, _ = env.attempt(c13.make(env, which, opts).configure, x)
    if ok or which == 'RowNorm':
        return
    for f in ((t.configure, t.transform) if first == 'configure' else (t.transform, t.configure)):
        fails(env, 'bad data', f, x)
    if which in c13.INVERTIBLE:
        fails(env, 'bad data', t.inverse_transform, x)
    c13.same(env, 'first good data configure', c13.run(env, t, a), c13.run(env, c13.make(env, which, opts), a))
    c13.same(env, 'and stick', c13.run(env, t, c), c13.run(env, c13.conf(env, which, a, opts), c))


def prefilter(env):
    """A prefilter that fails."""
    a, b = c13.dat(env, 'MultiplicativeScatterCorrection', 'a'), c13.dat(env, 'MultiplicativeScatterCorrection', 'b')
    t = c13.conf(env, 'MultiplicativeScatterCorrection', a)
    m = env.M(b)

    class Pre:
        transform = boom
    t.correction.prefilter = Pre()
    fails(env, 'transform', t.transform, m)
    env.check('data unchanged', env.eq(m, b))
    t.correction.prefilter = None
    c13.same(env, 'as before', c13.run(env, t, b), c13.run(env, c13.conf(env, 'MultiplicativeScatterCorrection', a), b))


def outputs(env, a, which, z, only=None):
    out = []
    for n in ('predict', 'transform'):
        if hasattr(a, n):
            ok, v = env.attempt(getattr(a, n), env.M(z))
            out.append((n, ok, v if ok else type(v).__name__))
    return out


def agree(env, label, p, q):
    env.check(label, *[env.eq(v1, v2) if k1 and k2 else env.lit(k1 == k2 and (k1 or v1 == v2), '%s %s %s' % (n, v1, v2)) for (n, k1, v1), (_, k2, v2) in zip(p, q)])


def scores(env, which, a, x):
    out = [a.transform(env.M(x))]
    return out + ([a.loadings] if which == 'PCA' else [a.components, a.mixing, a.reconstruct()])


def decomposition(env, which, algo, n):
    """PCA and FastICA: a failed decomposition is not available and the next one is like that of a new object."""
    env.doubles()
    x, _ = line(env, 8, 3)
    x2, _ = line(env, 9, 3, k=2)

    def new():
        a = make(env, which)
        if algo:
            a.algorithm = getattr(env.lib('wai.ma.algorithm.ica._FastICA').Algorithm, algo)
        return a
    a, f = new(), new()
    want = scores(env, which, f, x2)
    scores(env, which, a, x)
    if n is None:
        ok, r = env.attempt(a.transform, None)
    else:
        w = a.fun = Failing(a.fun, 'apply', n)
        ok, r = env.attempt(a.transform, env.M(x))
        w.broken = False
    env.check('refused', env.lit(not ok))
    env.check('not available', env.lit(a.is_initialised() is False))
    if which == 'PCA':
        env.check('no loadings', env.lit(a.loadings is None and a.scores is None))
    else:
        fails(env, 'reconstruction', a.reconstruct)
    env.check('like a new one', *[env.eq(p, q) for p, q in zip(scores(env, which, a, x2), want)])


def model(env, which, prep):
    """Rows of the wrong width leave a trained model as it was."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    x, y = line(env, 8, 3)
    T = env.lib('wai.ma.core').PreprocessingType
    opts = [('preprocessing_type', getattr(T, prep))] if which in PLS and prep else []
    f, a = make(env, which, opts=opts), make(env, which, opts=opts)
    r1, r2 = train(env, f, which, x, y), train(env, a, which, x, y)
    env.check('trained', env.lit(r1 is None and r2 is None))
    before_ = outputs(env, f, which, z)
    for bad_ in ([r[:2] for r in z], [r + r[:1] for r in z], None):
        for n in ('predict', 'transform', 'transform_response'):
            if hasattr(a, n):
                env.attempt(getattr(a, n), env.M(bad_) if bad_ is not None else None)
        env.check('still initialised', env.lit(a.is_initialised() is True))
        agree(env, 'as before', outputs(env, a, which, z), before_)


def failed_training(env, which, kind, prep):
    """Training that fails leaves an untrained algorithm, which then trains like a new one."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    x, y = line(env, 8, 3)
    x2, y2 = line(env, 8, 3, k=2)
    T = env.lib('wai.ma.core').PreprocessingType
    opts = [('preprocessing_type', getattr(T, prep))] if which in PLS and prep else []
    a = make(env, which, opts=opts)
    if kind == 'later':
        env.check('trained', env.lit(train(env, a, which, x2 if which != 'DIPLS' else x, y2) is None))
    for bx, by in ((x, y[:7]), ([r + r for r in x[:3]], y), (x[:1], y)):
        if which in ('GLSW', 'EPO'):
            ok, r = env.attempt(a.initialize, env.M(x), env.M(bx if bx is not x else x[:5]))
        elif which == 'DIPLS':
            # the means of the failed training are those of the good one: stale means are the known finding "DIPLS recentered" (C21)
            if bx is x:
                ok, r = env.attempt(a.initialize_supervised, env.M(x[:4]), env.M(x[4:]), env.M(y[:4]), env.M(y[4:7]))
            else:
                ok, r = env.attempt(a.initialize_supervised, env.M(bx), env.M(x), env.M(y), env.M(y[:7]))
        else:
            ok, r = env.attempt(a.initialize, env.M(bx), env.M(by))
        if not ok or r is not None:
            env.check('untrained', env.lit(a.is_initialised() is False))
            for n, k, v in outputs(env, a, which, z):
                env.check('no ' + n, env.lit(not k, v))
    f = make(env, which, opts=opts)
    env.check('trains', env.lit(train(env, a, which, x, y) is None and train(env, f, which, x, y) is None))
    agree(env, 'like a new one', outputs(env, a, which, z), outputs(env, f, which, z))


class Failing:
    """Wraps an object; the named method fails from its n-th call on, until repaired."""

    def __init__(self, obj, method, n):
        self.__dict__.update(obj=obj, method=method, left=n, broken=True)

    def __getattr__(self, k):
        v = getattr(self.__dict__['obj'], k)
        if k != self.__dict__['method']:
            return v

        def f(*a):
            d = self.__dict__
            if d['broken']:
                d['left'] -= 1
                if d['left'] < 0:
                    raise Boom()
            return v(*a)
        return f

    def __setattr__(self, k, v):
        if k == 'broken':
            self.__dict__[k] = v
        else:
            setattr(self.__dict__['obj'], k, v)


def callback(env, which, n):
    """A kernel (KernelPLS) or base model (OPLS) that fails while training, then while predicting."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    x, y = line(env, 8, 3)
    f = make(env, which)
    env.check('trained', env.lit(train(env, f, which, x, y) is None))
    want = outputs(env, f, which, z)
    a = make(env, which)
    if which == 'KernelPLS':
        w = Failing(a.kernel, 'apply_matrix', 0) if n is None else Failing(a.kernel, 'apply_vector', n)
        a.kernel = w
    else:
        w = Failing(a.base_PLS, n, 0)
        a.base_PLS = w
    x1, y1 = env.M(x), env.M(y)
    ok, v = env.attempt(a.initialize, x1, y1)
    env.check('data unchanged', env.eq(x1, x), env.eq(y1, y))
    if not ok:
        env.check('untrained', env.lit(a.is_initialised() is False))
        for nn, k, v in outputs(env, a, which, z):
            env.check('no ' + nn, env.lit(not k, v))
    w.broken = False
    env.check('trains when repaired', env.lit(train(env, a, which, x, y) is None))
    agree(env, 'like a new one', outputs(env, a, which, z), want)
    w.broken = True
    w.__dict__['left'] = 0
    m = env.M(z)
    env.attempt(a.predict, m)
    env.attempt(a.transform, m)
    env.check('rows unchanged', env.eq(m, z))
    w.broken = False
    env.check('still trained', env.lit(a.is_initialised() is True))
    agree(env, 'as before', outputs(env, a, which, z), want)


def files(env, r, c):
    """Missing files and folders: reported, the matrix and its later export as before."""
    H = env.lib(HELPER)
    a = [[env.const(i * c + j) / 4 - 1 for j in range(c)] for i in range(r)]
    env.doubles()
    m = env.M(a)
    d = env.scratch()
    fails(env, 'read a missing file', H.read, os.path.join(str(d), 'none.csv'), True, ',')
    fails(env, 'write into a missing folder', H.write, m, os.path.join(str(d), 'no', 'x.csv'), True, ',', 4)
    env.check('unchanged', env.eq(m, a))
    env.check('no folder', env.lit(not env.path_exists(os.path.join(str(d), 'no'))))
    H.write(m, os.path.join(str(d), 'x.csv'), True, ',', 4)
    env.check('later export', env.eq(H.read(os.path.join(str(d), 'x.csv'), True, ','), a))



def scenarios(tier):
    S = Suite()
    T = tier == 'thorough'
    for r, c in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)] + ([(3, 3), (1, 5), (4, 2)] if T else []):
        S.add('matrix %dx%d' % (r, c), matrix, r=r, c=c)
        S.add('infinite %dx%d' % (r, c), infinite, r=r, c=c)
        S.add('index lists %dx%d' % (r, c), lists, r=r, c=c)
    S.add('decompositions', decomposed)
    for n in (2, 3):
        S.add('singular %d' % n, singular, n=n)
    for k in c13.KINDS:
        for how in HOW:
            S.add('%s %s configured' % (k, how), configured, which=k, how=how)
            for first in ('configure', 'transform'):
                S.add('%s %s %s' % (k, how, first), unconfigured, which=k, how=how, first=first)
    for how in HOW:
        if how == 'negative':
            continue    # the stand-in of scikit-learn accepts any data
        S.add('box-cox %s' % how, unconfigured, which='PowerTransformer', how=how, first='transform', opts=[('method', 'box-cox')])
        S.add('box-cox %s configured' % how, configured, which='PowerTransformer', how=how, opts=[('method', 'box-cox')])
    S.add('failing prefilter', prefilter)
    for w in TRAINED:
        for prep in (('NONE', 'CENTER', 'STANDARDIZE') if w in PLS else ('',)):
            S.add('%s %s rows of another width' % (w, prep), model, which=w, prep=prep)
            for kind in ('first', 'later'):
                S.add('%s %s failed training %s' % (w, prep, kind), failed_training, which=w, kind=kind, prep=prep)
    for n in (None, 0, 1, 9):
        S.add('failing kernel %s' % n, callback, which='KernelPLS', n=n)
    for n in ('initialize', 'predict', 'transform'):
        S.add('failing base model %s' % n, callback, which='OPLS', n=n)
    S.add('PCA', decomposition, which='PCA', algo=None, n=None)
    for algo in ('DEFLATION', 'PARALLEL'):
        for n in (None, 0, 1, 2):
            S.add('FastICA %s %s' % (algo, n), decomposition, which='FastICA', algo=algo, n=n)
    S.add('files 2x3', files, r=2, c=3)
    return S
