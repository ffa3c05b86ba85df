"""A trained model treats every row on its own: predictions and scores of a row do not depend on its neighbours, and are affine in it for the linear methods."""
from .alg import *

BOUNDS = ('every trained algorithm and every row-wise transformation/filter; batches of 1-5 symbolic rows in any arrangement and of 3, 8 (as many as in training), 40 and 140 rows with one symbolic row; '
          'the same matrix object refilled between calls; training sets of 8-9 rows and 3-4 columns; PLS algorithms with every preprocessing')
ASSUMPTIONS = ['fixed training data run in double arithmetic, results equal up to 1e-9 relative', 'KernelPLS with the linear kernel (other kernels: one row per batch kept symbolic)']


def model(env, which, p, pre, nc=2, prof=None):
    x, y = profile(env, prof, p) if prof else line(env, 8, p)
    a = make(env, which, nc)
    if pre:
        a.preprocessing_type = getattr(env.lib('wai.ma.core').PreprocessingType, pre)
    env.check('trained', env.lit(train(env, a, which, x, y) is None))
    ops = [('scores', a.transform)]
    if which in PLS:
        ops.append(('predictions', a.predict))
    if which == 'CCAFilter':
        ops.append(('response scores', a.transform_response))
    return ops


def rows(env, which, p, pre, prof=None):
    z = grid(env, 'z', 4, p)
    env.doubles()
    for name, f in model(env, which, p, pre, prof=prof):
        if name == 'response scores':
            g = [r[:1] for r in z]
        else:
            g = z
        single = [data_of(f(env.M([r])))[0] for r in g]
        for label, order in (('together', [0, 1, 2, 3]), ('reversed', [3, 2, 1, 0]), ('repeated', [1, 1, 0, 1]), ('two', [2, 0]), ('pair', [3, 1, 3])):
            out = data_of(f(env.M([g[i] for i in order])))
            env.check('%s %s' % (name, label), env.lit(len(out) == len(order), len(out)), env.eq(out, [single[i] for i in order]))


def batch(env, which, p, pre, n):
    z = grid(env, 'z', 1, p)[0]
    k = env.choose('at', [0, 1, n // 2, n - 1])
    env.doubles()
    rest = [[env.const((7 * i + 3 * j * j) % 11 - 5) for j in range(p)] for i in range(n)]
    g = [z if i == k else rest[i] for i in range(n)]
    for name, f in model(env, which, p, pre):
        if name == 'response scores':
            continue
        out = data_of(f(env.M(g)))
        env.check(name + ' rows', env.lit(len(out) == n, len(out)))
        one = data_of(f(env.M([z])))[0]
        env.check(name + ' of the row', env.eq(out[k], one))
        for i in range(0, n, 3 if n < 100 else 13):
            if i != k:
                env.check(name + ' of the others', env.eq(out[i], data_of(f(env.M([rest[i]])))[0]))


def affine(env, which, p, pre, prof=None):
    u, v = grid(env, 'u', 1, p)[0], grid(env, 'v', 1, p)[0]
    t = env.real('t', lo=-3, hi=3)
    env.doubles()
    mix = [t * a + (1 - t) * b for a, b in zip(u, v)]
    for name, f in model(env, which, p, pre, prof=prof):
        if name == 'response scores':
            continue
        a, b, c = (data_of(f(env.M([r])))[0] for r in (u, v, mix))
        env.check(name + ' affine', env.eq(c, [t * x + (1 - t) * y for x, y in zip(a, b)]))


def columns(env, which, p):
    """Rows of another width are refused."""
    z = grid(env, 'z', 2, p + 1)
    env.doubles()
    for name, f in model(env, which, p, None):
        if name == 'response scores':
            continue
        for w in (p + 1, p - 1):
            raises(env, '%s of %d columns' % (name, w - p), f, env.M([r[:w] for r in z]))


def rbf(env, kernel):
    """KernelPLS with the other kernels."""
    z = grid(env, 'z', 1, 2, lo=-2, hi=2)[0]
    env.doubles()
    x, y = line(env, 5, 2)
    a = cls(env, 'KernelPLS')()
    a.num_components = 2
    a.kernel = getattr(env.lib('wai.ma.transformation.kernel'), kernel)()
    if kernel == 'PolyKernel':
        a.kernel.degree = 2
    env.check('trained', env.lit(train(env, a, 'KernelPLS', x, y) is None))
    o = [env.const('1/2'), env.const(-1)]
    for name, f in (('predictions', a.predict), ('scores', a.transform)):
        one = data_of(f(env.M([z])))[0]
        other = data_of(f(env.M([o])))[0]
        env.check(name, env.eq(data_of(f(env.M([z, o]))), [one, other]), env.eq(data_of(f(env.M([o, z, o]))), [other, one, other]))


def fill(m, g):
    for i, r in enumerate(g):
        for j, v in enumerate(r):
            m.set(i, j, v)


def refilled(env, which, p, pre, prof=None):
    """The same matrix object, filled with other rows between calls, is a new batch."""
    z, w = grid(env, 'z', 2, p), grid(env, 'w', 2, p)
    how = env.choose('how', ['elements', 'row', 'in place'])
    env.doubles()
    for name, f in model(env, which, p, pre, prof=prof):
        n = 1 if name == 'response scores' else p
        a, b = [r[:n] for r in z], [r[:n] for r in w]
        if how == 'elements':
            c = b
        elif how == 'row':
            c = [b[0], a[1]]
        else:
            c = [[x + y for x, y in zip(r, b[0])] for r in a]
        keep = [env.M(a), env.M(c)]
        first, second = (data_of(f(k)) for k in keep)
        # nothing else happens between the calls with the same object
        m = env.M(a)
        o1 = data_of(f(m))
        if how == 'elements':
            fill(m, b)
        elif how == 'row':
            m.set_row(0, env.M(b[:1]))
        else:
            m.add_by_vector_modify(env.M(b[:1]))
        o2 = data_of(f(m))
        fill(m, a)
        o3 = data_of(f(m))
        env.check(name, env.eq(o1, first))
        env.check(name + ' of the refilled matrix', env.eq(o2, second))
        env.check(name + ' of the restored matrix', env.eq(o3, first))


T = 'wai.ma.transformation'


def refilled_transformation(env, which):
    g, h = (grid(env, n, 2, 5, lo=1 if which == 'Log' else -20, hi=40) for n in 'gh')
    t = transformer(env, which)
    if which == 'RowNorm':
        for row in g + h:
            env.assume(ssd(row) > env.const('1/100'))
    fs = [('transform', t.transform, g, h)]
    if which in ('Center', 'Standardize', 'Log', 'PassThrough'):
        s = (lambda r: [v / 40 for v in r]) if which == 'Log' else list
        fs.append(('inverse', t.inverse_transform, [s(r) for r in g], [s(r) for r in h]))
    for name, f, a, b in fs:
        keep = [env.M(a), env.M(b)]
        first, second = (data_of(f(k)) for k in keep)
        m = env.M(a)
        o1 = data_of(f(m))
        fill(m, b)
        o2 = data_of(f(m))
        env.check(name, env.eq(o1, first))
        env.check(name + ' of the refilled matrix', env.eq(o2, second))


def transformation(env, which, r):
    p = 5
    g = grid(env, 'z', r, p, lo=1, hi=40) if which == 'Log' else grid(env, 'z', r, p)
    if which == 'RowNorm':
        for row in g:
            env.assume(ssd(row) > env.const('1/100'))
    t = transformer(env, which)
    single = [data_of(t.transform(env.M([row])))[0] for row in g]
    for order in ([list(range(r)), list(reversed(range(r))), [r - 1, 0, r - 1]]):
        env.check('order %s' % order, env.eq(data_of(t.transform(env.M([g[i] for i in order]))), [single[i] for i in order]))


def transformer(env, which):
    cfg = [[env.const(v) for v in row] for row in ([1, 5, 2, 8, 3], [2, 7, 1, 9, 9], [6, 1, 1, 4, 5], [3, 3, 8, 2, 1])]
    mod = env.lib('wai.ma.filter') if which in ('Downsample', 'Equidistance') else env.lib(T)
    t = getattr(mod, which)(4) if which == 'Equidistance' else getattr(mod, which)()
    if which.startswith('Sav'):
        for k, v in ((('num_points_left', 1), ('num_points_right', 2)) if which == 'SavitzkyGolay' else (('num_points', 1),)):
            setattr(t, k, v)
    if which == 'Downsample':
        t.step = 2
    if hasattr(t, 'configure'):
        t.configure(env.M(cfg))
    return t


def scenarios(tier):
    S = Suite()
    for w in TRAINED:
        for pre in ((None, 'CENTER', 'STANDARDIZE') if w in PLS else (None,)):
            tag = '%s %s' % (w, pre or '')
            S.add('rows ' + tag, rows, which=w, p=3, pre=pre)
            S.add('affine ' + tag, affine, which=w, p=3, pre=pre)
        for k, f in enumerate([f for f in PROFILES if suits(w, f)]):
            for pre in ((None, 'CENTER', 'STANDARDIZE') if tier == 'thorough' and w in PLS else ('CENTER' if w in PLS and k % 2 else None,)):
                S.add('rows %s %s %s' % (w, f, pre or ''), rows, which=w, p=3, pre=pre, prof=f)
                S.add('affine %s %s %s' % (w, f, pre or ''), affine, which=w, p=3, pre=pre, prof=f)
        S.add('batch %s' % w, batch, which=w, p=3, pre=None, n=40)
        S.add('batch of 140 %s' % w, batch, which=w, p=3, pre=None, n=140)
        # as many rows, columns or components as in training
        for n in (8, 3):
            for pre in (None, 'CENTER', 'STANDARDIZE') if w in PLS else (None,):
                S.add('batch of %d %s %s' % (n, w, pre or ''), batch, which=w, p=3, pre=pre, n=n)
        S.add('rows of four %s' % w, rows, which=w, p=4, pre=None)
        for k, pre in enumerate((None, 'CENTER', 'STANDARDIZE') if w in PLS else (None,)):
            S.add('refilled %s %s' % (w, pre or ''), refilled, which=w, p=3, pre=pre)
        S.add('columns %s' % w, columns, which=w, p=3)
        if tier == 'thorough':
            S.add('batch of 600 %s' % w, batch, which=w, p=3, pre=None, n=600)
            if w in PLS:
                S.add('batch standardised %s' % w, batch, which=w, p=3, pre='STANDARDIZE', n=40)
    for k in ('RBFKernel', 'PolyKernel'):
        S.add('KernelPLS %s' % k, rbf, kernel=k)
    for t in ('Center', 'Standardize', 'RowNorm', 'Log', 'PassThrough', 'SavitzkyGolay', 'SavitzkyGolay2', 'Downsample', 'Equidistance'):
        S.add('refilled %s' % t, refilled_transformation, which=t)
        for r in (2, 3):
            S.add('%s %d' % (t, r), transformation, which=t, r=r)
    return S
