"""Resampling filters and filter chains."""
from .util import *

BOUNDS = ('all real data with 1-3 rows; downsampling: 1-8 columns (and 40), every start 0-7 and step 1-8; equidistance: 1-8 input columns (and 40), 2-9 output samples (and 50); '
          'chains of up to 3 filters in every order')


def downsample(env, r, c):
    D = env.lib('wai.ma.filter').Downsample
    g = grid(env, 'a', r, c)
    t = D()
    s = idx(env, 's', 0, min(c - 1, 7))
    k = idx(env, 'k', 1, 8)
    t.start_index, t.step = s, k
    m = env.M(g)
    out = t.transform(m)
    cols = [j for j in range(c) if j >= s and (j - s) % k == 0]
    env.check('columns', env.shape(out, r, len(cols)), env.eq(out, [[row[j] for j in cols] for row in g]))
    env.check('data unchanged', env.eq(m, g))
    out.set(0, 0, env.const(99))
    env.check('independent result', env.eq(m, g))


def default_downsample(env, r, c):
    D = env.lib('wai.ma.filter').Downsample
    g = grid(env, 'a', r, c)
    env.check('default keeps everything', env.eq(D().transform(env.M(g)), g))


def equidistance(env, r, c, n):
    E = env.lib('wai.ma.filter').Equidistance
    g = grid(env, 'a', r, c) if c < 10 else [[env.real('a_%d_%d' % (i, j)) if j in (0, 1, c // 2, c - 2, c - 1) else env.const(j * j % 7) for j in range(c)] for i in range(r)]
    m = env.M(g)
    out = E(n).transform(m)
    env.check('shape', env.shape(out, r, n))
    o = data_of(out)
    for i in range(r):
        for k in range(n):
            p = k * (c - 1)
            j, f = p // (n - 1), p % (n - 1)
            want = g[i][j] if f == 0 else g[i][j] * env.const('%d/%d' % (n - 1 - f, n - 1)) + g[i][j + 1] * env.const('%d/%d' % (f, n - 1))
            env.check('interpolated', env.eq(o[i][k], want))
    env.check('data unchanged', env.eq(m, g))
    out.set(0, 0, env.const(99))
    env.check('independent result', env.eq(m, g))


def lines(env, c, n):
    """Straight lines are resampled to straight lines with the same end points."""
    E = env.lib('wai.ma.filter').Equidistance
    a, b = env.real('a'), env.real('b')
    g = [[a + b * j for j in range(c)]]
    o = data_of(E(n).transform(env.M(g)))[0]
    for k in range(n):
        env.check('on the line', env.eq(o[k], a + b * env.const('%d/%d' % (k * (c - 1), n - 1))))


def change_samples(env, c):
    E = env.lib('wai.ma.filter').Equidistance
    g = grid(env, 'a', 1, c)
    n = env.int('n', -2, 6)
    ok, t = env.attempt(E, n.__index__())
    env.check('at least two samples', env.true(n >= 2) if ok else env.true(n < 2), env.lit(ok or isinstance(t, ValueError)))
    t = E(3)
    ok, e = env.attempt(setattr, t, 'num_samples', n.__index__())
    env.check('at least two samples later', env.true(n >= 2) if ok else env.true(n < 2))
    k = n.__index__() if ok else 3
    out = t.transform(env.M(g))
    env.check('current number of samples', env.shape(out, 1, k), env.eq(out, E(k).transform(env.M(g))))


class Rec:
    """Filter standing in for any filter: x -> x*s + o, records what it was given."""

    def __init__(self, env, s, o, log):
        self.env, self.s, self.o, self.log = env, s, o, log

    def transform(self, m):
        self.log.append(data_of(m))
        return m.mul(self.s).add(self.o)


def chain(env, r, c, n):
    F = env.lib('wai.ma.core').MultiFilter if hasattr(env.lib('wai.ma.core'), 'MultiFilter') else env.lib('wai.ma.core._MultiFilter').MultiFilter
    g = grid(env, 'a', r, c)
    log = []
    fs = [Rec(env, env.real('s%d' % i), env.real('o%d' % i), log) for i in range(n)]
    m = env.M(g)
    t = F(fs)
    for rep in range(2):
        del log[:]
        out = t.transform(m)
        want = copyg(g)
        env.check('each filter applied once', env.lit(len(log) == n))
        for k, f in enumerate(fs):
            if k < len(log):
                env.check('input of filter %d' % k, env.eq(log[k], want))
            want = emap(lambda x: x * f.s + f.o, want)
        env.check('composition', env.eq(out, want))
        env.check('data unchanged', env.eq(m, g))


def repeated(env, r, c, pattern):
    """One filter object may appear several times in a chain; filters may be exchanged between calls."""
    F = env.lib('wai.ma.core._MultiFilter').MultiFilter
    g = grid(env, 'a', r, c)
    log = []
    fs = [Rec(env, env.real('s%d' % i), env.real('o%d' % i), log) for i in range(2)]
    t = F([fs[k] for k in pattern])
    out = t.transform(env.M(g))
    want = copyg(g)
    env.check('number of applications', env.lit(len(log) == len(pattern)))
    for k in pattern:
        want = emap(lambda x: x * fs[k].s + fs[k].o, want)
    env.check('composition', env.eq(out, want))
    t.filters = [fs[1 - k] for k in pattern]
    want = copyg(g)
    for k in pattern:
        want = emap(lambda x: x * fs[1 - k].s + fs[1 - k].o, want)
    env.check('exchanged filters', env.eq(t.transform(env.M(g)), want))
    nest = F([t, fs[0], t])
    want2 = emap(lambda x: x * fs[0].s + fs[0].o, want)
    for k in pattern:
        want2 = emap(lambda x: x * fs[1 - k].s + fs[1 - k].o, want2)
    env.check('chains of chains', env.eq(nest.transform(env.M(g)), want2))


def mixed(env, order):
    MF = env.lib('wai.ma.core._MultiFilter').MultiFilter
    fl, tr_ = env.lib('wai.ma.filter'), env.lib('wai.ma.transformation')
    g = grid(env, 'a', 2, 5)

    def make(k):
        if k == 'd':
            t = fl.Downsample()
            t.start_index, t.step = 1, 2
            return t
        if k == 'e':
            return fl.Equidistance(4)
        return tr_.Center()
    out = MF([make(k) for k in order]).transform(env.M(g))
    x = env.M(g)
    for k in order:
        x = make(k).transform(x)
    env.check('composition', env.eq(out, x))


def scenarios(tier):
    S = Suite()
    for r, c in ((1, 1), (1, 2), (2, 3), (1, 5), (3, 4), (2, 8), (1, 40)) + tuple(mined_shapes(['filter'])):
        S.add('downsample %dx%d' % (r, c), downsample, r=r, c=c, weight=2)
        S.add('default downsample %dx%d' % (r, c), default_downsample, r=r, c=c)
    for c in (1, 2, 3, 4, 5, 6, 8):
        for n in (2, 3, 4, 5, 6, 7, 9):
            S.add('equidistance %d to %d' % (c, n), equidistance, r=1 + (c + n) % 3, c=c, n=n)
            S.add('lines %d to %d' % (c, n), lines, c=c, n=n)
    for c, n in ((40, 7), (6, 50), (40, 40), (33, 65), (65, 33)):
        S.add('equidistance %d to %d' % (c, n), equidistance, r=1, c=c, n=n)
        S.add('lines %d to %d' % (c, n), lines, c=c, n=n)
    for c in (2, 4):
        S.add('number of samples %d' % c, change_samples, c=c)
    for n in (0, 1, 2, 3):
        for r, c in ((1, 1), (2, 2)):
            S.add('chain of %d %dx%d' % (n, r, c), chain, r=r, c=c, n=n)
    for pat in ((0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 0)):
        S.add('repeated filters %s' % ''.join(map(str, pat)), repeated, r=1, c=2, pattern=pat)
    for o in ('dd', 'ded', 'cc', 'ee', 'de', 'ed', 'dc', 'cd', 'ce', 'dec', 'edc', 'ced'):
        S.add('mixed chain %s' % o, mixed, order=o)
    return S
