"""Multiplicative scatter correction: range-wise regression against the average spectrum."""
from .util import *

BOUNDS = ('all real spectra of 2-5 points and 1-3 configuration spectra; wave numbers and range limits fixed or arbitrary reals (3 points); 0-2 disjoint ranges; '
          'regression data of non-zero variance and slope; up to 30 points with fixed wave numbers and two arbitrary amplitudes')
MOD = 'wai.ma.transformation._MultiplicativeScatterCorrection'


def rising(env, name, n):
    y = [env.real(name + '_0')]
    for i in range(1, n):
        y.append(y[-1] + env.real('%s_%d' % (name, i), lo=0.125, hi=4))
    return y


def lsq(x, y):
    n = len(x)
    mx, my = mean_(x), mean_(y)
    sxy = vsum([(a - mx) * (b - my) for a, b in zip(x, y)])
    b = sxy / ssd(x)
    return my - b * mx, b


def inside(env, w, rng):
    return env.decide((w >= rng[0]) & (w <= rng[1]))


def expected(env, wave, avg, y, ranges, reg=None):
    out = list(y)
    for rng in ranges:
        ix = [i for i in range(len(wave)) if inside(env, wave[i], rng)]
        a, b = lsq([avg[i] for i in ix], [(reg or y)[i] for i in ix])
        for i in ix:
            out[i] = (out[i] - a) / b
    return out


def fixed(env, n, k, ranges, how):
    """Fixed wave numbers 10, 20, ...; k configuration spectra."""
    K = env.lib(MOD)
    wave = [env.const(10 * (i + 1)) for i in range(n)]
    conf = [rising(env, 'c%d' % q, n) for q in range(k)]
    y = rising(env, 'y', n)
    t = K.MultiplicativeScatterCorrection()
    t.correction.ranges = [(env.const(a), env.const(b)) for a, b in ranges]
    avg = [mean_([c[i] for c in conf]) for i in range(n)]
    if how == 'spectra':
        cm = t.create_configuration_matrix([env.M([[wave[i], c[i]] for i in range(n)]) for c in conf])
        env.check('configuration matrix', env.eq(cm, [[wave[i]] + [c[i] for c in conf] for i in range(n)]))
        t.configure(cm)
    elif how == 'own':
        avg = y
    else:
        t.configure(env.M([[wave[i]] + [c[i] for c in conf] for i in range(n)]))
    m = env.M([[wave[i], y[i]] for i in range(n)])
    out = t.transform(m)
    env.check('shape', env.shape(out, n, 2))
    o = data_of(out)
    env.check('wave numbers kept', *[env.eq(o[i][0], wave[i]) for i in range(n)])
    want = expected(env, wave, avg, y, t.correction.ranges)
    env.check('corrected', *[env.eq(o[i][1], want[i]) for i in range(n)])
    for rng in t.correction.ranges if n * k < 10 or how == 'own' else []:
        ix = [i for i in range(n) if inside(env, wave[i], rng)]
        d = [o[i][1] - avg[i] for i in ix]
        env.check('residual against the average has no offset and no slope', env.eq(vsum(d), 0), env.eq(vsum([x * avg[i] for x, i in zip(d, ix)]), 0))
    env.check('data unchanged', *[env.eq(m.get(i, 1), y[i]) for i in range(n)])


def flat_spectrum(env, n, e, of):
    """Spectra much flatter or steeper than the average they are corrected with."""
    K = env.lib(MOD)
    f = env.const(2) ** e if e >= 0 else 1 / env.const(2) ** -e
    wave = [env.const(10 * (i + 1)) for i in range(n)]
    avg = rising(env, 'c', n)
    y = [v * f for v in rising(env, 'y', n)]
    if of == 'average':
        avg = [v * f for v in avg]
    t = K.MultiplicativeScatterCorrection()
    t.correction.ranges = [(env.const(5), env.const(10 * n))]
    t.configure(env.M([[w, v] for w, v in zip(wave, avg)]))
    o = data_of(t.transform(env.M([[w, v] for w, v in zip(wave, y)])))
    want = expected(env, wave, avg, y, t.correction.ranges)
    g = f if of == 'average' else env.const(1)
    env.check('corrected', *[env.eq(o[i][1] / g, want[i] / g) for i in range(n)])


def arbitrary(env, n):
    """Arbitrary wave numbers, arbitrary closed range."""
    K = env.lib(MOD)
    wave = env.vec('w', n, lo=0, hi=50)
    lo, hi = env.real('lo', lo=0, hi=50), env.real('hi', lo=0, hi=50)
    env.assume(lo <= hi)
    avg, y = rising(env, 'c', n), rising(env, 'y', n)
    t = K.MultiplicativeScatterCorrection()
    t.correction.ranges = [(lo, hi)]
    ix = [i for i in range(n) if inside(env, wave[i], (lo, hi))]
    env.assume(len(ix) >= 2)
    t.configure(env.M([[wave[i], avg[i]] for i in range(n)]))
    o = data_of(t.transform(env.M([[wave[i], y[i]] for i in range(n)])))
    a, b = lsq([avg[i] for i in ix], [y[i] for i in ix])
    for i in range(n):
        if i in ix:
            env.check('inside the range', env.eq(o[i][1], (y[i] - a) / b))
        else:
            env.check('outside the range', env.eq(o[i][1], y[i]))


def prefiltered(env, n):
    """With a prefilter the regression uses the filtered spectrum, the correction the original one."""
    K = env.lib(MOD)
    wave = [env.const(10 * (i + 1)) for i in range(n)]
    avg, y, z = rising(env, 'c', n), rising(env, 'y', n), rising(env, 'z', n)

    class Pre:
        def transform(self, data):
            return env.M([[wave[i], z[i]] for i in range(n)])
    t = K.MultiplicativeScatterCorrection()
    t.correction.ranges = [(0, 10 * n)]
    t.correction.prefilter = Pre()
    t.configure(env.M([[wave[i], avg[i]] for i in range(n)]))
    o = data_of(t.transform(env.M([[wave[i], y[i]] for i in range(n)])))
    a, b = lsq(avg, z)
    env.check('corrected', *[env.eq(o[i][1], (y[i] - a) / b) for i in range(n)])


def prefiltered_part(env, n, move, rng):
    """A prefilter that moves the wave numbers decides which points are fitted; the spectrum's own wave numbers decide which are corrected."""
    K = env.lib(MOD)
    wave = [env.const(10 * (i + 1)) for i in range(n)]
    moved = [env.const(10 * (i + 1) + move) for i in range(n)]
    avg, y, z = rising(env, 'c', n), rising(env, 'y', n), rising(env, 'z', n)

    class Pre:
        def transform(self, data):
            return env.M([[moved[i], z[i]] for i in range(n)])
    t = K.MultiplicativeScatterCorrection()
    t.correction.ranges = [rng]
    t.correction.prefilter = Pre()
    t.configure(env.M([[wave[i], avg[i]] for i in range(n)]))
    m = env.M([[wave[i], y[i]] for i in range(n)])
    o = data_of(t.transform(m))
    ix = [i for i in range(n) if rng[0] <= 10 * (i + 1) + move <= rng[1]]
    a, b = lsq([avg[i] for i in ix], [z[i] for i in ix])
    env.check('corrected', *[env.eq(o[i][1], (y[i] - a) / b if rng[0] <= 10 * (i + 1) <= rng[1] else y[i]) for i in range(n)])
    env.check('wave numbers', *[env.eq(o[i][0], wave[i]) for i in range(n)])
    env.check('data unchanged', *[env.eq(m.get(i, 1), y[i]) for i in range(n)])


def falling(env, n, move, rng, sign, kind):
    """Spectra of any slope against the average, filtered by a prefilter of any slope, with moved wave numbers."""
    K = env.lib(MOD)
    wave = [env.const(10 * (i + 1)) for i in range(n)]
    moved = [env.const(10 * (i + 1) + move) for i in range(n)]
    avg, y = rising(env, 'c', n), env.vec('y', n)
    z = [sign * v for v in rising(env, 'z', n)]

    class Pre:
        def transform(self, data):
            return env.M([[moved[i], z[i]] for i in range(n)])
    t = K.MultiplicativeScatterCorrection()
    t.correction.ranges = [rng]
    if kind == 'prefilter':
        t.correction.prefilter = Pre()
    else:
        y, moved, move = z, wave, 0
    t.configure(env.M([[wave[i], avg[i]] for i in range(n)]))
    m = env.M([[wave[i], y[i]] for i in range(n)])
    o = data_of(t.transform(m))
    ix = [i for i in range(n) if rng[0] <= 10 * (i + 1) + move <= rng[1]]
    a, b = lsq([avg[i] for i in ix], [z[i] for i in ix])
    env.check('corrected', *[env.eq(o[i][1], (y[i] - a) / b if rng[0] <= 10 * (i + 1) <= rng[1] else y[i]) for i in range(n)])
    env.check('wave numbers', *[env.eq(o[i][0], wave[i]) for i in range(n)])


def average_only(env, n, k):
    """The average spectrum of any number of configuration spectra."""
    K = env.lib(MOD)
    g = grid(env, 'a', n, k + 1)
    t = K.MultiplicativeScatterCorrection()
    t.configure(env.M(g))
    env.check('average', env.eq(t.average, [[r[0], mean_(r[1:])] for r in g]))


def wide(env, n, p, q):
    K = env.lib(MOD)
    wave = [env.const(i) for i in range(n)]
    avg = [env.const((i * 7) % 11 + i) for i in range(n)]
    y = [env.const(2 * ((i * 7) % 11 + i) + i % 3) for i in range(n)]
    y[p] = y[p] + env.real('p', lo=0, hi=1)
    y[q] = y[q] + env.real('q', lo=0, hi=1)
    t = K.MultiplicativeScatterCorrection()
    t.correction.ranges = [(0, n // 2), (n // 2 + 1, n - 2)]
    t.configure(env.M([[wave[i], avg[i]] for i in range(n)]))
    o = data_of(t.transform(env.M([[wave[i], y[i]] for i in range(n)])))
    want = expected(env, wave, avg, y, t.correction.ranges)
    env.check('corrected', *[env.eq(o[i][1], want[i]) for i in range(n)])


def none(env):
    K = env.lib(MOD)
    raises(env, 'no spectra', K.MultiplicativeScatterCorrection.create_configuration_matrix, [])


def scenarios(tier):
    S = Suite()
    for n in (2, 3, 4):
        for k in (1, 2, 3):
            for how in ('matrix', 'spectra', 'own'):
                S.add('one range %d points %d spectra %s' % (n, k, how), fixed, n=n, k=k, ranges=[(0, 10 * n)], how=how)
    S.add('no range', fixed, n=3, k=1, ranges=[], how='matrix')
    S.add('part', fixed, n=4, k=1, ranges=[(15, 40)], how='matrix')
    S.add('limits inclusive', fixed, n=4, k=2, ranges=[(10, 30)], how='spectra')
    S.add('two ranges', fixed, n=4, k=1, ranges=[(5, 20), (30, 40)], how='matrix')
    S.add('two ranges reversed', fixed, n=5, k=2, ranges=[(31, 100), (10, 30)], how='spectra')
    S.add('two ranges own average', fixed, n=5, k=1, ranges=[(0, 25), (30, 60)], how='own')
    S.add('arbitrary range 3', arbitrary, n=3, weight=5)
    if tier == 'thorough':
        S.add('arbitrary range 4', arbitrary, n=4, weight=9)
    for n in (2, 3, 4):
        S.add('prefilter %d' % n, prefiltered, n=n)
    for n, move, rng in ((4, 10, (20, 40)), (5, -20, (10, 30)), (4, 5, (10, 30))):
        S.add('prefilter falling %d' % move, falling, n=n, move=move, rng=rng, sign=-1, kind='prefilter')
        S.add('prefilter any spectrum %d' % move, falling, n=n, move=move, rng=rng, sign=1, kind='prefilter')
        S.add('falling spectrum %d' % move, falling, n=n, move=move, rng=rng, sign=-1, kind='plain')
    S.add('prefilter moves up', prefiltered_part, n=4, move=10, rng=(20, 40))
    S.add('prefilter moves down', prefiltered_part, n=5, move=-20, rng=(10, 30))
    for n, k in ((1, 1), (2, 3), (3, 2), (2, 12), (14, 2)):
        S.add('average %dx%d' % (n, k), average_only, n=n, k=k)
    for n, p, q in ((12, 0, 11), (30, 3, 28), (30, 15, 16)):
        S.add('wide %d %d %d' % (n, p, q), wide, n=n, p=p, q=q)
    for e in (-12, -26, 16):
        for n in (3, 4):
            for of in ('spectrum', 'average'):
                S.add('%s of order 2^%d %d points' % (of, e, n), flat_spectrum, n=n, e=e, of=of)
    S.add('no spectra', none)
    return S
