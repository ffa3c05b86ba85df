"""Random matrices are reproducible: a function of shape and seed only, whatever was drawn before."""
from .util import *

BOUNDS = ('shapes up to 3x4, 1x12 and 12x2; every seed 0..7, the largest seed, seeds a power of two apart and seeds around constants of the source; histories of up to three other draws; every real mean and deviation')
ASSUMPTIONS = ['numpy.random: seeded draws are a fixed function of seed and draw history, uniform draws lie in [0, 1)']


def seeds():
    return sorted(set(list(range(8)) + [42, 257, 65537, 1048578, 2147483649, 4294967295] + [s + d for s in mined_ints(['factory'], 4, 200)[:4] for d in (0, 1)]))


def draw(F, env, kind, r, c, seed, mean=None, std=None):
    like = env.M([[env.const(0)] * c for _ in range(r)])
    if kind == 'rand':
        return F.rand(r, c, seed)
    if kind == 'rand_like':
        return F.rand_like(like, seed)
    a = () if mean is None else (mean, std)
    return F.randn(r, c, seed, *a) if kind == 'randn' else F.randn_like(like, seed, *a)


def same(env, kind, r, c):
    F = env.lib(FACTORY)
    s = env.choose('seed', seeds())
    hist = idx(env, 'history', 0, 3)
    a = draw(F, env, kind, r, c, s)
    first = data_of(a)
    if hist == 1:
        F.rand(2, 2, 5)
    elif hist == 2:
        F.randn(1, 3, s)
        F.rand(1, 1, s + 1 if s < 9 else 3)
    elif hist == 3:
        draw(F, env, kind, c, r, s)
        draw(F, env, kind, r, c, 6)
    b = draw(F, env, kind, r, c, s)
    env.check('shape', env.shape(a, r, c), env.shape(b, r, c))
    env.check('same seed, same matrix', env.eq(b, first))
    if kind.startswith('rand_') or kind == 'rand':
        env.check('uniform on [0, 1)', *[f for v in flat(first) for f in (env.true(v >= 0), env.true(v < 1))])
    # fresh storage
    v = env.real('v')
    b.set(0, 0, v)
    env.check('own storage', env.eq(a, first), env.eq(draw(F, env, kind, r, c, s), first))


def like(env, kind, r, c):
    F = env.lib(FACTORY)
    s = env.choose('seed', seeds())
    g = grid(env, 'm', r, c)
    m = env.M(g)
    a = getattr(F, kind + '_like')(m, s)
    env.check('like', env.eq(a, getattr(F, kind)(r, c, s)))
    env.check('model unchanged', env.eq(m, g))


def default(env, kind):
    F = env.lib(FACTORY)
    env.check('default seed', env.eq(getattr(F, kind)(2, 3), getattr(F, kind)(2, 3, 1)))


def distinct(env, kind):
    """Neighbouring seeds give different matrices (concrete draws)."""
    env.doubles()
    F = env.lib(FACTORY)
    i = idx(env, 'i', 0, len(seeds()) - 1)
    s = seeds()[i]
    a = data_of(draw(F, env, kind, 2, 2, s))
    for t in seeds():
        if t != s:
            b = data_of(draw(F, env, kind, 2, 2, t))
            env.check('another seed, another matrix', env.lit(any(bool(u != v) for u, v in zip(flat(a), flat(b)))))
    env.check('elements differ', env.lit(all(bool(u != v) for k, u in enumerate(flat(a)) for v in flat(a)[:k])))


def location(env):
    F = env.lib(FACTORY)
    m, d = env.real('mean'), env.real('std', lo=0)
    env.check('mean and deviation', env.eq(F.randn(2, 2, 3, m, d), [[m + d * v for v in r] for r in data_of(F.randn(2, 2, 3))]))


def scenarios(tier):
    S = Suite()
    for k in ('rand', 'randn', 'rand_like', 'randn_like'):
        for r, c in ((1, 1), (2, 3), (3, 1), (1, 12), (12, 2)) + (((3, 4), (5, 5)) if tier == 'thorough' else ()):
            S.add('%s %dx%d' % (k, r, c), same, kind=k, r=r, c=c)
        S.add('%s seeds' % k, distinct, kind=k)
    for k in ('rand', 'randn'):
        for r, c in ((1, 1), (2, 3), (4, 2)):
            S.add('%s like %dx%d' % (k, r, c), like, kind=k, r=r, c=c)
        S.add('%s default' % k, default, kind=k)
    S.add('randn location', location)
    return S
