"""Equality, tolerance equality and NaN detection mean what they say for every content."""
from .util import *

BOUNDS = ('all real entries, NaN and infinities at every position, shapes up to 3x3 plus wide/tall shapes up to 40; '
          'every pair of shapes up to 3x3 for the shape part of equality; tolerances: every real >= 0')


def equality(env, r, c):
    a, b = grid(env, 'a', r, c), grid(env, 'b', r, c)
    ma, mb = env.M(a), env.M(b)
    got = bool(ma == mb)
    same = env.conj([env.eq(x, y, tol=0) for x, y in zip(flat(a), flat(b))])
    if got:
        env.check('equal only with the same contents', same)
    else:
        env.check('unequal only with different contents', env.lit(not env.decide(allof(env, [x == y for x, y in zip(flat(a), flat(b))]))))
    env.check('equality is reflexive', env.lit(bool(ma == ma)), env.lit(bool(ma == ma.copy())))
    env.check('equality is symmetric', env.lit(bool(mb == ma) == got))
    env.check('inequality is its negation', env.lit(bool(ma != mb) == (not got)))
    env.check('operands unchanged', env.eq(ma, a), env.eq(mb, b))


def allof(env, bs):
    r = bs[0]
    for b in bs[1:]:
        r = r & b
    return r


def one_difference(env, r, c):
    """A single differing element anywhere makes matrices unequal."""
    a = grid(env, 'a', r, c)
    d = env.real('d')
    env.assume(d != 0)
    i, j = idx(env, 'i', 0, r - 1), idx(env, 'j', 0, c - 1)
    b = copyg(a)
    b[i][j] = b[i][j] + d
    H = env.lib(HELPER)
    ma, mb = env.M(a), env.M(b)
    env.check('unequal', env.lit(not bool(ma == mb)), env.lit(not bool(mb == ma)))
    env.check('exact helper comparison', env.lit(not bool(H.equal(ma, mb))), env.lit(bool(H.equal(ma, env.M(a)))))


def scaled_difference(env, r, c, e):
    """Elements of any magnitude: equal means equal, not equal up to a fixed amount."""
    f = env.const(2) ** e if e >= 0 else 1 / env.const(2) ** -e
    a = [[x * f for x in row] for row in grid(env, 'a', r, c, lo=-4, hi=4)]
    i, j = idx(env, 'i', 0, r - 1), idx(env, 'j', 0, c - 1)
    a[i][j] = env.const(env.choose('at', (0, 1, -3))) * f
    d = env.real('d', lo=-4, hi=4)
    env.assume((d >= env.const('1/64')) | (d <= env.const('-1/64')))
    b = copyg(a)
    b[i][j] = b[i][j] + d * f
    H = env.lib(HELPER)
    ma, mb = env.M(a), env.M(b)
    env.check('unequal', env.lit(not bool(ma == mb)), env.lit(not bool(mb == ma)), env.lit(bool(ma != mb)))
    env.check('equal', env.lit(bool(ma == env.M(a))), env.lit(bool(mb == env.M(b))))
    env.check('exact helper comparison', env.lit(not bool(H.equal(ma, mb))), env.lit(bool(H.equal(ma, env.M(a)))))
    env.check('tolerance of that magnitude', env.lit(bool(H.equal(ma, mb, f * 8))), env.lit(not bool(H.equal(ma, mb, f / 128))))


def tolerance(env, r, c):
    a = grid(env, 'a', r, c)
    d = env.real('d')
    eps = env.real('eps', lo=0)
    i, j = idx(env, 'i', 0, r - 1), idx(env, 'j', 0, c - 1)
    b = copyg(a)
    b[i][j] = b[i][j] + d
    H = env.lib(HELPER)
    # stay clear of the boundary, where rounding decides
    if env.decide(env.true(abs(d) <= eps)):
        env.assume(abs(d) * 2 <= eps)
        env.check('within tolerance', env.lit(bool(H.equal(env.M(a), env.M(b), eps))), env.lit(bool(H.equal(env.M(b), env.M(a), eps))))
    else:
        env.assume((abs(d) >= eps * 2) & (abs(d) >= env.const('1/1000')))
        env.check('outside tolerance', env.lit(not bool(H.equal(env.M(a), env.M(b), eps))), env.lit(not bool(H.equal(env.M(b), env.M(a), eps))))


def shapes(env, r, c, r2, c2):
    H = env.lib(HELPER)
    v = env.real('v')
    a, b = env.M([[v] * c for _ in range(r)]), env.M([[v] * c2 for _ in range(r2)])
    same = (r, c) == (r2, c2)
    env.check('shapes take part in equality', env.lit(bool(a == b) == same), env.lit(bool(b == a) == same), env.lit(bool(a != b) == (not same)))
    env.check('helper comparison', env.lit(bool(H.equal(a, b)) == same), env.lit(bool(H.equal(a, b, env.const('1/2'))) == same))
    env.check('shape predicate', env.lit(bool(a.same_shape_as(b)) == same))
    env.check('other types', env.lit(not bool(a == None)), env.lit(not bool(a == 1)), env.lit(not bool(a == 'x')), env.lit(not bool(a == [[v] * c] * r)))


def special(env, r, c, kind):
    """NaN and infinite elements at any position."""
    H = env.lib(HELPER)
    a = grid(env, 'a', r, c)
    i, j = idx(env, 'i', 0, r - 1), idx(env, 'j', 0, c - 1)
    x = {'nan': env.nan(), 'inf': env.inf(), '-inf': env.inf(-1)}[kind]
    b = copyg(a)
    b[i][j] = x
    ma, mb = env.M(a), env.M(b)
    env.check('NaN detection', env.lit(not bool(ma.contains_NaN())), env.lit(bool(mb.contains_NaN()) == (kind == 'nan')))
    env.check('differs from the finite matrix', env.lit(not bool(ma == mb)), env.lit(not bool(mb == ma)),
              env.lit(not bool(H.equal(ma, mb))), env.lit(not bool(H.equal(mb, ma))), env.lit(not bool(H.equal(ma, mb, env.const(1000)))))
    mc, inf = env.M(copyg(b)), kind != 'nan'
    env.check('NaN equals nothing, an infinity itself', env.lit(bool(mb == mc) == inf), env.lit(bool(mc != mb) != inf),
              env.lit(bool(H.equal(mb, mc)) == inf), env.lit(bool(H.equal(mc, mb, env.const('1/2'))) == inf))
    if inf:
        o = copyg(b)
        o[i][j] = env.inf(-1 if kind == 'inf' else 1)
        mo = env.M(o)
        env.check('opposite infinities differ', env.lit(not bool(mb == mo)), env.lit(not bool(H.equal(mb, mo))), env.lit(not bool(H.equal(mo, mb, env.const(1000)))))
    f = lambda v: bool(v < 1)
    want = [(p, q) for p in range(r) for q in range(c) if not (p == i and q == j and kind != '-inf') and bool((b[p][q] if not (p, q) == (i, j) else env.const(-5)) < 1)]
    env.check('search by predicate', env.lit([tuple(int(z) for z in t) for t in mb.which(f)] == want), env.lit(bool(mb.any(f)) == bool(want)),
              env.lit(bool(mb.all(f)) == (len(want) == r * c)))
    cp = mb.copy()
    env.check('copies keep it', env.lit(bool(cp.contains_NaN()) == (kind == 'nan')), env.lit(bool(mb.transpose().contains_NaN()) == (kind == 'nan')))


def special_wide(env, r, c):
    i, j = idx(env, 'i', 0, r - 1), idx(env, 'j', 0, c - 1)
    v = env.real('v')
    g = [[v + p * c + q for q in range(c)] for p in range(r)]
    h = copyg(g)
    h[i][j] = env.nan()
    env.check('NaN detection', env.lit(not bool(env.M(g).contains_NaN())), env.lit(bool(env.M(h).contains_NaN())))
    k = copyg(g)
    k[i][j] = k[i][j] + 1
    H = env.lib(HELPER)
    env.check('NaN equals nothing', env.lit(not bool(env.M(h) == env.M(copyg(h)))), env.lit(not bool(H.equal(env.M(h), env.M(copyg(h))))),
              env.lit(not bool(H.equal(env.M(h), env.M(copyg(h)), env.const(2)))))
    env.check('one difference', env.lit(not bool(env.M(g) == env.M(k))), env.lit(not bool(H.equal(env.M(g), env.M(k)))),
              env.lit(bool(H.equal(env.M(g), env.M(k), env.const(2)))), env.lit(not bool(H.equal(env.M(g), env.M(k), env.const('1/2')))))
    env.check('same', env.lit(bool(env.M(g) == env.M(copyg(g)))), env.lit(bool(H.equal(env.M(g), env.M(copyg(g))))))


def two_specials(env, r, c):
    """Any two special elements at once: infinities never pass for NaN, nor do they cancel."""
    H = env.lib(HELPER)
    K = {'nan': env.nan(), 'inf': env.inf(), '-inf': env.inf(-1), 'huge': env.const(10 ** 200), '-huge': env.const(-10 ** 200)}
    a = grid(env, 'a', r, c)
    k1, k2 = env.choose('first', list(K)), env.choose('second', list(K))
    i, j = idx(env, 'i', 0, r * c - 2), r * c - 1
    b = copyg(a)
    b[i // c][i % c] = K[k1]
    b[j // c][j % c] = K[k2]
    mb = env.M(b)
    n = 'nan' in (k1, k2)
    env.check('NaN detection', env.lit(bool(mb.contains_NaN()) == n))
    o = copyg(a)
    o[i // c][i % c] = K[k2]
    o[j // c][j % c] = K[k1]
    if k1 != k2:
        env.check('exchanged elements differ', env.lit(not bool(mb == env.M(o))), env.lit(not bool(H.equal(mb, env.M(o)))), env.lit(not bool(env.M(o) == mb)))


def scenarios(tier):
    S = Suite()
    for r, c in [(1, 2), (2, 1), (2, 2)]:
        S.add('two specials %dx%d' % (r, c), two_specials, r=r, c=c)
    for r, c in [(1, 1), (1, 2), (2, 1), (2, 2)]:
        S.add('equality %dx%d' % (r, c), equality, r=r, c=c)
    for r, c in SHAPES:
        S.add('one difference %dx%d' % (r, c), one_difference, r=r, c=c)
        S.add('tolerance %dx%d' % (r, c), tolerance, r=r, c=c)
    for e in (-10, -20, -34, -70, -300, 20, 60, 500):
        for r, c in ((1, 1), (2, 2), (1, 3)):
            S.add('difference of order 2^%d %dx%d' % (e, r, c), scaled_difference, r=r, c=c, e=e)
    for r in (1, 2, 3):
        for c in (1, 2, 3):
            for r2 in (1, 2, 3):
                for c2 in (1, 2, 3):
                    S.add('shapes %dx%d %dx%d' % (r, c, r2, c2), shapes, r=r, c=c, r2=r2, c2=c2)
    for r, c in [(1, 1), (1, 2), (2, 1), (2, 2)]:
        for k in ('nan', 'inf', '-inf'):
            S.add('%s %dx%d' % (k, r, c), special, r=r, c=c, kind=k)
    for r, c in [(1, 4), (4, 1), (2, 3), (1, 7)]:
        for k in ('nan', 'inf'):
            S.add('%s %dx%d' % (k, r, c), special, r=r, c=c, kind=k)
    for r, c in [(3, 3)] + WIDE + mined_shapes(['core']):
        S.add('wide %dx%d' % (r, c), special_wide, r=r, c=c)
    return S
