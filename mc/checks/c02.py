"""Matrix arithmetic, reductions and norms against element-wise definitions; shape rejection."""
from .util import *
from .util import grid as dense

BOUNDS = ('all real entries and scalars (division by zero included); shapes up to 3x3 plus wide/tall shapes up to 40 and '
          'shapes around every size the source mentions; a dozen symbols inside matrices of some 4300 entries; order statistics up to 5 elements')


def grid(env, name, r, c, lo=None, hi=None):
    """A grid of symbols; a large one has a dozen of them in between fixed numbers."""
    if r * c <= 400:
        return dense(env, name, r, c, lo, hi)
    at = {(k * 7919 + 13 * len(name)) % (r * c) for k in range(12)} | {0, r * c - 1}
    return [[env.real('%s_%d_%d' % (name, i, j), lo, hi) if i * c + j in at else env.const(((i * 31 + j * 17 + ord(name[0])) % 23 - 11) or 5)
             for j in range(c)] for i in range(r)]


def elementwise(env, r, c):
    a, b = grid(env, 'a', r, c), grid(env, 'b', r, c)
    s = env.real('s')
    ma, mb = env.M(a), env.M(b)
    env.check('add', env.eq(ma.add(mb), emap(lambda x, y: x + y, a, b)), env.eq(ma.add(s), emap(lambda x: x + s, a)))
    env.check('sub', env.eq(ma.sub(mb), emap(lambda x, y: x - y, a, b)), env.eq(ma.sub(s), emap(lambda x: x - s, a)))
    env.check('scalar mul', env.eq(ma.mul(s), emap(lambda x: x * s, a)))
    env.check('elementwise mul', env.eq(ma.mul_elementwise(mb), emap(lambda x, y: x * y, a, b)))
    env.check('power', env.eq(ma.pow_elementwise(2), emap(lambda x: x * x, a)), env.eq(ma.pow_elementwise(3), emap(lambda x: x * x * x, a)))
    env.check('apply', env.eq(ma.apply_elementwise(lambda x: x * x + s), emap(lambda x: x * x + s, a)))
    env.check('operands unchanged', env.eq(ma, a), env.eq(mb, b))


def int_scalars(env, r, c):
    """Python integers are scalars too."""
    a = grid(env, 'a', r, c)
    ma = env.M(a)
    for k in (-2, 0, 1, 3):
        env.check('integer scalars', env.eq(ma.add(k), emap(lambda x: x + k, a)), env.eq(ma.sub(k), emap(lambda x: x - k, a)),
                  env.eq(ma.mul(k), emap(lambda x: x * k, a)))


def division(env, r, c):
    a, b = grid(env, 'a', r, c), grid(env, 'b', r, c)
    s = env.real('s')
    env.assume(s != 0)
    for x in flat(b):
        env.assume(x != 0)
    ma, mb = env.M(a), env.M(b)
    env.check('division', env.eq(ma.div(s), emap(lambda x: x / s, a)), env.eq(ma.div_elementwise(mb), emap(lambda x, y: x / y, a, b)))
    env.check('operands unchanged', env.eq(ma, a), env.eq(mb, b))


def div_zero(env):
    a, b = env.real('a'), env.real('b')
    got = env.M([[a]]).div_elementwise(env.M([[b]])).get(0, 0)
    if env.decide(b == 0):
        if env.decide(a == 0):
            env.check('0/0 is NaN', env.isnan(got))
        elif env.decide(a > 0):
            env.check('x/0 is inf', env.eq(got, env.inf()))
        else:
            env.check('-x/0 is -inf', env.eq(got, env.inf(-1)))
    else:
        env.check('quotient', env.eq(got, a / b))


def nonlinear(env, r, c):
    a = grid(env, 'a', r, c, lo=0)
    m = env.M(a)
    env.check('sqrt', env.eq(m.sqrt(), emap(env.sqrt, a)))
    q = grid(env, 'q', r, c)
    mq = env.M(q)
    env.check('exp', env.eq(mq.exp(), emap(env.exp, q)))
    env.check('tanh', env.eq(mq.tanh(), emap(env.tanh, q)))
    env.check('unchanged', env.eq(m, a), env.eq(mq, q))


def product(env, n, k, m):
    a, b = grid(env, 'a', n, k), grid(env, 'b', k, m)
    ma, mb = env.M(a), env.M(b)
    env.check('matrix product', env.eq(ma.mul(mb), matmul(a, b)))
    env.check('multiplicable', env.lit(bool(ma.is_multiplicable_with(mb))))
    env.check('operands unchanged', env.eq(ma, a), env.eq(mb, b))


def dot(env, n):
    x, y = env.vec('x', n), env.vec('y', n)
    d = vsum([p * q for p, q in zip(x, y)])
    rx, cx, ry, cy = env.M([x]), env.M([[p] for p in x]), env.M([y]), env.M([[p] for p in y])
    env.check('dot product', *[env.eq(p.vector_dot(q), d) for p in (rx, cx) for q in (ry, cy)])
    raises(env, 'dot of unequal lengths', rx.vector_dot, env.M([y + [x[0]]]))
    raises(env, 'dot of a non-vector', env.M([[x[0], x[0]], [x[0], x[0]]]).vector_dot, ry)
    raises(env, 'dot with a non-vector', rx.vector_dot, env.M([[x[0], x[0]], [x[0], x[0]]]))


def vectors(env, r, c):
    a = grid(env, 'a', r, c)
    rv, cv = env.vec('rv', c), env.vec('cv', r)
    R_, C_ = env.M([rv]), env.M([[x] for x in cv])
    m = env.M(a)
    f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}
    for n, op in f.items():
        er = [[op(a[i][j], rv[j]) for j in range(c)] for i in range(r)]
        ec = [[op(a[i][j], cv[i]) for j in range(c)] for i in range(r)]
        if not (c == 1 and r != 1):
            env.check('%s row vector' % n, env.eq(getattr(m, n + '_by_vector')(R_), er))
            k = m.copy()
            getattr(k, n + '_by_vector_modify')(R_)
            env.check('%s row vector in place' % n, env.eq(k, er))
        if not (r == 1 and c != 1):
            env.check('%s column vector' % n, env.eq(getattr(m, n + '_by_vector')(C_), ec))
            k = m.copy()
            getattr(k, n + '_by_vector_modify')(C_)
            env.check('%s column vector in place' % n, env.eq(k, ec))
    env.check('scale columns', env.eq(m.scale_by_row_vector(env.M([[x] for x in rv])), [[a[i][j] * rv[j] for j in range(c)] for i in range(r)]))
    env.check('scale rows', env.eq(m.scale_by_column_vector(C_), [[a[i][j] * cv[i] for j in range(c)] for i in range(r)]))
    for x in rv:
        env.assume(x != 0)
    k = m.copy()
    k.div_by_vector_modify(R_)
    env.check('div row vector in place', env.eq(k, [[a[i][j] / rv[j] for j in range(c)] for i in range(r)]))
    env.check('operands unchanged', env.eq(m, a), env.eq(R_, [rv]), env.eq(C_, [[x] for x in cv]))


def rejects(env, r, c, r2, c2):
    """Operands whose shapes do not match are refused, never broadcast or truncated."""
    a, b = grid(env, 'a', r, c), grid(env, 'b', r2, c2)
    ma, mb = env.M(a), env.M(b)
    same = (r, c) == (r2, c2)
    env.check('same shape', env.lit(bool(ma.same_shape_as(mb)) == same))
    if not same:
        for n in ('add', 'sub', 'mul_elementwise', 'div_elementwise'):
            raises(env, '%s rejected' % n, getattr(ma, n), mb)
    env.check('multiplicable predicate', env.lit(bool(ma.is_multiplicable_with(mb)) == (c == r2)))
    if c != r2:
        raises(env, 'product rejected', ma.mul, mb)
    vec = r2 == 1 or c2 == 1
    fits = (r2 == 1 and c2 == c) or (c2 == 1 and r2 == r and not (r2 == 1))
    if not vec or not (fits or (r2 == 1 and c2 == 1 and r == 1)):
        for n in ('add_by_vector', 'sub_by_vector', 'mul_by_vector'):
            raises(env, '%s rejected' % n, getattr(ma, n), mb)
        k = ma.copy()
        for n in ('add_by_vector_modify', 'sub_by_vector_modify', 'mul_by_vector_modify', 'div_by_vector_modify'):
            raises(env, '%s rejected' % n, getattr(k, n), mb)
        env.check('target intact after rejection', env.eq(k, a))
    if not (c2 == 1 and r2 == c):
        raises(env, 'column scaling rejected', ma.scale_by_row_vector, mb)
    if not (c2 == 1 and r2 == r):
        raises(env, 'row scaling rejected', ma.scale_by_column_vector, mb)
    env.check('operands unchanged', env.eq(ma, a), env.eq(mb, b))


def reductions(env, r, c):
    H = env.lib(HELPER)
    a = grid(env, 'a', r, c)
    m = env.M(a)
    tot = vsum(flat(a))
    cols = [vsum([a[i][j] for i in range(r)]) for j in range(c)]
    rows = [vsum(a[i]) for i in range(r)]
    env.check('sum', env.eq(m.sum(), tot), env.eq(m.sum(-1), [[tot]]), env.eq(m.sum(0), [cols]), env.eq(m.sum(1), [[x] for x in rows]))
    env.check('mean', env.eq(m.mean(), tot / (r * c)), env.eq(m.mean(-1), [[tot / (r * c)]]), env.eq(m.mean(0), [[x / r for x in cols]]),
              env.eq(m.mean(1), [[x / c] for x in rows]))
    raises(env, 'bad sum axis', m.sum, 2)
    raises(env, 'bad mean axis', m.mean, 2)
    env.check('helper means', env.eq(H.column_means(m), [[x / r for x in cols]]), env.eq(H.row_means(m), [[x / c] for x in rows]),
              *[env.eq(H.column_mean(m, j), cols[j] / r) for j in range(c)], *[env.eq(H.row_mean(m, i), rows[i] / c) for i in range(r)],
              *[env.eq(H.mean(m, j), cols[j] / r) for j in range(c)], *[env.eq(H.mean(m, i, False), rows[i] / c) for i in range(r)])
    env.check('unchanged', env.eq(m, a))


def spreads(env, r, c):
    H = env.lib(HELPER)
    a = grid(env, 'a', r, c)
    m = env.M(a)
    if r > 1:
        sd = [env.sqrt(ssd([a[i][j] for i in range(r)]) / (r - 1)) for j in range(c)]
        env.check('column deviations', env.eq(H.column_stdevs(m), [sd]), *[env.eq(H.column_stdev(m, j), sd[j]) for j in range(c)],
                  *[env.eq(H.stdev(m, j), sd[j]) for j in range(c)])
    if c > 1:
        sd = [env.sqrt(ssd(a[i]) / (c - 1)) for i in range(r)]
        env.check('row deviations', env.eq(H.row_stdevs(m), [[x] for x in sd]), *[env.eq(H.row_stdev(m, i), sd[i]) for i in range(r)],
                  *[env.eq(H.stdev(m, i, False), sd[i]) for i in range(r)])
    env.check('unchanged', env.eq(m, a))


def norms(env, r, c):
    a = grid(env, 'a', r, c)
    m = env.M(a)
    sq = vsum([x * x for x in flat(a)])
    scale = 1 if r == 1 or c == 1 else min(r, c)
    env.check('squared norm', env.eq(m.norm2_squared(), sq / scale))
    n2 = m.norm2()
    env.check('norm', env.ge(n2, 0), env.eq(n2 * n2, sq / scale))
    env.check('unchanged', env.eq(m, a))


def norm1(env, r, c):
    a = grid(env, 'a', r, c)
    m = env.M(a)
    env.check('sum of magnitudes', env.eq(m.norm1(), vsum([abs(x) for x in flat(a)])))


def normalized(env, r, c):
    a = grid(env, 'a', r, c)
    cs = [vsum([a[i][j] * a[i][j] for i in range(r)]) for j in range(c)]
    rs = [vsum([x * x for x in a[i]]) for i in range(r)]
    for x in cs + rs:
        env.assume(x > env.const('1/100'))
    m = env.M(a)
    env.check('unit columns', env.eq(m.normalized(), [[a[i][j] / env.sqrt(cs[j]) for j in range(c)] for i in range(r)]),
              env.eq(m.normalized(0), [[a[i][j] / env.sqrt(cs[j]) for j in range(c)] for i in range(r)]))
    env.check('unit rows', env.eq(m.normalized(1), [[a[i][j] / env.sqrt(rs[i]) for j in range(c)] for i in range(r)]))


def order(env, r, c):
    a = grid(env, 'a', r, c)
    m = env.M(a)
    mx = m.max()
    env.check('max bounds', *[env.ge(mx, x) for x in flat(a)])
    hit = flat(a)[0] == mx
    for x in flat(a)[1:]:
        hit = hit | (x == mx)
    env.check('max attained', env.true(hit))


def median(env, r, c):
    a = grid(env, 'a', r, c)
    md = env.M(a).median()
    f = flat(a)
    n = len(f)
    le = sum(1 for x in f if env.decide(x <= md))
    ge = sum(1 for x in f if env.decide(x >= md))
    env.check('median splits', env.lit(2 * le >= n and 2 * ge >= n, '%d %d of %d' % (le, ge, n)))


def clipping(env, r, c):
    a = grid(env, 'a', r, c)
    lo, hi = env.real('lo'), env.real('hi')
    m = env.M(a)
    if env.decide(lo > hi):
        raises(env, 'inverted bounds rejected', m.clip, lo, hi)
        return
    k = m.clip(lo, hi)
    for i in range(r):
        for j in range(c):
            x, y = a[i][j], k.get(i, j)
            env.check('clip', env.true(((x < lo) & (y == lo)) | ((x > hi) & (y == hi)) | ((x >= lo) & (x <= hi) & (y == x))))
    env.check('unchanged', env.eq(m, a))


def one_sided(env):
    a, lo = env.real('a'), env.real('lo')
    m = env.M([[a]])
    y = m.clip_lower(lo).get(0, 0)
    env.check('lower', env.true(((a < lo) & (y == lo)) | ((a >= lo) & (y == a))))
    y = m.clip_upper(lo).get(0, 0)
    env.check('upper', env.true(((a > lo) & (y == lo)) | ((a <= lo) & (y == a))))


def signs(env, r, c):
    a = grid(env, 'a', r, c)
    m = env.M(a)
    s, b = m.sign(), m.abs()
    for i in range(r):
        for j in range(c):
            x, y, z = a[i][j], s.get(i, j), b.get(i, j)
            env.check('sign', env.true(((x > 0) & (y == 1)) | ((x < 0) & (y == -1)) | ((x == 0) & (y == 0))))
            env.check('abs', env.true(((x >= 0) & (z == x)) | ((x < 0) & (z == -x))))
    env.check('unchanged', env.eq(m, a))


SPECIAL = {'nan': lambda env: env.nan(), 'inf': lambda env: env.inf(), '-inf': lambda env: env.inf(-1)}


def special(env, r, c, kind):
    """A NaN or infinity anywhere is carried through element by element and leaves the other elements alone."""
    x = SPECIAL[kind](env)
    a, b = grid(env, 'a', r, c), grid(env, 'b', r, c)
    i, j = idx(env, 'i', 0, r - 1), idx(env, 'j', 0, c - 1)
    a[i][j] = x
    lo, hi = env.const('-3/2'), env.const(2)
    ma, mb = env.M(a), env.M(b)

    def put(g, v):
        g = copyg(g)
        g[i][j] = v
        return g
    z = put(a, env.const(0))
    same = x
    neg = {'nan': env.nan(), 'inf': env.inf(-1), '-inf': env.inf()}[kind]
    mag = {'nan': env.nan(), 'inf': env.inf(), '-inf': env.inf()}[kind]
    env.check('add', env.eq(ma.add(mb), put(emap(lambda p, q: p + q, z, b), same)), env.eq(mb.add(ma), put(emap(lambda p, q: p + q, z, b), same)),
              env.eq(ma.add(hi), put(emap(lambda p: p + hi, z), same)))
    env.check('sub', env.eq(ma.sub(mb), put(emap(lambda p, q: p - q, z, b), same)), env.eq(mb.sub(ma), put(emap(lambda p, q: q - p, z, b), neg)),
              env.eq(ma.sub(hi), put(emap(lambda p: p - hi, z), same)))
    env.check('mul', env.eq(ma.mul(hi), put(emap(lambda p: p * hi, z), same)), env.eq(ma.mul(lo), put(emap(lambda p: p * lo, z), neg)),
              env.eq(ma.div(hi), put(emap(lambda p: p / hi, z), same)))
    env.check('powers', env.eq(ma.pow_elementwise(2), put(emap(lambda p: p * p, z), mag)), env.eq(ma.pow_elementwise(3), put(emap(lambda p: p * p * p, z), same)))
    rs, cs = data_of(ma.sum(1)), data_of(ma.sum(0))
    env.check('row sums', *[env.eq(rs[p][0], x if p == i else vsum(a[p])) for p in range(r)])
    env.check('column sums', *[env.eq(cs[0][q], x if q == j else vsum([a[p][q] for p in range(r)])) for q in range(c)])
    rs, cs = data_of(ma.mean(1)), data_of(ma.mean(0))
    env.check('row means', *[env.eq(rs[p][0], x if p == i else vsum(a[p]) / c) for p in range(r)])
    env.check('column means', *[env.eq(cs[0][q], x if q == j else vsum([a[p][q] for p in range(r)]) / r) for q in range(c)])
    env.check('totals', env.eq(ma.sum(), x), env.eq(ma.mean(), x))
    nothing, zero = put([[0] * c for _ in range(r)], env.nan()), env.const(0)
    env.check('times zero', env.eq(ma.mul(0), nothing), env.eq(ma.mul(zero), nothing), env.eq(ma.mul_elementwise(env.M([[zero] * c for _ in range(r)])), nothing),
              env.eq(ma.scale_by_row_vector(env.M([[zero]] * c)), nothing), env.eq(ma.scale_by_column_vector(env.M([[zero]] * r)), nothing),
              env.eq(ma.mul_by_vector(env.M([[zero]] * r)), nothing))
    env.check('times one', env.eq(ma.mul(1), a), env.eq(ma.mul(-1), put(emap(lambda p: -p, z), neg)), env.eq(ma.div(1), a), env.eq(ma.add(0), a), env.eq(ma.sub(0), a))
    env.check('product with zero', env.eq(ma.mul(env.M([[zero]] * c)), [[env.nan() if p == i else 0] for p in range(r)]))
    env.check('product with one', env.eq(ma.mul(env.M([[1 if p == q else 0 for q in range(c)] for p in range(c)])), [[(x if q == j and c == 1 else env.nan()) if p == i and (q != j or kind == 'nan') else a[p][q] for q in range(c)] for p in range(r)]))
    env.check('operands unchanged', env.eq(ma, a), env.eq(mb, b))


def special_order(env, r, c, kind):
    """Magnitude, sign, clipping and maximum in the presence of a NaN or infinity."""
    x = SPECIAL[kind](env)
    a = grid(env, 'a', r, c)
    i, j = idx(env, 'i', 0, r - 1), idx(env, 'j', 0, c - 1)
    a[i][j] = x
    lo, hi = env.const('-3/2'), env.const(2)
    mag = {'nan': env.nan(), 'inf': env.inf(), '-inf': env.inf()}[kind]
    ma = env.M(a)
    ab = ma.abs()
    cl, cu, cb = ma.clip_lower(lo), ma.clip_upper(hi), ma.clip(lo, hi)
    sg = ma.sign()
    lim = lambda p: (p if kind == 'nan' else hi if kind == 'inf' else lo)
    env.check('abs of it', env.eq(ab.get(i, j), mag))
    if kind != 'nan':
        env.check('sign of it', env.eq(sg.get(i, j), 1 if kind == 'inf' else -1))
    env.check('clip of it', env.eq(cb.get(i, j), lim(x)), env.eq(cl.get(i, j), lo if kind == '-inf' else x), env.eq(cu.get(i, j), hi if kind == 'inf' else x))
    for p in range(r):
        for q in range(c):
            if (p, q) != (i, j):
                v = a[p][q]
                env.check('others: abs', env.true((ab.get(p, q) == v) | (ab.get(p, q) == -v)), env.true(ab.get(p, q) >= 0))
                for n, m, l, h in (('lower', cl, lo, None), ('upper', cu, None, hi), ('both', cb, lo, hi)):
                    y = m.get(p, q)
                    ok = (y == v)
                    if l is not None:
                        ok = (ok & (v >= l)) | ((y == l) & (v < l)) if h is None else (ok & (v >= l) & (v <= h)) | ((y == l) & (v < l)) | ((y == h) & (v > h))
                    else:
                        ok = (ok & (v <= h)) | ((y == h) & (v > h))
                    env.check('others: clip ' + n, env.true(ok))
    if kind == 'inf':
        env.check('max', env.eq(ma.max(), x))
    env.check('unchanged', env.eq(ma, a))


BIG = [(67, 64), (3, 1400), (2200, 2)]


def scenarios(tier):
    S = Suite()
    T = tier == 'thorough'
    for k in SPECIAL:
        for r, c in [(1, 1), (2, 2)] + ([(1, 2), (2, 1), (2, 3)] if T else []):
            S.add('%s in %dx%d' % (k, r, c), special, r=r, c=c, kind=k)
        for r, c in [(1, 1), (1, 2), (2, 1)] + ([(2, 2)] if T else []):
            S.add('order with %s in %dx%d' % (k, r, c), special_order, r=r, c=c, kind=k)
    mined = mined_shapes(['core/matrix', 'core/_'])
    for r, c in SHAPES + WIDE + mined:
        n = '%dx%d' % (r, c)
        S.add('elementwise ' + n, elementwise, r=r, c=c)
        S.add('reductions ' + n, reductions, r=r, c=c)
        S.add('vectors ' + n, vectors, r=r, c=c)
        S.add('norms ' + n, norms, r=r, c=c)
    for r, c in BIG:
        n = 'of a large %dx%d' % (r, c)
        S.add('elementwise ' + n, elementwise, r=r, c=c, weight=3)
        S.add('norms ' + n, norms, r=r, c=c, weight=3)
    S.add('reductions of a large 67x64', reductions, r=67, c=64, weight=5)
    S.add('vectors of a large 67x64', vectors, r=67, c=64, weight=9)
    for r, c in SHAPES + mined:
        n = '%dx%d' % (r, c)
        S.add('division ' + n, division, r=r, c=c)
        S.add('nonlinear ' + n, nonlinear, r=r, c=c)
        S.add('spreads ' + n, spreads, r=r, c=c)
    for r, c in SHAPES:
        S.add('integer scalars %dx%d' % (r, c), int_scalars, r=r, c=c)
        S.add('normalized %dx%d' % (r, c), normalized, r=r, c=c)
    S.add('division by zero', div_zero)
    for n, k, m in [(1, 1, 1), (1, 3, 1), (3, 1, 3), (2, 3, 2), (2, 2, 3), (3, 3, 3), (2, 15, 1), (15, 2, 3), (1, 2, 30)] + ([(4, 5, 4)] if T else []):
        S.add('product %dx%dx%d' % (n, k, m), product, n=n, k=k, m=m)
    for n in (1, 2, 3, 5, 30):
        S.add('dot %d' % n, dot, n=n)
    shp = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)] + ([(3, 3), (1, 4), (4, 1)] if T else [])
    for a in shp:
        for b in shp:
            S.add('shapes %dx%d/%dx%d' % (a + b), rejects, r=a[0], c=a[1], r2=b[0], c2=b[1])
    for r, c in [(1, 1), (1, 3), (2, 2), (3, 1), (1, 4)] + ([(2, 3)] if T else []):
        n = '%dx%d' % (r, c)
        S.add('norm1 ' + n, norm1, r=r, c=c)
        S.add('max ' + n, order, r=r, c=c)
        S.add('median ' + n, median, r=r, c=c)
        S.add('signs ' + n, signs, r=r, c=c)
    S.add('median 1x5', median, r=1, c=5, weight=5)
    for r, c in [(1, 1), (1, 2), (2, 1), (2, 2)]:
        S.add('clip %dx%d' % (r, c), clipping, r=r, c=c)
    S.add('one sided clip', one_sided)
    return S
