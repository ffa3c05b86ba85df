"""Element access, selection, assembly and construction of matrices."""
from .util import *

BOUNDS = ('all real entries (also NaN/inf where stated); shapes 1x1..3x3 plus wide/tall shapes up to 40; every in-range '
          'index, index list of length <=3 (repeats allowed) and half-open range; scrambled, descending and repeated index lists of up to 18 entries with one arbitrary index')


def access(env, r, c):
    g = grid(env, 'a', r, c)
    m = env.M(g)
    env.check('dimensions', env.lit(m.num_rows() == r and m.num_columns() == c and m.num_elements() == r * c))
    env.check('shape string', env.lit(m.shape_string() == '[%d x %d]' % (r, c)))
    env.check('vector predicates', env.lit(
        bool(m.is_vector()) == (r == 1 or c == 1) and bool(m.is_row_vector()) == (r == 1)
        and bool(m.is_column_vector()) == (c == 1) and bool(m.is_square()) == (r == c)))
    env.check('element access', env.eq([[m.get(i, j) for j in range(c)] for i in range(r)], g))
    env.check('raw copies', env.eq(m.to_raw_copy_2D(), g),
              env.eq(m.to_raw_copy_1D(), [g[i][j] for j in range(c) for i in range(r)]))
    env.check('rows and columns', *[env.eq(m.get_row(i), [g[i]]) for i in range(r)],
              *[env.eq(m.get_column(j), [[g[i][j]] for i in range(r)]) for j in range(c)])
    env.check('transpose', env.eq(m.transpose(), tr(g)), env.eq(m.t(), tr(g)),
              env.eq(m.transpose().transpose(), g))
    env.check('diagonal', env.eq(m.diag(), [[g[i][i]] for i in range(min(r, c))]))
    env.check('trace', env.eq(m.trace(), vsum([g[i][i] for i in range(min(r, c))])))
    for n in range(1, r + 2):
        env.check('head', env.eq(m.head(n), g[:n]))
    env.check('copy', env.eq(m.copy(), g))
    if r == 1 and c == 1:
        env.check('scalar view', env.eq(m.as_real(), g[0][0]))
    else:
        raises(env, 'scalar view rejected', m.as_real)
    if r == 1 or c == 1:
        fl = flat(g)
        env.check('vector access', *[env.eq(m.get_from_vector(k), fl[k]) for k in range(r * c)])
        env.check('vector to diagonal', env.eq(m.vector_to_diagonal(), [[fl[i] if i == j else 0 for j in range(r * c)] for i in range(r * c)]))
    else:
        raises(env, 'vector access rejected', m.get_from_vector, 0)
        raises(env, 'vector to diagonal rejected', m.vector_to_diagonal)
    env.check('receiver unchanged', env.eq(m, g))


def default_head(env, r, c):
    g = grid(env, 'a', r, c)
    env.check('head default', env.eq(env.M(g).head(), g[:5]))


def select(env, r, c, nr, nc):
    g = grid(env, 'a', r, c)
    m = env.M(g)
    rows = [idx(env, 'r%d' % k, 0, r - 1) for k in range(nr)]
    cols = [idx(env, 'c%d' % k, 0, c - 1) for k in range(nc)]
    env.check('sub-matrix by lists', env.eq(m.get_sub_matrix(list(rows), list(cols)), [[g[i][j] for j in cols] for i in rows]))
    env.check('rows by list', env.eq(m.get_rows(list(rows)), [g[i] for i in rows]))
    env.check('columns by list', env.eq(m.get_columns(list(cols)), [[g[i][j] for j in cols] for i in range(r)]))


def select_long(env, r, c, n, along):
    """Long index lists in any order with repeats: fixed scrambled lists with one arbitrary index."""
    g = grid(env, 'a', r, c)
    m = env.M(g)
    hi = (r if along == 'rows' else c) - 1
    step = next(s for s in (5, 3, 7, 2, 1) if (hi + 1) % s) if hi else 1
    perm = [(i * step + 2) % (hi + 1) for i in range(n)]
    k = idx(env, 'k', 0, hi)
    down = list(range(hi, -1, -1))[:n]
    for lst in (perm[:n // 2] + [k] + perm[n // 2 + 1:], down[:-1] + [k], [k] * n):
        if along == 'rows':
            env.check('rows by list', env.eq(m.get_rows(list(lst)), [g[i] for i in lst]))
            env.check('sub-matrix rows', env.eq(m.get_sub_matrix(list(lst), [c - 1]), [[g[i][c - 1]] for i in lst]))
            env.check('sub-matrix rows and range', env.eq(m.get_sub_matrix(list(lst), (0, c)), [g[i] for i in lst]))
        else:
            env.check('columns by list', env.eq(m.get_columns(list(lst)), [[row[j] for j in lst] for row in g]))
            env.check('sub-matrix columns', env.eq(m.get_sub_matrix([r - 1], list(lst)), [[g[r - 1][j] for j in lst]]))
            env.check('sub-matrix columns and range', env.eq(m.get_sub_matrix((0, r), list(lst)), [[row[j] for j in lst] for row in g]))
    env.check('unchanged', env.eq(m, g))


def ranges(env, r, c):
    g = grid(env, 'a', r, c)
    m = env.M(g)
    a = idx(env, 'a', 0, r - 1)
    b = idx(env, 'b', a + 1, r)
    p = idx(env, 'p', 0, c - 1)
    q = idx(env, 'q', p + 1, c)
    exp = [row[p:q] for row in g[a:b]]
    env.check('sub-matrix by ranges', env.eq(m.get_sub_matrix((a, b), (p, q)), exp))
    env.check('mixed selection', env.eq(m.get_sub_matrix(list(range(a, b)), (p, q)), exp))
    env.check('rows by range', env.eq(m.get_rows((a, b)), g[a:b]))
    env.check('columns by range', env.eq(m.get_columns((p, q)), [row[p:q] for row in g]))


def modify(env, r, c):
    g = grid(env, 'a', r, c)
    m = env.M(g)
    i = idx(env, 'i', 0, r - 1)
    j = idx(env, 'j', 0, c - 1)
    v = env.real('v')
    m.set(i, j, v)
    g[i][j] = v
    env.check('set', env.eq(m, g))
    k = idx(env, 'k', 0, r - 1)
    row = grid(env, 'row', 1, c)
    m.set_row(k, env.M(row))
    g[k] = list(row[0])
    env.check('set row', env.eq(m, g))
    k2 = idx(env, 'k2', 0, c - 1)
    col = grid(env, 'col', r, 1)
    m.set_column(k2, env.M(col))
    for x in range(r):
        g[x][k2] = col[x][0]
    env.check('set column', env.eq(m, g))
    env.check('arguments unchanged', env.eq(env.M(row), row))


def modify_turned(env, r, c):
    """Vectors are accepted in either orientation."""
    g = grid(env, 'a', r, c)
    m = env.M(g)
    row = grid(env, 'row', c, 1)
    rm = env.M(row)
    m.set_row(r - 1, rm)
    g[r - 1] = [x[0] for x in row]
    env.check('set row from column vector', env.eq(m, g), env.eq(rm, row))
    col = grid(env, 'col', 1, r)
    cm = env.M(col)
    m.set_column(c - 1, cm)
    for x in range(r):
        g[x][c - 1] = col[0][x]
    env.check('set column from row vector', env.eq(m, g), env.eq(cm, col))


def modify_partial(env, r, c, n):
    """A replacement of another length overwrites the common prefix only."""
    g = grid(env, 'a', r, c)
    m = env.M(g)
    row = grid(env, 'row', 1, n)
    m.set_row(0, env.M(row))
    for j in range(min(n, c)):
        g[0][j] = row[0][j]
    env.check('partial row', env.eq(m, g))
    col = grid(env, 'col', n, 1)
    m.set_column(0, env.M(col))
    for i in range(min(n, r)):
        g[i][0] = col[i][0]
    env.check('partial column', env.eq(m, g))
    raises(env, 'non-vector row rejected', m.set_row, 0, env.M(grid(env, 'z', 2, 2)))
    raises(env, 'non-vector column rejected', m.set_column, 0, env.M(grid(env, 'z', 2, 2)))
    env.check('unchanged after rejection', env.eq(m, g))


def assemble(env, r, c, r2, c2):
    H = env.lib(HELPER)
    a, b, d = grid(env, 'a', r, c), grid(env, 'b', r2, c), grid(env, 'd', r, c2)
    ma, mb, md = env.M(a), env.M(b), env.M(d)
    env.check('concat rows', env.eq(ma.concat_along_rows(mb), a + b), env.eq(ma.concat(mb, 0), a + b))
    env.check('concat columns', env.eq(ma.concat_along_columns(md), [x + y for x, y in zip(a, d)]),
              env.eq(ma.concat(md, 1), [x + y for x, y in zip(a, d)]))
    env.check('multi concat', env.eq(H.multi_concat(0, ma, mb, ma), a + b + a),
              env.eq(H.multi_concat(1, ma, md, ma), [x + y + x for x, y in zip(a, d)]))
    if c != c2:
        raises(env, 'concat rows shape rejected', ma.concat_along_rows, env.M(grid(env, 'e', r2, c2)))
    if r != r2:
        raises(env, 'concat columns shape rejected', ma.concat_along_columns, env.M(grid(env, 'e', r2, c2)))
    env.check('operands unchanged', env.eq(ma, a), env.eq(mb, b), env.eq(md, d))


def deletion(env, r, c, n):
    H = env.lib(HELPER)
    g = grid(env, 'a', r, c)
    m = env.M(g)
    ks = [idx(env, 'k%d' % k, 0, c - 1) for k in range(n)]
    keep = [j for j in range(c) if j not in ks]
    if keep:
        env.check('delete columns', env.eq(H.delete_cols(m, list(ks)), [[row[j] for j in keep] for row in g]))
    if c > 1:
        env.check('delete column', env.eq(H.delete_col(m, ks[0]), [[row[j] for j in range(c) if j != ks[0]] for row in g]))
    env.check('helper rows and columns', env.eq(H.row_as_vector(m, 0), [g[0]]),
              env.eq(H.column_as_vector(m, ks[0]), [[row[ks[0]]] for row in g]))
    env.check('dim', env.lit(H.dim(m) == '%d x %d' % (r, c)))
    env.check('receiver unchanged', env.eq(m, g))


def factories(env, r, c):
    F = env.lib(FACTORY)
    g = grid(env, 'a', r, c)
    v = env.real('v')
    m = env.M(g)
    env.check('create', env.eq(F.create(copyg(g)), g), env.eq(F.from_raw(copyg(g)), g), env.eq(F.create(env.arr(g)), g))
    env.check('eye', env.eq(F.eye(r, c), ident(r, c)), env.eq(F.eye(r), ident(r)), env.eq(F.eye_like(m), ident(r, c)))
    z = [[0] * c for _ in range(r)]
    env.check('zeros', env.eq(F.zeros(r, c), z), env.eq(F.zeros_like(m), z), env.eq(F.zeros(r), [[0] * r for _ in range(r)]))
    f = [[v] * c for _ in range(r)]
    env.check('filled', env.eq(F.filled(r, c, v), f), env.eq(F.filled_like(m, v), f))
    env.check('from row', env.eq(F.from_row(list(g[0])), [g[0]]))
    env.check('from column', env.eq(F.from_column([row[0] for row in g]), [[row[0]] for row in g]))
    env.check('diag', env.eq(F.diag(env.M([[row[0]] for row in g])), [[g[i][0] if i == j else 0 for j in range(r)] for i in range(r)]))
    env.check('spectrum', env.eq(F.create_spectrum([row[0] for row in g], [row[-1] for row in g]), [[row[0], row[-1]] for row in g]))
    raises(env, 'spectrum length mismatch rejected', F.create_spectrum, [v], [v, v])
    env.check('like source unchanged', env.eq(m, g))


def frange(env, r, c):
    F = env.lib(FACTORY)
    s = idx(env, 's', -3, 4)
    env.check('range', env.eq(F.range(r, c, s), [[s + i * c + j for j in range(c)] for i in range(r)]))


def ctor(env, n):
    """One-dimensional data becomes a row; more than two dimensions are rejected."""
    M = env.Matrix()
    v = env.vec('v', n)
    env.check('one-dimensional', env.eq(M(env.arr(v)), [v]))
    raises(env, 'three-dimensional rejected', M, env.arr([[v]]))


def search(env, r, c):
    """any / all / which / where_vector agree with an element-by-element test."""
    g = grid(env, 'a', r, c)
    t = env.real('t')
    m = env.M(g)
    test = lambda x: x > t
    want = [(i, j) for i in range(r) for j in range(c) if env.decide(g[i][j] > t)]
    env.check('which', env.lit([tuple(int(y) for y in x) for x in m.which(test)] == want))
    env.check('any', env.lit(bool(m.any(test)) == bool(want)))
    env.check('all', env.lit(bool(m.all(test)) == (len(want) == r * c)))
    if r == 1 or c == 1:
        env.check('where vector', env.lit([int(x) for x in m.where_vector(test)] == [max(i, j) for i, j in want]))
    else:
        raises(env, 'where on non-vector rejected', m.where_vector, test)


def scenarios(tier):
    S = Suite()
    for r, c in SHAPES + WIDE + mined_shapes(["core/matrix", "core/_"]) + ([(4, 4), (5, 3), (3, 6)] if tier == 'thorough' else []):
        S.add('access %dx%d' % (r, c), access, r=r, c=c)
    for r, c in [(4, 2), (5, 1), (6, 2), (7, 3), (40, 2)]:
        S.add('default head %dx%d' % (r, c), default_head, r=r, c=c)
    for r, c, nr, nc in [(2, 3, 1, 2), (3, 2, 2, 1), (3, 3, 2, 2), (1, 3, 1, 3), (3, 1, 3, 1)] + ([(3, 4, 3, 2), (4, 3, 2, 3)] if tier == 'thorough' else []):
        S.add('select %dx%d %d %d' % (r, c, nr, nc), select, r=r, c=c, nr=nr, nc=nc, weight=3)
    for r, c, n in [(2, 6, 5), (2, 9, 7), (1, 13, 13), (2, 5, 8), (2, 20, 18)]:
        S.add('select columns %dx%d %d' % (r, c, n), select_long, r=r, c=c, n=n, along='columns')
        S.add('select rows %dx%d %d' % (c, r, n), select_long, r=c, c=r, n=n, along='rows')
    for r, c in [(1, 1), (2, 3), (3, 2), (3, 3), (2, 7), (7, 2)] + ([(5, 5)] if tier == 'thorough' else []):
        S.add('ranges %dx%d' % (r, c), ranges, r=r, c=c)
    for r, c in [(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)]:
        S.add('modify %dx%d' % (r, c), modify, r=r, c=c, weight=2)
        S.add('modify turned %dx%d' % (r, c), modify_turned, r=r, c=c)
        for n in (1, 2, 4):
            S.add('modify partial %dx%d %d' % (r, c, n), modify_partial, r=r, c=c, n=n)
    for r, c, r2, c2 in [(1, 1, 1, 1), (2, 2, 1, 3), (2, 3, 2, 1), (3, 2, 1, 2), (1, 3, 2, 2), (3, 1, 1, 3), (20, 2, 3, 1), (2, 20, 1, 3)]:
        S.add('assemble %dx%d+%d/%d' % (r, c, r2, c2), assemble, r=r, c=c, r2=r2, c2=c2)
    for r, c, n in [(1, 1, 1), (2, 3, 1), (2, 3, 2), (1, 4, 2), (3, 2, 1)] + ([(2, 5, 3)] if tier == 'thorough' else []):
        S.add('delete %dx%d %d' % (r, c, n), deletion, r=r, c=c, n=n)
    for r, c in SHAPES + WIDE[:4] + mined_shapes(["core/matrix", "core/_"]):
        S.add('factories %dx%d' % (r, c), factories, r=r, c=c)
    for r, c in [(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4)]:
        S.add('range %dx%d' % (r, c), frange, r=r, c=c)
    for n in (1, 2, 3, 9):
        S.add('constructor %d' % n, ctor, n=n)
    for r, c in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3)]:
        S.add('search %dx%d' % (r, c), search, r=r, c=c)
    return S
