"""Results never share storage with their operands; operations leave operands alone."""
from .util import *

BOUNDS = 'all real entries; shapes up to 3x3, wide/tall shapes up to 19; every value-returning matrix and helper operation'


def ops(env, r, c):
    """name -> function(matrix) giving a Matrix (all value-returning operations)."""
    H, F = env.lib(HELPER), env.lib(FACTORY)
    b = env.M(grid(env, 'b', r, c, lo=1, hi=3))
    k = env.M(grid(env, 'k', c, 2, lo=1, hi=3))
    rv = env.M([env.vec('rv', c, lo=1, hi=3)])
    cv = env.M([[x] for x in env.vec('cv', r, lo=1, hi=3)])
    s = env.real('s', lo=1, hi=3)
    d = {
        'copy': lambda m: m.copy(), 'transpose': lambda m: m.transpose(), 't': lambda m: m.t(),
        'sub matrix range': lambda m: m.get_sub_matrix((0, r), (0, c)),
        'sub matrix list': lambda m: m.get_sub_matrix(list(range(r)), list(range(c))),
        'rows range': lambda m: m.get_rows((0, r)), 'rows list': lambda m: m.get_rows([0]),
        'columns range': lambda m: m.get_columns((0, c)), 'columns list': lambda m: m.get_columns([c - 1]),
        'row': lambda m: m.get_row(0), 'column': lambda m: m.get_column(c - 1),
        'head': lambda m: m.head(r), 'diag': lambda m: m.diag(),
        'add': lambda m: m.add(b), 'add scalar': lambda m: m.add(s), 'sub': lambda m: m.sub(b), 'sub scalar': lambda m: m.sub(s),
        'add zero': lambda m: m.add(0), 'mul one': lambda m: m.mul(1), 'div one': lambda m: m.div(1), 'sub zero': lambda m: m.sub(0),
        'mul': lambda m: m.mul(k), 'mul scalar': lambda m: m.mul(s), 'div': lambda m: m.div(s),
        'mul elementwise': lambda m: m.mul_elementwise(b), 'div elementwise': lambda m: m.div_elementwise(b),
        'power': lambda m: m.pow_elementwise(2), 'power one': lambda m: m.pow_elementwise(1),
        'add row vector': lambda m: m.add_by_vector(rv), 'sub row vector': lambda m: m.sub_by_vector(rv),
        'mul row vector': lambda m: m.mul_by_vector(rv),
        'scale columns': lambda m: m.scale_by_row_vector(rv.transpose()), 'scale rows': lambda m: m.scale_by_column_vector(cv),
        'sum 0': lambda m: m.sum(0), 'sum 1': lambda m: m.sum(1), 'sum -1': lambda m: m.sum(-1),
        'mean 0': lambda m: m.mean(0), 'mean 1': lambda m: m.mean(1), 'mean -1': lambda m: m.mean(-1),
        'apply': lambda m: m.apply_elementwise(lambda x: x),
        'concat rows': lambda m: m.concat_along_rows(b), 'concat columns': lambda m: m.concat_along_columns(b),
        'multi concat': lambda m: H.multi_concat(0, m), 'multi concat 1': lambda m: H.multi_concat(1, m),
        'delete none': lambda m: H.delete_cols(m, []), 'row as vector': lambda m: H.row_as_vector(m, 0),
        'column as vector': lambda m: H.column_as_vector(m, 0), 'column means': lambda m: H.column_means(m), 'row means': lambda m: H.row_means(m),
        'create': lambda m: F.create(m.data), 'from raw': lambda m: F.from_raw(m.data), 'zeros like': lambda m: F.zeros_like(m),
        'eye like': lambda m: F.eye_like(m),
    }
    if not (c == 1 and r != 1):
        pass
    else:
        for n in ('add row vector', 'sub row vector', 'mul row vector'):
            d.pop(n)
    if r == 1 or c == 1:
        d['vector to diagonal'] = lambda m: m.vector_to_diagonal()
    if c == 1:
        d['factory diag'] = lambda m: F.diag(m)
    return d, [b, k, rv, cv]


NAMES = None


def overwrite(m, v):
    for i in range(m.num_rows()):
        for j in range(m.num_columns()):
            m.set(i, j, v)


def independent(env, r, c):
    g = grid(env, 'a', r, c)
    v = env.real('v')
    d, args = ops(env, r, c)
    before = [data_of(x) for x in args]
    for name, f in d.items():
        m = env.M(g)
        res = f(m)
        env.check(name + ': operand unchanged', env.eq(m, g))
        want = data_of(res)
        shape_ok = env.lit(isinstance(res, env.Matrix()))
        env.check(name + ': is a matrix', shape_ok)
        if res is m:
            env.check(name + ': new object', env.lit(False, 'returned its operand'))
        overwrite(m, v)
        env.check(name + ': result independent of operand', env.eq(res, want))
        m2 = env.M(g)
        res2 = f(m2)
        overwrite(res2, v)
        env.check(name + ': operand independent of result', env.eq(m2, g))
    for x, w in zip(args, before):
        env.check('other operands unchanged', env.eq(x, w))


def positive_ops(env, r, c):
    g = grid(env, 'a', r, c, lo=1, hi=4)
    v = env.real('v')
    fs = {'sqrt': lambda m: m.sqrt(), 'exp': lambda m: m.exp(), 'tanh': lambda m: m.tanh(), 'abs': lambda m: m.abs(),
          'sign': lambda m: m.sign(), 'clip wide': lambda m: m.clip(-100, 100), 'clip lower': lambda m: m.clip_lower(-100),
          'clip upper': lambda m: m.clip_upper(100), 'normalized': lambda m: m.normalized()}
    if r > 1:
        fs['column stdevs'] = lambda m: env.lib(HELPER).column_stdevs(m)
    for name, f in fs.items():
        m = env.M(g)
        res = f(m)
        env.check(name + ': operand unchanged', env.eq(m, g))
        want = data_of(res)
        overwrite(m, v)
        env.check(name + ': result independent of operand', env.eq(res, want))
        m2 = env.M(g)
        overwrite(f(m2), v)
        env.check(name + ': operand independent of result', env.eq(m2, g))


def square_ops(env, n):
    """Decompositions and inverses of a symmetric matrix."""
    g = grid(env, 'a', n, n)
    for i in range(n):
        for j in range(i):
            g[i][j] = g[j][i]
    if n == 2:
        env.assume(g[0][0] * g[1][1] - g[0][1] * g[1][0] > env.const('1/10'))
    else:
        env.assume(g[0][0] > env.const('1/10'))
    v = env.real('v')
    fs = {'eigenvectors': lambda m: m.get_eigenvectors(), 'eigenvalues': lambda m: m.get_eigenvalues(),
          'eigenvectors sorted': lambda m: m.get_eigenvectors(True), 'eigenvalues ascending': lambda m: m.get_eigenvalues_sorted_ascending(),
          'eigenvalues descending': lambda m: m.get_eigenvalues_sorted_descending(),
          'D': lambda m: m.get_eigenvalue_decomposition_D(), 'V': lambda m: m.get_eigenvalue_decomposition_V(),
          'dominant': lambda m: m.get_dominant_eigenvector(),
          'svd U': lambda m: m.svd_U(), 'svd V': lambda m: m.svd_V(), 'svd S': lambda m: m.svd_S(),
          'singular values': lambda m: m.get_singular_values(), 'inverse': lambda m: m.inverse(), 'pseudo inverse': lambda m: m.pseudo_inverse()}
    for name, f in fs.items():
        m = env.M(g)
        res = f(m)
        env.check(name + ': operand unchanged', env.eq(m, g))
        want = data_of(res)
        res.data[...] = v
        env.check(name + ': operand independent of result', env.eq(m, g))
        env.check(name + ': repeated call unaffected', env.eq(f(m), want))


def two_args(env, n):
    """solve and factories taking lists leave their arguments alone."""
    H, F = env.lib(HELPER), env.lib(FACTORY)
    a, b = grid(env, 'a', n, n), grid(env, 'b', n, 1)
    det = a[0][0] if n == 1 else a[0][0] * a[1][1] - a[0][1] * a[1][0]
    env.assume((det > env.const('1/10')))
    ma, mb = env.M(a), env.M(b)
    x = H.solve(ma, mb)
    env.check('solve operands', env.eq(ma, a), env.eq(mb, b))
    overwrite(x, env.real('v'))
    env.check('solve independent', env.eq(ma, a), env.eq(mb, b))
    raw = copyg(a)
    m = F.create(raw)
    overwrite(m, env.real('v'))
    env.check('create independent of list', env.eq(raw, a))
    raw = list(a[0])
    m = F.from_row(raw)
    m2 = F.from_column(raw)
    overwrite(m, env.real('v'))
    overwrite(m2, env.real('v'))
    env.check('vector factories independent of list', env.eq(raw, a[0]))
    m = env.M(a)
    raw = m.to_raw_copy_2D()
    raw[0][0] = env.real('v')
    raw1 = m.to_raw_copy_1D()
    raw1[0] = env.real('v')
    env.check('raw copies independent', env.eq(m, a))


def store_row(env, r, c):
    """Rows and columns written into a matrix are copied in."""
    g = grid(env, 'a', r, c)
    row, col = grid(env, 'row', 1, c), grid(env, 'col', r, 1)
    v = env.real('v')
    for rm in (env.M(row), env.M(tr(row))):
        m = env.M(g)
        m.set_row(0, rm)
        want = data_of(m)
        overwrite(rm, v)
        env.check('row copied in', env.eq(m, want))
    for cm in (env.M(col), env.M(tr(col))):
        m = env.M(g)
        m.set_column(0, cm)
        want = data_of(m)
        overwrite(cm, v)
        env.check('column copied in', env.eq(m, want))


def scenarios(tier):
    S = Suite()
    shp = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (2, 19), (19, 2)] + mined_shapes(['core/matrix'])
    for r, c in shp + ([(3, 3), (5, 5)] if tier == 'thorough' else []):
        S.add('independent %dx%d' % (r, c), independent, r=r, c=c)
        S.add('store %dx%d' % (r, c), store_row, r=r, c=c)
    for r, c in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)]:
        S.add('nonlinear %dx%d' % (r, c), positive_ops, r=r, c=c)
    for n in (1, 2):
        S.add('square %d' % n, square_ops, n=n)
        S.add('solve %d' % n, two_args, n=n)
    return S
