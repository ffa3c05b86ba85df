"""Decompositions, inverses and linear solves satisfy their defining equations."""
from .util import *

BOUNDS = ('all real symmetric and clearly unsymmetric square matrices 1x1-3x3 (real spectrum; for the sorted 3x3 forms with distinct eigenvalues) for eigen decompositions, fixed matrices scaled by 2^-60, 2^-30 and 2^40, all real matrices up to 3x3 and 2x4/4x2 for '
          'SVD, all nonsingular 1x1-3x3 systems, all full-rank rectangular matrices up to 3x2/2x3')
ASSUMPTIONS = ['LAPACK (eig, svd) meets its documented contract; eigenvalues are real']


def sym_grid(env, name, n):
    g = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            g[i][j] = g[j][i] = env.real('%s_%d_%d' % (name, i, j))
    return g


def src(env, n, kind):
    if kind == 'symmetric':
        return sym_grid(env, 'a', n)
    g = grid(env, 'a', n, n)
    if kind == 'corner':
        g[1][0] = 0
    if n > 1:   # clearly not symmetric for their size: nearly symmetric matrices may be treated as symmetric ones
        d = (g[0][1] - g[1][0]) * 1000
        env.assume(env.ge(d, 1 + g[1][0]))
        env.assume(env.ge(d, 1 - g[1][0]))
    return g


def eigen_small(env, n, e, kind):
    """The scale of the matrix is the scale of its eigenvalues, however small or large."""
    k = env.const(2.0 ** e)
    env.doubles()
    g = [[env.const((i * i * 7 + j * 5 + i * j * 3) % 11 - 5) for j in range(n)] for i in range(n)]
    if kind == 'triangular':
        g = [[g[i][j] if i < j else (env.const(i + 1) if i == j else env.const(0)) for j in range(n)] for i in range(n)]
    else:
        g = [[env.const(i + j + 1.0) if i != j else env.const(3.0 * i + 2) for j in range(n)] for i in range(n)]
    m = env.M([[x * k for x in r] for r in g])
    for what, f in (('as computed', lambda m: (m.get_eigenvalues(), m.get_eigenvectors())),
                    ('decomposition', lambda m: (m.get_eigenvalues(), m.get_eigenvalue_decomposition_V())),
                    ('ascending', lambda m: (m.get_eigenvalues_sorted_ascending(), m.get_eigenvectors_sorted_ascending())),
                    ('dominance', lambda m: (m.get_eigenvalues_sorted_descending(), m.get_eigenvectors(True)))):
        w, v = f(m)
        wl, vl = [r[0] / k for r in data_of(w)], data_of(v)
        env.check('A v = w v ' + what, env.eq(matmul(g, vl), [[vl[i][j] * wl[j] for j in range(n)] for i in range(n)]))
        env.check('no zero eigenvectors ' + what, *[env.gt(vsum([vl[i][j] * vl[i][j] for i in range(n)]), 0.5) for j in range(n)])
        env.check('trace ' + what, env.eq(vsum(wl), vsum([g[i][i] for i in range(n)])))
        if what in ('ascending', 'dominance'):
            for i in range(1, n):
                env.check('ordered ' + what, env.le(wl[i - 1], wl[i]) if what == 'ascending' else env.ge(wl[i - 1], wl[i]))
    sv, u, vh = m.get_singular_values(), data_of(m.svd_U()), data_of(m.svd_V())
    sv = [x[0] / k for x in data_of(sv)]
    env.check('U S V = A', env.eq(matmul([[u[i][j] * sv[j] for j in range(n)] for i in range(n)], vh), g))
    b = [[env.const(i - j + 0.5) for j in range(2)] for i in range(n)]
    for what, x in (('inverse', m.inverse()), ('pseudo inverse', m.pseudo_inverse())):
        env.check(what, env.shape(x, n, n), env.eq(matmul(g, [[y * k for y in r] for r in data_of(x)]), ident(n)))
    x = env.lib(HELPER).solve(m, env.M(b))
    env.check('solve', env.shape(x, n, 2), env.eq(matmul(g, [[y * k for y in r] for r in data_of(x)]), b))


def eigen(env, n, kind):
    g = src(env, n, kind)
    m = env.M(g)
    w, v = m.get_eigenvalues(), m.get_eigenvectors()
    env.check('shapes', env.shape(w, n, 1), env.shape(v, n, n))
    wl, vl = [r[0] for r in data_of(w)], data_of(v)
    env.check('A v = w v', env.eq(matmul(g, vl), [[vl[i][j] * wl[j] for j in range(n)] for i in range(n)]))
    d, v2 = data_of(m.get_eigenvalue_decomposition_D()), data_of(m.get_eigenvalue_decomposition_V())
    env.check('D holds the eigenvalues', env.eq(d, [[wl[i] if i == j else 0 for j in range(n)] for i in range(n)]))
    env.check('V holds the eigenvectors', env.eq(v2, vl))
    if kind == 'symmetric':
        env.check('unit eigenvectors', *[env.eq(vsum([vl[i][j] * vl[i][j] for i in range(n)]), 1) for j in range(n)])
    env.check('matrix unchanged', env.eq(m, g))


def eigen_sorted(env, n, kind, which):
    g = src(env, n, kind)
    m = env.M(g)
    if n > 2:
        w0 = [r[0] for r in data_of(env.M(g).get_eigenvalues())]
        for i in range(n):
            for j in range(i):
                env.assume(env.ne(w0[i], w0[j]))
    if which == 'ascending':
        w, v = m.get_eigenvalues_sorted_ascending(), m.get_eigenvectors_sorted_ascending()
    else:
        w = m.get_eigenvalues_sorted_descending()
        v = m.get_eigenvectors(True) if which == 'dominance' else m.get_eigenvectors_sorted_descending()
    env.check('shapes', env.shape(w, n, 1), env.shape(v, n, n))
    wl, vl = [r[0] for r in data_of(w)], data_of(v)
    for i in range(1, n):
        env.check('ordered', env.le(wl[i - 1], wl[i]) if which == 'ascending' else env.ge(wl[i - 1], wl[i]))
    env.check('eigenvectors in the order of the eigenvalues', env.eq(matmul(g, vl), [[vl[i][j] * wl[j] for j in range(n)] for i in range(n)]))
    if kind == 'symmetric':
        env.check('unit eigenvectors', *[env.eq(vsum([vl[i][j] * vl[i][j] for i in range(n)]), 1) for j in range(n)])
    raw = [r[0] for r in data_of(m.get_eigenvalues())]
    env.check('same eigenvalues', env.eq(vsum(wl), vsum(raw)), env.eq(vsum([x * x for x in wl]), vsum([x * x for x in raw])))
    if which != 'ascending':
        dom = m.get_dominant_eigenvector()
        env.check('dominant eigenvector', env.shape(dom, n, 1), env.eq(dom, [[vl[i][0]] for i in range(n)]))


def diag_eigen(env, n):
    """Diagonal matrices: the spectrum is the diagonal, sorted by value and not by magnitude."""
    d = env.vec('d', n)
    for i in range(n):
        for j in range(i):
            env.assume(d[i] != d[j])
    m = env.M([[d[i] if i == j else 0 for j in range(n)] for i in range(n)])
    w = [r[0] for r in data_of(m.get_eigenvalues_sorted_descending())]
    up = [r[0] for r in data_of(m.get_eigenvalues_sorted_ascending())]
    env.check('ordered', *[env.gt(w[i - 1], w[i]) for i in range(1, n)])
    env.check('ascending is the reverse', env.eq(up, w[::-1]))
    for x in d:
        env.check('every eigenvalue present', env.eq(vprod([x - y for y in w]), 0))
    v = data_of(m.get_dominant_eigenvector())
    env.check('dominant', *[env.eq(v[i][0] * (d[i] - w[0]), 0) for i in range(n)])


def vprod(v):
    p = v[0]
    for x in v[1:]:
        p = p * x
    return p


def svd(env, r, c):
    g = grid(env, 'a', r, c)
    m = env.M(g)
    k = min(r, c)
    u, s, vh, sv = m.svd_U(), m.svd_S(), m.svd_V(), m.get_singular_values()
    env.check('shapes', env.shape(u, r, k), env.shape(s, k, k), env.shape(vh, k, c), env.shape(sv, k, 1))
    ul, sl, vl = data_of(u), data_of(s), data_of(vh)
    sv = [x[0] for x in data_of(sv)]
    env.check('S is the diagonal of the singular values', env.eq(sl, [[sv[i] if i == j else 0 for j in range(k)] for i in range(k)]))
    env.check('U S V = A', env.eq(matmul([[ul[i][j] * sv[j] for j in range(k)] for i in range(r)], vl), g))
    env.check('orthonormal U', env.eq(matmul(tr(ul), ul), ident(k)))
    env.check('orthonormal V', env.eq(matmul(vl, tr(vl)), ident(k)))
    env.check('nonnegative', *[env.ge(x, 0) for x in sv])
    env.check('descending', *[env.ge(sv[i - 1], sv[i]) for i in range(1, k)])
    env.check('matrix unchanged', env.eq(m, g))


def inverse(env, n):
    g = grid(env, 'a', n, n)
    H = env.lib(HELPER)
    m = env.M(g)
    for f in (lambda: m.inverse(), lambda: H.inverse(m)):
        ok, x = env.attempt(f)
        if ok:
            env.check('shape', env.shape(x, n, n))
            xl = data_of(x)
            env.check('A X = I', env.eq(matmul(g, xl), ident(n)))
            env.check('X A = I', env.eq(matmul(xl, g), ident(n)))
        else:
            env.check('only singular matrices are rejected', env.eq(det(g), 0))
    env.check('matrix unchanged', env.eq(m, g))


def det(g):
    if len(g) == 1:
        return g[0][0]
    s = None
    for j in range(len(g)):
        t = g[0][j] * det([r[:j] + r[j + 1:] for r in g[1:]])
        s = t if s is None else (s + t if j % 2 == 0 else s - t)
    return s


def solve(env, n, k):
    H = env.lib(HELPER)
    g, b = grid(env, 'a', n, n), grid(env, 'b', n, k)
    env.assume(det(g) != 0)
    ma, mb = env.M(g), env.M(b)
    x = H.solve(ma, mb)
    env.check('shape', env.shape(x, n, k))
    env.check('A X = B', env.eq(matmul(g, data_of(x)), b))
    env.check('operands unchanged', env.eq(ma, g), env.eq(mb, b))


def solve_rejects(env):
    H = env.lib(HELPER)
    raises(env, 'singular system', H.solve, env.M([[1.0, 2.0], [2.0, 4.0]]), env.M([[env.real('b')], [1.0]]))
    raises(env, 'rectangular system', H.solve, env.M(grid(env, 'a', 2, 3)), env.M(grid(env, 'c', 2, 1)))
    raises(env, 'right-hand side size', H.solve, env.M([[1.0, 0.0], [0.0, 2.0]]), env.M(grid(env, 'c', 3, 1)))
    raises(env, 'singular inverse', lambda: env.M([[1.0, 2.0], [2.0, 4.0]]).inverse())
    raises(env, 'zero inverse', lambda: env.M([[0.0]]).inverse())


def pinv(env, r, c):
    g = grid(env, 'a', r, c)
    m = env.M(g)
    x = m.pseudo_inverse()
    env.check('shape', env.shape(x, c, r))
    xl = data_of(x)
    ax, xa = matmul(g, xl), matmul(xl, g)
    env.check('A X A = A', env.eq(matmul(ax, g), g))
    env.check('X A X = X', env.eq(matmul(xa, xl), xl))
    env.check('symmetric products', env.eq(ax, tr(ax)), env.eq(xa, tr(xa)))


def ill_conditioned(env, n, turned):
    """Small is not zero: matrices far from singular in exact arithmetic although badly scaled."""
    t = env.real('t', 1e-9, 1)
    a, b = 1.0, t
    if n == 3:
        d = [[1.0, 0, 0], [0, t, 0], [0, 0, env.real('u', 1, 1000)]]
    elif turned:
        d = [[1.0, 0], [1.0, t]]
    else:
        d = [[1.0, 0], [0, t]]
    for what, f in (('pseudo inverse', lambda m: m.pseudo_inverse()), ('inverse', lambda m: m.inverse()),
                    ('solve', lambda m: env.lib(HELPER).solve(m, env.M(ident(n))))):
        x = f(env.M(d))
        env.check(what, env.shape(x, n, n), env.eq(matmul(data_of(x), d), ident(n)))


def repeated(env, n, p, shift):
    """Symmetric matrices with repeated eigenvalues (scatter matrices of few rows): orthonormal eigenvectors all the same."""
    t = env.real('t', 0, 3)
    env.doubles()
    x = [[env.const((i * i * 7 + j * j * 5 + i * j * 3) % 11 - 5) for j in range(p)] for i in range(n)]
    g = matmul(tr(x), x)
    for i in range(p):
        g[i][i] = g[i][i] + env.const(shift)
    for what, f in (('as computed', lambda m: (m.get_eigenvalues(), m.get_eigenvectors())),
                    ('decomposition', lambda m: (m.get_eigenvalues(), m.get_eigenvalue_decomposition_V())),
                    ('ascending', lambda m: (m.get_eigenvalues_sorted_ascending(), m.get_eigenvectors_sorted_ascending())),
                    ('dominance', lambda m: (m.get_eigenvalues_sorted_descending(), m.get_eigenvectors(True)))):
        w, v = f(env.M(g))
        wl, vl = [r[0] for r in data_of(w)], data_of(v)
        env.check('orthonormal ' + what, env.eq(matmul(tr(vl), vl), ident(p)))
        env.check('A v = w v ' + what, env.eq(matmul(g, vl), [[vl[i][j] * wl[j] for j in range(p)] for i in range(p)]))
    lam = env.M(g)
    got = data_of(lam.mul(env.M([[t] for _ in range(p)])))
    env.check('unchanged', env.eq(got, matmul(g, [[t] for _ in range(p)])))


def rect_inverse(env, r, c):
    """The inverse of a full-rank rectangular matrix is the least-squares one."""
    g = grid(env, 'a', r, c)
    gram = matmul(tr(g), g) if r >= c else matmul(g, tr(g))
    env.assume(det(gram) != 0)
    x = env.M(g).inverse()
    env.check('shape', env.shape(x, c, r))
    xl = data_of(x)
    if r >= c:
        env.check('left inverse', env.eq(matmul(xl, g), ident(c)))
    else:
        env.check('right inverse', env.eq(matmul(g, xl), ident(r)))
    ax = matmul(g, xl)
    env.check('orthogonal projection', env.eq(ax, tr(ax)))


def scenarios(tier):
    S = Suite()
    for n in (1, 2, 3):
        for k in ('general' if n < 3 or tier == 'thorough' else 'corner', 'symmetric'):
            S.add('eigen %s %d' % (k, n), eigen, n=n, kind=k)
            for w in ('ascending', 'descending', 'dominance'):
                S.add('eigen %s %s %d' % (w, k, n), eigen_sorted, n=n, kind=k, which=w)
    for n in (1, 2, 3):
        for e in (-60, -30, 40):
            for k in ('triangular', 'symmetric'):
                S.add('%s of order 2^%d %d' % (k, e, n), eigen_small, n=n, e=e, kind=k)
    for n, p, sh in ((1, 3, '0'), (2, 5, '0'), (2, 5, '1/100'), (3, 9, '1/100'), (3, 9, '0'), (1, 4, '2')):
        S.add('repeated eigenvalues %dx%d + %s' % (n, p, sh), repeated, n=n, p=p, shift=sh)
    for n in (2, 3) + ((4,) if tier == 'thorough' else ()):
        S.add('diagonal spectrum %d' % n, diag_eigen, n=n)
    for r, c in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)]:
        S.add('svd %dx%d' % (r, c), svd, r=r, c=c)
    for n in (1, 2, 3):
        S.add('inverse %d' % n, inverse, n=n)
        for k in (1, 2):
            S.add('solve %d %d' % (n, k), solve, n=n, k=k)
    S.add('rejections', solve_rejects)
    for r, c in [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 2), (2, 3)]:
        S.add('pseudo inverse %dx%d' % (r, c), pinv, r=r, c=c)
    for n, t in ((2, False), (2, True), (3, False)):
        S.add('badly scaled %d %s' % (n, 'triangular' if t else 'diagonal'), ill_conditioned, n=n, turned=t)
    for r, c in [(1, 2), (2, 1), (3, 1), (3, 2), (2, 3), (4, 2)]:
        S.add('rectangular inverse %dx%d' % (r, c), rect_inverse, r=r, c=c)
    return S
