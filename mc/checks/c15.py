"""Savitzky-Golay filters: exact least-squares weights, sliding window, options, rejections."""
from fractions import Fraction
from .util import *

BOUNDS = ('all real data with 1-3 rows; windows of 0-5 points left and right, polynomial orders 2-4, derivative orders 0-4 (every combination that has a unique '
          'fit and up to 9 points); every polynomial of the fitted order; input widths from the window size to window size + 3, and 40 columns; seven longer windows of up to 201 points and orders up to 10 with four arbitrary columns')
T = 'wai.ma.transformation'


def weights(left, right, order, der):
    """Independent exact solution: weights c_k with sum c_k k^i = [i == der], c polynomial in k of degree <= order."""
    if left + right == 0:
        return [Fraction(1)]
    n = order + 1
    pts = range(-left, right + 1)
    A = [[Fraction(sum(k ** (i + j) for k in pts)) for j in range(n)] + [Fraction(int(i == der))] for i in range(n)]
    for i in range(n):
        p = next(r for r in range(i, n) if A[r][i] != 0)
        A[i], A[p] = A[p], A[i]
        A[i] = [x / A[i][i] for x in A[i]]
        for r in range(n):
            if r != i:
                f = A[r][i]
                A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return [sum(A[j][n] * Fraction(k) ** j for j in range(n)) for k in pts]


def make(env, left, right, order, der):
    if left == right and (order + der) % 2:
        t = env.lib(T).SavitzkyGolay2()
        t.num_points = left
    else:
        t = env.lib(T).SavitzkyGolay()
        t.num_points_left = left
        t.num_points_right = right
    t.polynomial_order = order
    t.derivative_order = der
    return t


def values(env, r, extra, left, right, order, der):
    """Each output is the weighted window of the input, for arbitrary data."""
    w = [env.const(str(x)) for x in weights(left, right, order, der)]
    n = len(w) + extra
    g = grid(env, 'a', r, n) if n < 14 else [[env.real('a_%d_%d' % (i, j)) if j in (0, 1, n // 2, n - 1) else env.const(j % 3) for j in range(n)] for i in range(r)]
    t = make(env, left, right, order, der)
    m = env.M(g)
    out = t.transform(m)
    env.check('width', env.shape(out, r, extra + 1))
    env.check('values', env.eq(out, [[vsum([w[k] * g[i][j + k] for k in range(len(w))]) for j in range(extra + 1)] for i in range(r)], tol=1e-5))
    env.check('data unchanged', env.eq(m, g))


def polynomials(env, left, right, order, der, off):
    """Every polynomial up to the fitted order is differentiated exactly."""
    p = env.vec('p', order + 1)
    n = left + right + 3
    g = [[vsum([p[i] * (j + off) ** i for i in range(order + 1)]) for j in range(n)]]
    out = make(env, left, right, order, der).transform(env.M(g))

    def taylor(x):
        """d-th derivative over d! at x"""
        s = env.const(0)
        for i in range(der, order + 1):
            binom = Fraction(1)
            for q in range(der):
                binom = binom * (i - q) / (q + 1)
            s = s + p[i] * env.const(str(binom * Fraction(x) ** (i - der)))
        return s
    env.check('exact on polynomials', env.eq(out, [[taylor(j + left + off) for j in range(3)]], tol=1e-4))


def rejected(env, kind):
    SG = env.lib(T).SavitzkyGolay
    t = SG()
    g = grid(env, 'a', 2, 7)
    if kind == 'too narrow':
        for n in (1, 3, 6):
            raises(env, 'too narrow', SG().transform, env.M([r[:n] for r in g]))
    if kind == 'order too high':
        t.derivative_order = 3
        raises(env, 'derivative above polynomial order', t.transform, env.M(g))
    if kind == 'window too small':
        t.num_points_left = 1
        t.num_points_right = 0
        raises(env, 'not enough points', t.transform, env.M(g))


def options(env):
    """Admissible option values are exactly the documented ones."""
    for cls, names in (('SavitzkyGolay', ('num_points_left', 'num_points_right')), ('SavitzkyGolay2', ('num_points',))):
        for nm, lo in [(x, 0) for x in names] + [('polynomial_order', 2), ('derivative_order', 0)]:
            t = getattr(env.lib(T), cls)()
            v = env.int('v_' + cls + nm, -3, 6)
            ok, e = env.attempt(setattr, t, nm, v)
            env.check('%s.%s' % (cls, nm), env.true(v >= lo) if ok else env.true(v < lo), env.lit(ok or isinstance(e, ValueError)))


def gradient(env, r, c):
    """Row-wise five-point derivative with replicated borders."""
    F = env.lib(T + '._YGradientGLSWSavitzkyGolayFilter').YGradientGLSWSavitzkyGolayFilter
    g = grid(env, 'a', r, c)
    m = env.M(g)
    out = F().transform(m)

    def row(i):
        return g[max(0, min(r - 1, i))]
    w = {-2: '1/5', -1: '1/10', 1: '-1/10', 2: '-1/5'}
    env.check('shape', env.shape(out, r, c))
    env.check('values', env.eq(out, [[vsum([env.const(w[k]) * row(i + k)[j] for k in w]) for j in range(c)] for i in range(r)]))
    env.check('data unchanged', env.eq(m, g))


# powers of the window positions beyond 2^63, long windows
LARGE = [(9, 9, 10, 0), (9, 9, 10, 2), (25, 25, 7, 1), (20, 30, 6, 1), (100, 100, 5, 1), (100, 100, 4, 2), (60, 40, 5, 0)]


def scenarios(tier):
    S = Suite()
    for left, right, order, der in LARGE:
        S.add('large %d+%d order %d der %d' % (left, right, order, der), values, r=1, extra=1, left=left, right=right, order=order, der=der)
    for order in (2, 3, 4):
        for left in range(0, 6):
            for right in range(0, 6):
                n = left + right + 1
                if n < order + 1 or n > (9 if tier == 'quick' else 11):
                    continue
                if tier == 'quick' and order > 2 and (left + 2 * right + order) % 3:
                    continue
                for der in range(0, order + 1):
                    S.add('weights left=%d right=%d order=%d derivative=%d' % (left, right, order, der), values, r=1 + (left + der) % 2, extra=(right + der) % 4,
                          left=left, right=right, order=order, der=der)
                    if order < 4:
                        S.add('polynomials left=%d right=%d order=%d derivative=%d' % (left, right, order, der), polynomials, left=left, right=right,
                              order=order, der=der, off=(0, -3, 2)[left % 3])
    S.add('single point', values, r=2, extra=3, left=0, right=0, order=2, der=0)
    S.add('three rows', values, r=3, extra=2, left=2, right=2, order=2, der=1)
    S.add('wide', values, r=2, extra=33, left=3, right=3, order=2, der=1)
    S.add('wide asymmetric', values, r=1, extra=40, left=1, right=4, order=2, der=2)
    for k in ('too narrow', 'order too high', 'window too small'):
        S.add('rejected %s' % k, rejected, kind=k)
    S.add('options', options)
    for r in (1, 2, 3, 4, 5, 6, 9):
        S.add('row gradient %d' % r, gradient, r=r, c=1 + r % 3)
    for r, c in mined_shapes(['YGradientGLSWSavitzkyGolayFilter']):
        S.add('row gradient %dx%d' % (r, c), gradient, r=r, c=c)
    return S
