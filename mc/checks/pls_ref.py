"""Reference PLS on lists: the k-component PLS1 fit is least squares over the Krylov space of X'X and X'y."""
from .util import *


def solve(a, b):
    """Gauss-Jordan without pivoting on symmetric positive definite systems."""
    n = len(a)
    m = [list(a[i]) + list(b[i]) for i in range(n)]
    for i in range(n):
        d = m[i][i]
        m[i] = [v / d for v in m[i]]
        for r in range(n):
            if r != i:
                f = m[r][i]
                m[r] = [x - f * y for x, y in zip(m[r], m[i])]
    return [r[n:] for r in m]


def krylov(x, y, k):
    xt = tr(x)
    s = matmul(xt, y)
    xx = matmul(xt, x)
    cols = [s]
    for _ in range(k - 1):
        cols.append(matmul(xx, cols[-1]))
    # orthogonalise for numerical stability (any basis of the space will do)
    basis = []
    for c in cols:
        v = [r[0] for r in c]
        for b in basis:
            f = vsum([p * q for p, q in zip(v, b)]) / vsum([q * q for q in b])
            v = [p - f * q for p, q in zip(v, b)]
        basis.append(v)
    return tr(basis)


def pls(x, y, k):
    """Coefficients (p x 1) of the k-component PLS1 fit without centering."""
    K = krylov(x, y, k)
    xk = matmul(x, K)
    return matmul(K, solve(matmul(tr(xk), xk), matmul(tr(xk), y)))


def ols(x, y):
    return solve(matmul(tr(x), x), matmul(tr(x), y))


def means(g):
    return [vsum(c) / len(g) for c in tr(g)]


def devs(env, g):
    return [env.sqrt(ssd(c) / (len(g) - 1)) for c in tr(g)]


def shift(g, m, s=None):
    return [[(r[j] - m[j]) / s[j] if s else r[j] - m[j] for j in range(len(r))] for r in g]
