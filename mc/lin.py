"""Dense linear algebra on object arrays of R.

Exact where that is cheap (rational constants, adjugate for small symbolic
matrices, 1x1 / diagonal spectra); otherwise LAPACK results are nondeterministic
values that depend only on the arguments (memoised), with LAPACK's documented
contract attached as facts for the solver.
"""
import itertools
import math
from fractions import Fraction

import numpy as np

from .poly import Poly, new_atom
from .sym import (R, CX, B, NAN, ZERO, ONE, FIN, Unsupported, ctx, r_sqrt, R_atom, z3_atom, r_div)
import z3


def _arr(shape):
    o = np.empty(shape, dtype=object)
    o[...] = ZERO
    return o


def nums(a):
    from .sarr import _num
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(a.shape):
        v = _num(a[ix])
        if isinstance(v, CX):
            if v.im.is_const() and v.im.k == FIN and v.im.const() == 0:
                v = v.re
            else:
                raise Unsupported('complex linear algebra')
        out[ix] = v
    return out


def mm(a, b):
    n, k = a.shape
    m = b.shape[1]
    o = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            s = ZERO
            for l in range(k):
                s = s + a[i, l] * b[l, j]
            o[i, j] = s
    return o


def all_const(a):
    return all(x.is_const() and x.k == FIN for x in a.flat)


def fl(*ms):
    """Numeric copies when everything is constant and constants are doubles."""
    from .sym import FL
    if not FL.on or not all(x.is_const() for a in ms for x in a.flat):
        return None
    return [np.array([x.as_float() for x in a.flat], dtype=float).reshape(a.shape) for a in ms]


def FL_eig():
    from .sym import FL
    FL.eig = True


def up(m):
    m = np.asarray(m)
    if np.iscomplexobj(m) and not m.imag.any():
        m = m.real
    o = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape):
        o[i] = R.lift(complex(m[i])) if np.iscomplexobj(m) else R.lift(float(m[i]))
    return o


def has_nonfinite(a):
    return any(x.k != FIN for x in a.flat)


def akey(a):
    return (a.shape,) + tuple(x.key() for x in a.flat)


def square(a):
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')


def det(a):
    a = nums(a)
    square(a)
    n = a.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    if all_const(a):
        m = [[Fraction(x.const()) for x in r] for r in a]
        d = Fraction(1)
        for c in range(n):
            p = next((r for r in range(c, n) if m[r][c] != 0), None)
            if p is None:
                return ZERO
            if p != c:
                m[c], m[p] = m[p], m[c]
                d = -d
            d *= m[c][c]
            for r in range(c + 1, n):
                f = m[r][c] / m[c][c]
                if f:
                    m[r] = [x - f * y for x, y in zip(m[r], m[c])]
        return R.lift(d)
    s = ZERO
    # expand along the row with most zeros
    zc = [sum(1 for x in a[i] if x.is_const() and x.const() == 0) for i in range(n)]
    i = max(range(n), key=lambda r: zc[r])
    for j in range(n):
        if a[i, j].is_const() and a[i, j].const() == 0:
            continue
        minor = np.delete(np.delete(a, i, 0), j, 1)
        t = a[i, j] * det(minor)
        s = s + (t if (i + j) % 2 == 0 else -t)
    return s


def _gauss_const(a, b):
    n = a.shape[0]
    m = [[Fraction(x.const()) for x in r] for r in a]
    k = b.shape[1]
    rhs = [[x for x in r] for r in b]
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c] != 0), None)
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        m[c], m[p] = m[p], m[c]
        rhs[c], rhs[p] = rhs[p], rhs[c]
        iv = 1 / m[c][c]
        m[c] = [x * iv for x in m[c]]
        rhs[c] = [x * iv for x in rhs[c]]
        for r in range(n):
            if r != c and m[r][c] != 0:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
                rhs[r] = [x - y * f for x, y in zip(rhs[r], rhs[c])]
    o = np.empty((n, k), dtype=object)
    for i in range(n):
        for j in range(k):
            o[i, j] = R.lift(rhs[i][j])
    return o


def is_diag(a):
    n, m = a.shape
    return all(i == j or (a[i, j].is_const() and a[i, j].k == FIN and a[i, j].const() == 0)
               for i in range(n) for j in range(m))


def eye(n):
    o = _arr((n, n))
    for i in range(n):
        o[i, i] = ONE
    return o


MAX_TERMS = 250


def too_big(a):
    return sum(len(x.n.t) + sum(len(p.t) for p, _ in x.d) for x in a.flat) > MAX_TERMS


def solve(a, b):
    a, b = nums(a), nums(b)
    square(a)
    if b.shape[0] != a.shape[0]:
        raise ValueError('solve: Input operand 1 has a mismatch in its core dimension 0')
    vec = b.ndim == 1
    b2 = b[:, None] if vec else b
    n = fl(a, b2)
    if n is not None:
        x = up(np.linalg.solve(*n))
        return x[:, 0] if vec else x
    if has_nonfinite(a) or has_nonfinite(b2):
        raise Unsupported('non-finite linear system')
    if all_const(a):
        x = _gauss_const(a, b2)
    else:
        x = mm(inv(a), b2)
    return x[:, 0] if vec else x


def inv(a):
    a = nums(a)
    square(a)
    n = a.shape[0]
    m = fl(a)
    if m is not None:
        return up(np.linalg.inv(m[0]))
    if has_nonfinite(a):
        raise Unsupported('inverse of non-finite matrix')
    if all_const(a):
        return _gauss_const(a, eye(n))
    if is_diag(a):
        o = _arr((n, n))
        for i in range(n):
            if bool(a[i, i] == 0):
                raise np.linalg.LinAlgError('Singular matrix')
            o[i, i] = ONE / a[i, i]
        return o
    c = ctx()
    key = ('inv', akey(a))
    got = c.memo.get(key)
    if got is not None:
        if got[0] == 'op':
            return got[1].copy()
        d = got[1]
        if bool(d == 0):
            raise np.linalg.LinAlgError('Singular matrix')
        return got[2].copy()
    if n <= 3 or (n == 4 and not too_big(a)):
        if not too_big(a) or n <= 2:
            d = det(a)
            if bool(d == 0):
                raise np.linalg.LinAlgError('Singular matrix')
            o = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    minor = np.delete(np.delete(a, j, 0), i, 1)
                    t = det(minor)
                    o[i, j] = (t if (i + j) % 2 == 0 else -t) / d
            c.memo[key] = ('ex', d, o)
            return o.copy()
    # opaque: nondeterministic X with A X = I
    o = opaque('inv', a, (n, n), lambda m: np.linalg.inv(m),
               lambda o: eqs(mm(a, o), eye(n)) + eqs(mm(o, a), eye(n)))
    c.note('opaque inverse %dx%d' % (n, n))
    c.memo[key] = ('op', o)
    return o.copy()


def eqs(a, b):
    """z3 facts a == b for object arrays of R (denominators nonzero)."""
    from .sym import r_cmp
    c = ctx()
    c.raw, old = True, c.raw
    try:
        return [r_cmp(x, y, '==').z for x, y in zip(a.flat, b.flat)]
    finally:
        c.raw = old


def known_zero(d):
    """Record that the expression d vanishes by the facts its atoms carry."""
    c = ctx()
    c.zeros.add(d.n)
    c.zeros.add((-d).n)


def evaluate_matrix(e, a):
    return np.array([[e.val(x) for x in row] for row in a], dtype=float)


def opaque(name, a, shape, f, facts, extra=()):
    """Fresh memoised atoms standing for f(a); facts(o) gives z3 constraints."""
    c = ctx()
    key = ('op', name, akey(a)) + tuple(extra)
    o = c.memo.get(key)
    if o is None:
        o = np.empty(shape, dtype=object)
        deps = set()
        for x in a.flat:
            deps |= x.atoms()
        cell = {}
        for ix in np.ndindex(shape):
            at = new_atom('%s_%s' % (name, '_'.join(map(str, ix))), 'op')
            at.deps = tuple(deps)

            def evalf(e, ix=ix):
                m = e.cache.get(('op', name, id(o)))
                if m is None:
                    try:
                        mt = evaluate_matrix(e, a)
                        if name == 'eig' and np.any(np.abs(np.imag(np.linalg.eigvals(mt))) > 1e-9):
                            e.cache['complex spectrum'] = True
                        m = f(mt)
                    except Exception:
                        m = np.full(shape, np.nan)
                    e.cache[('op', name, id(o))] = m
                v = m[ix]
                return float(np.real(v))
            at.evalf = evalf
            o[ix] = R_atom(at)
        first = True
        flist = {}

        def allfacts():
            if 'f' not in flist:
                flist['f'] = facts(o)
            return flist['f']
        # every atom of the block carries the block's facts
        from .poly import ATOMS
        for ix in np.ndindex(shape):
            ((m, _),) = o[ix].n.t.items()
            ATOMS[m[0][0]].facts = allfacts
        c.memo[key] = o
    return o.copy()


def sign_atom(name, key, evalf):
    """A nondeterministic sign (+1/-1), function of its key."""
    c = ctx()
    k = ('sign', name) + key
    a = c.memo.get(k)
    if a is None:
        a = new_atom(name, 'sign', rad=Poly.const(1))
        a.evalf = evalf
        a.facts = lambda a=a: [z3.Or(z3_atom(a.id) == 1, z3_atom(a.id) == -1)]
        c.memo[k] = a
    return R_atom(a)


def is_sym(a):
    n = a.shape[0]
    return all(a[i, j].n == a[j, i].n and a[i, j].d == a[j, i].d or bool_const_eq(a[i, j], a[j, i])
               for i in range(n) for j in range(i))


def bool_const_eq(x, y):
    d = x - y
    return d.is_const() and d.k == FIN and d.const() == 0


def eig(a):
    a = nums(a)
    square(a)
    n = a.shape[0]
    if has_nonfinite(a):
        raise np.linalg.LinAlgError('Array must not contain infs or NaNs')
    m = fl(a)
    if m is not None:
        FL_eig()
        w, v = np.linalg.eig(m[0])
        return up(w), up(v)
    c = ctx()
    reg = c.lookup_spectrum(a)
    if reg is not None:
        return reg
    if n == 1:
        w = np.empty(1, dtype=object)
        w[0] = a[0, 0]
        return w, eye(1)
    if is_diag(a):
        w = np.empty(n, dtype=object)
        for i in range(n):
            w[i] = a[i, i]
        return w, eye(n)
    c.note('opaque eig %dx%d' % (n, n))
    sym = is_sym(a)

    def f(m):
        w, v = np.linalg.eig(m)
        return np.concatenate([np.real(w)[None, :], np.real(v)], 0)

    def facts(o):
        w, v = o[0], o[1:]
        out = []
        for j in range(n):
            av = mm(a, v[:, j:j + 1])
            lv = np.empty((n, 1), dtype=object)
            for i in range(n):
                lv[i, 0] = w[j] * v[i, j]
            out += eqs(av, lv)
            s = ZERO
            for i in range(n):
                s = s + v[i, j] * v[i, j]
            out += eqs(np.array([[s]], dtype=object), np.array([[ONE]], dtype=object))
        if sym:
            # orthogonal (LAPACK promises it when the eigenvalues differ; where they do not, the code runs in doubles)
            for j in range(n):
                for k in range(j):
                    s = ZERO
                    for i in range(n):
                        s = s + v[i, j] * v[i, k]
                    out += eqs(np.array([[s]], dtype=object), np.array([[ZERO]], dtype=object))
        return out
    o = opaque('eig', a, (n + 1, n), f, facts)
    if sym:
        v = o[1:]
        for j in range(n):
            for k in range(j + 1):
                s = ZERO
                for i in range(n):
                    s = s + v[i, j] * v[i, k]
                known_zero(s - ONE if j == k else s)
    return o[0].copy(), o[1:].copy()


def eigh(a):
    a = nums(a)
    square(a)
    if has_nonfinite(a):
        raise np.linalg.LinAlgError('Array must not contain infs or NaNs')
    m = fl(a)
    if m is not None:
        FL_eig()
        w, v = np.linalg.eigh(m[0])
        return up(w), up(v)
    w, v = eig(a)
    from .sarr import sym_argsort
    ix = sym_argsort(list(w))
    return w[ix], v[:, ix]


def svd(a):
    a = nums(a)
    if has_nonfinite(a):
        raise np.linalg.LinAlgError('SVD did not converge')
    n, m = a.shape
    k = min(n, m)
    mt = fl(a)
    if mt is not None:
        FL_eig()
        return tuple(up(x) for x in np.linalg.svd(mt[0], full_matrices=False))
    c = ctx()
    reg = c.lookup_svd(a)
    if reg is not None:
        return reg
    if k == 1:
        flat = list(a.flat)
        s2 = ZERO
        for x in flat:
            s2 = s2 + x * x
        nr = r_sqrt(s2)
        u = _arr((n, 1))
        vh = _arr((1, m))
        s = np.empty(1, dtype=object)
        s[0] = nr
        if bool(nr == 0):
            zz = np.zeros((n, m))
            u[0, 0] = sign_atom('svdsgn0u', (n, m), lambda e: float(np.sign(np.linalg.svd(zz, full_matrices=False)[0][0, 0]) or 1))
            vh[0, 0] = sign_atom('svdsgn0v', (n, m), lambda e: float(np.sign(np.linalg.svd(zz, full_matrices=False)[2][0, 0]) or 1))
            return u, s, vh

        def ev(e):
            mt = evaluate_matrix(e, a)
            uu, ss, vv = np.linalg.svd(mt, full_matrices=False)
            return float(np.sign(vv[0, 0])) if m == 1 else float(np.sign(uu[0, 0]))
        sg = sign_atom('svdsgn', (akey(a),), ev)
        if m == 1:
            for i in range(n):
                u[i, 0] = sg * flat[i] / nr
            vh[0, 0] = sg
        else:
            u[0, 0] = sg
            for j in range(m):
                vh[0, j] = sg * flat[j] / nr
        return u, s, vh
    c.note('opaque svd %dx%d' % (n, m))

    def f(mt):
        u, s, vh = np.linalg.svd(mt, full_matrices=False)
        o = np.zeros((n + 1 + m, k))
        o[:n] = u
        o[n] = s
        o[n + 1:] = vh.T
        return o

    def facts(o):
        u, s, v = o[:n], o[n], o[n + 1:]
        out = []
        us = np.empty((n, k), dtype=object)
        for i in range(n):
            for j in range(k):
                us[i, j] = u[i, j] * s[j]
        out += eqs(mm(us, v.T), a)
        out += eqs(mm(u.T, u), eye(k))
        out += eqs(mm(v.T, v), eye(k))
        from .sym import r_cmp
        for j in range(k):
            out.append(r_cmp(s[j], ZERO, '>=').z)
            if j:
                out.append(r_cmp(s[j - 1], s[j], '>=').z)
        return out
    o = opaque('svd', a, (n + 1 + m, k), f, facts)
    return o[:n].copy(), o[n].copy(), o[n + 1:].T.copy()


def _nonsing(g):
    """True/False whether a (small) Gram matrix is nonsingular (forks)."""
    d = det(g)
    return not bool(d == 0)


def _max(v):
    r = v[0]
    for x in v[1:]:
        if bool(x > r):
            r = x
    return r


def pinv(a, rcond=None):
    """rcond None: exact rank (the rounding-level cutoffs of numpy are not modelled)."""
    a = nums(a)
    n, m = a.shape
    if has_nonfinite(a):
        raise np.linalg.LinAlgError('SVD did not converge')
    mt = fl(a)
    if mt is not None:
        return up(np.linalg.pinv(mt[0]) if rcond is None else np.linalg.pinv(mt[0], rcond=float(rcond)))
    if rcond is not None:
        rcond = ZERO + rcond
        if all(i == j or (a[i, j].is_const() and bool(a[i, j] == 0)) for i in range(n) for j in range(m)):
            d = [a[i, i] for i in range(min(n, m))]
            ab = [x if bool(x >= 0) else -x for x in d]
            cut = rcond * _max(ab)
            o = _arr((m, n))
            for i, x in enumerate(d):
                o[i, i] = ZERO if bool(ab[i] <= cut) else 1 / x
            return o
        u, s, vh = svd(a)
        cut = rcond * s[0]
        if any(bool(x <= cut) for x in s):
            o = _arr((m, n))
            for i in range(m):
                for j in range(n):
                    t = ZERO
                    for k in range(len(s)):
                        if not bool(s[k] <= cut):
                            t = t + vh[k, i] * u[j, k] / s[k]
                    o[i, j] = t
            return o
    if n == m and not all_const(a) and n <= 2:
        d = det(a)
        if not bool(d == 0):
            return inv(a)
    at = a.T
    if m <= n:
        g = mm(at, a)
        if m <= 3 or all_const(g):
            if _nonsing(g):
                return mm(inv(g), at)
        else:
            return mm(inv(g), at)
    else:
        g = mm(a, at)
        if n <= 3 or all_const(g):
            if _nonsing(g):
                return mm(at, inv(g))
        else:
            return mm(at, inv(g))
    if all(bool(x == 0) for x in a.flat):
        return _arr((m, n))
    if min(n, m) == 2:
        # rank one: A+ = A^T / ||A||_F^2
        s = ZERO
        for x in a.flat:
            s = s + x * x
        o = np.empty((m, n), dtype=object)
        for i in range(m):
            for j in range(n):
                o[i, j] = a[j, i] / s
        return o
    raise Unsupported('pinv of a rank-deficient matrix')


def lstsq(a, b, rcond=None):
    b = nums(b)
    vec = b.ndim == 1
    b2 = b[:, None] if vec else b
    x = mm(pinv(a, rcond), b2)
    return x[:, 0] if vec else x


def rank(a):
    a = nums(a)
    m = [list(r) for r in a]
    n, k = a.shape
    r = 0
    for c in range(k):
        p = next((i for i in range(r, n) if not bool(m[i][c] == 0)), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        for i in range(r + 1, n):
            f = m[i][c] / m[r][c]
            m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        r += 1
        if r == n:
            break
    return r


def root_of_unity(k, N, sign):
    """exp(sign * 2 pi i k / N), exact for N in {1,2,3,4,5,6,8,10,12}."""
    k %= N
    g = math.gcd(k, N) if k else N
    num, den = k // g, N // g
    re, im = _cs(num, den)
    return CX(re, im if sign > 0 else -im)


def _cs(k, n):
    F = Fraction
    if n == 1:
        return ONE, ZERO
    if n == 2:
        return -ONE, ZERO
    if n == 4:
        return ZERO, (ONE if k == 1 else -ONE)
    if n == 3:
        s3 = r_sqrt(R.lift(3)) / 2
        return R.lift(F(-1, 2)), (s3 if k == 1 else -s3)
    if n == 6:
        s3 = r_sqrt(R.lift(3)) / 2
        return R.lift(F(1, 2)), (s3 if k == 1 else -s3)
    if n == 8:
        h = r_sqrt(R.lift(2)) / 2
        return {1: (h, h), 3: (-h, h), 5: (-h, -h), 7: (h, -h)}[k]
    if n == 5:
        s5 = r_sqrt(R.lift(5))
        c1 = (s5 - 1) / 4
        c2 = (-s5 - 1) / 4
        # sin(2pi/5) as an algebraic atom with square (5+sqrt5)/8
        s1 = r_sqrt((s5 + 5) / 8)
        s2 = s1 * c1 * 2
        return {1: (c1, s1), 2: (c2, s2), 3: (c2, -s2), 4: (c1, -s1)}[k]
    raise Unsupported('root of unity of order %d' % n)
