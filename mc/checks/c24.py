"""Domain-invariant PLS: weights, scores, loadings, coefficients and predictions of all three adaption modes follow the published recursion."""
from .alg import *
from fractions import Fraction
from .pls_ref import *

BOUNDS = ('supervised, unsupervised and semi-supervised training, 1-3 components; source/target sets of 2-6 rows and 2-4 columns; every regularisation strength '
          'for one component with 2 columns, else listed strengths; all real new rows; domains of equal covariance with every strength')
ASSUMPTIONS = ['unless the strength is symbolic, fixed training data run in double arithmetic, results equal up to 1e-9 relative']


def domains(env, ns, nt, nu, p, k=0):
    x, y = line(env, ns + nt + nu, p, k=k)
    for i in range(ns, ns + nt + nu):
        x[i] = [v * env.const('1/2') + (j + 1) * i - 2 for j, v in enumerate(x[i])]
        y[i][0] = y[i][0] + 1
    return x, y


def recursion(env, xs, xt, x, y, lam, ns, nt, nc):
    """Published recursion on lists of centered rows."""
    p = len(x[0])
    W, T, Ts, Tt, P, Ps, Pt, C = [], [], [], [], [], [], [], []
    for _ in range(nc):
        yy = vsum([v[0] * v[0] for v in y])
        d = emap(lambda a, b: a / (ns - 1) - b / (nt - 1), matmul(tr(xs), xs), matmul(tr(xt), xt))
        reg = [[(1 if i == j else 0) + d[i][j] * lam / (2 * yy) for j in range(p)] for i in range(p)]
        w = solve(reg, emap(lambda v: v / yy, matmul(tr(x), y)))
        nrm = env.sqrt(vsum([v[0] * v[0] for v in w]))
        w = emap(lambda v: v / nrm, w)
        W.append(w)
        out = []
        for g, tt, pp in ((x, T, P), (xs, Ts, Ps), (xt, Tt, Pt)):
            t = matmul(g, w)
            q = vsum([v[0] * v[0] for v in t])
            l = emap(lambda v: v / q, matmul(tr(g), t))
            tt.append(t)
            pp.append(l)
            out.append(emap(lambda a, b: a - b, g, matmul(t, tr(l))))
        c = vsum([a[0] * b[0] for a, b in zip(T[-1], y)]) / vsum([a[0] * a[0] for a in T[-1]])
        y = [[b[0] - a[0] * c] for a, b in zip(T[-1], y)]
        C.append([c])
        x, xs, xt = out
    cat = lambda l: [[m[i][0] for m in l] for i in range(len(l[0]))]
    W, P = cat(W), cat(P)
    if nc == 1:
        q = vsum([a[0] * b[0] for a, b in zip(P, W)])
        b = [[w[0] * C[0][0] / q] for w in W]
    else:
        b = matmul(W, solve(matmul(tr(P), W), C))
    return dict(Wdi=W, T=cat(T), Ts=cat(Ts), Tt=cat(Tt), P=P, Ps=cat(Ps), Pt=cat(Pt), bdi=b)


def run(env, mode, ns, nt, nu, p, nc, lam, k=0, exact=False):
    z = grid(env, 'z', 1 if exact else 2, p)
    if lam == 'any':
        lam = env.real('lam')
        env.assume(env.gt(lam, env.const('1/100')))
        env.assume(env.lt(lam, env.const('2')))
    else:
        lam = env.const(lam)
    if not exact:
        env.doubles()
    x, y = domains(env, ns, nt, nu, p, k)
    a = make(env, 'DIPLS', nc)
    a.lambda_ = lam
    S, T, U = x[:ns], x[ns:ns + nt], x[ns + nt:]
    ys, yt = y[:ns], y[ns:ns + nt]
    if mode == 'supervised':
        r = a.initialize_supervised(env.M(S), env.M(T), env.M(ys), env.M(yt))
        dom, lab, resp = T, S + T, ys + yt
    elif mode == 'unsupervised':
        r = a.initialize_unsupervised(env.M(S), env.M(T), env.M(ys))
        dom, lab, resp = T, S, ys
    else:
        r = a.initialize_semisupervised(env.M(S), env.M(T), env.M(U), env.M(ys), env.M(yt))
        dom, lab, resp = T + U, S + T, ys + yt
    env.check('trained', env.lit(r is None, r))
    my = means(resp)
    want = recursion(env, shift(S, means(S)), shift(dom, means(dom)), shift(lab, means(lab)), shift(resp, my), lam, ns, nt, nc)
    for n in ('Wdi',) if exact else ('Wdi', 'T', 'Ts', 'Tt', 'P', 'Ps', 'Pt', 'bdi'):
        env.check('matrix ' + n, env.eq(a.get_matrix(n), want[n]))
    env.check('scores', env.eq(a.transform(env.M(z)), matmul(shift(z, means(lab)), want['Wdi'])))
    center = means(dom if mode == 'unsupervised' else lab)
    env.check('predictions', env.eq(a.predict(env.M(z)), [[v[0] + my[0]] for v in matmul(shift(z, center), want['bdi'])]))


def same_covariance(env, p, nc, off):
    """Domains of equal covariance: ordinary PLS whatever the strength."""
    z = grid(env, 'z', 1, p)
    n = 6
    env.doubles()
    x, y = line(env, n, p)
    t = [[v + off * (j + 1) for j, v in enumerate(r)] for r in x]
    lam = env.const(env.choose('lam', ('1', '100', '1/1000')))
    a = make(env, 'DIPLS', nc)
    a.lambda_ = lam
    env.check('trained', env.lit(a.initialize_unsupervised(env.M(x), env.M(t), env.M(y)) is None))
    my = means(y)
    b = pls(shift(x, means(x)), shift(y, my), nc)
    env.check('ordinary PLS', env.eq(a.predict(env.M(z)), [[v[0] + my[0]] for v in matmul(shift(z, means(t)), b)]))


def units(env, mode, ex, ey, nc):
    """Predictors and responses in other units, the strength in theirs: the same model."""
    z = grid(env, 'z', 2, 3)
    env.doubles()
    x, y = domains(env, 5, 4, 3, 3)
    fx, fy = env.const(Fraction(2) ** ex), env.const(Fraction(2) ** ey)
    out = []
    for cx, cy in ((env.const(1), env.const(1)), (fx, fy)):
        a = make(env, 'DIPLS', nc)
        a.lambda_ = env.const('3/2') * cy / cx * cy / cx
        X, Y = emap(lambda v: v * cx, x), emap(lambda v: v * cy, y)
        S, T, U = env.M(X[:5]), env.M(X[5:9]), env.M(X[9:])
        if mode == 'supervised':
            r = a.initialize_supervised(S, T, env.M(Y[:5]), env.M(Y[5:9]))
        elif mode == 'unsupervised':
            r = a.initialize_unsupervised(S, T, env.M(Y[:5]))
        else:
            r = a.initialize_semisupervised(S, T, U, env.M(Y[:5]), env.M(Y[5:9]))
        env.check('trained', env.lit(r is None, r))
        Z = env.M(emap(lambda v: v * cx, z))
        out.append((data_of(a.get_matrix('Wdi')), emap(lambda v: v / cx, data_of(a.transform(Z))), emap(lambda v: v / cy, data_of(a.predict(Z)))))
    for i, l in enumerate(('weights', 'scores', 'predictions')):
        env.check(l, env.eq(out[1][i], out[0][i]))


def direct(env, ns):
    """Plain training is refused; so are domains of a single sample."""
    x, y = domains(env, 3, 3, 0, 2)
    a = make(env, 'DIPLS', 1)
    if ns == 0:
        r = a.initialize(env.M(x), env.M(y))
    elif ns == 1:
        r = a.initialize_supervised(env.M(x[:1]), env.M(x[1:]), env.M(y[:1]), env.M(y[1:]))
    else:
        r = a.initialize_unsupervised(env.M(x[:5]), env.M(x[5:]), env.M(y[:5]))
    env.check('refused', env.lit(isinstance(r, str)), env.lit(not a.is_initialised()))


def scenarios(tier):
    S = Suite()
    M = ('supervised', 'unsupervised', 'semisupervised')
    for m in M:
        for ns, nt, nu, p, nc, k in ((4, 4, 3, 2, 1, 0), (5, 4, 2, 3, 2, 0), (4, 6, 5, 3, 3, 1), (6, 5, 4, 4, 2, 2), (6, 3, 1, 2, 2, 3)):
            for lam in ('1', '1/10', '30', '-1/2') + (('1/1000', '-1', '7') if tier == 'thorough' else ()):
                S.add('%s %d+%d+%d x%d nc=%d lam=%s' % (m, ns, nt, nu, p, nc, lam), run, mode=m, ns=ns, nt=nt, nu=nu, p=p, nc=nc, lam=lam, k=k)
        for ex, ey in ((-10, 0), (-24, 0), (10, 0), (0, -10), (-30, -34), (0, 20), (-30, -30)):
            S.add('units %s 2^%d 2^%d' % (m, ex, ey), units, mode=m, ex=ex, ey=ey, nc=2)
        S.add('%s every strength' % m, run, mode=m, ns=3, nt=3, nu=2, p=2, nc=1, lam='any', exact=True)
    for p, nc in ((2, 1), (3, 2), (3, 3)):
        S.add('equal covariance %d/%d' % (p, nc), same_covariance, p=p, nc=nc, off=3)
    for ns in (0, 1, 2):
        S.add('refused %d' % ns, direct, ns=ns)
    return S
