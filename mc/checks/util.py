"""Shared pieces of the property scenarios: reference arithmetic on lists."""
import ast
import os

from ..env import Scenario

FACTORY = 'wai.ma.core.matrix.factory'
HELPER = 'wai.ma.core.matrix.helper'
UTILS = 'wai.ma.core.utils'


class Suite(list):
    """Collects scenarios: suite.add('name', fn, param=..)."""

    def add(self, name, fn, time_limit=None, weight=1.0, max_paths=None, **params):
        self.append(Scenario(name, fn, params, time_limit=time_limit, weight=weight, max_paths=max_paths))


def grid(env, name, r, c, lo=None, hi=None):
    return [[env.real('%s_%d_%d' % (name, i, j), lo, hi) for j in range(c)] for i in range(r)]


def copyg(g):
    return [list(r) for r in g]


def tr(g):
    return [list(r) for r in zip(*g)]


def matmul(a, b):
    out = []
    for i in range(len(a)):
        row = []
        for j in range(len(b[0])):
            s = a[i][0] * b[0][j]
            for k in range(1, len(b)):
                s = s + a[i][k] * b[k][j]
            row.append(s)
        out.append(row)
    return out


def emap(f, *gs):
    return [[f(*xs) for xs in zip(*rows)] for rows in zip(*gs)]


def vsum(v):
    s = v[0]
    for x in v[1:]:
        s = s + x
    return s


def flat(g):
    return [x for r in g for x in r]


def mean_(v):
    return vsum(v) / len(v)


def ssd(v):
    m = mean_(v)
    return vsum([(x - m) * (x - m) for x in v])


def ident(n, m=None):
    m = n if m is None else m
    return [[1 if i == j else 0 for j in range(m)] for i in range(n)]


def idx(env, name, lo, hi):
    return env.int(name, lo, hi).__index__()


def raises(env, label, fn, *a, **k):
    """The call must be rejected with an exception."""
    ok, v = env.attempt(fn, *a, **k)
    env.check(label, env.lit(not ok, 'accepted, result %s' % type(v).__name__))


def data_of(m):
    """Elements of a Matrix as a list of lists (snapshot of values)."""
    d = m.data
    return [[d[i, j] for j in range(d.shape[1])] for i in range(d.shape[0])]


def rank1ok(env, *ms):
    pass


SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)]
WIDE = [(2, 19), (19, 2), (1, 40), (40, 1), (12, 12)]


def mined_ints(files=None, lo=4, hi=80):
    """Integer literals of the current source: sizes at which it might behave differently."""
    from ..loader import SRC
    out = set()
    for root, _, fs in os.walk(os.path.join(SRC, 'wai', 'ma')):
        for f in fs:
            if not f.endswith('.py'):
                continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, SRC)
            if files is not None and not any(x in rel for x in files):
                continue
            try:
                tree = ast.parse(open(p).read())
            except Exception:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) \
                        and lo <= n.value <= hi:
                    out.add(n.value)
    return sorted(out)


def mined_shapes(files=None, hi=130):
    """Shapes just around the sizes the current source mentions."""
    out = []
    for k in mined_ints(files, 4, hi)[:8]:
        out += [(k + 1, 2), (2, k + 1), (k, 1), (1, k)]
    return [s for s in dict.fromkeys(out) if s not in SHAPES and s not in WIDE]


def reals(env, *xs):
    return [env.const(x) for x in xs]
