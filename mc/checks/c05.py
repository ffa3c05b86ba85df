"""Derived quantities always describe the current contents: no stale decompositions."""
from .util import *

BOUNDS = ('matrices 1x1, 2x2, 3x3 with all real entries (clearly not symmetric ones for eigenvectors); every in-place operation; histories '
          'query-modify-query and query-modify-query-modify-query')

QUERIES = {
    'eigenvalues': lambda m: m.get_eigenvalues(), 'eigenvectors': lambda m: m.get_eigenvectors(),
    'sorted eigenvectors': lambda m: m.get_eigenvectors(True), 'sorted eigenvalues': lambda m: m.get_eigenvalues_sorted_descending(),
    'ascending eigenvectors': lambda m: m.get_eigenvectors_sorted_ascending(),
    'D': lambda m: m.get_eigenvalue_decomposition_D(), 'V': lambda m: m.get_eigenvalue_decomposition_V(),
    'dominant': lambda m: m.get_dominant_eigenvector(),
    'ascending eigenvalues': lambda m: m.get_eigenvalues_sorted_ascending(),
    'U': lambda m: m.svd_U(), 'Vh': lambda m: m.svd_V(), 'S': lambda m: m.svd_S(), 'singular': lambda m: m.get_singular_values(),
    'inverse': lambda m: m.inverse(), 'pinv': lambda m: m.pseudo_inverse(), 'sum': lambda m: m.sum(0), 'norm': lambda m: m.norm2(),
}
GROUPS = {
    'eigen': ['eigenvalues', 'eigenvectors', 'D', 'V'],
    'sorted': ['sorted eigenvectors', 'sorted eigenvalues', 'ascending eigenvectors', 'ascending eigenvalues', 'dominant'],
    'svd': ['U', 'Vh', 'S', 'singular'],
    'misc': ['inverse', 'sum', 'norm'],
}


def mutators(env, n):
    H = env.lib(HELPER)
    v = env.real('v')
    d = {
        'set': lambda m: m.set(n - 1, 0, v), 'set diagonal': lambda m: m.set(0, 0, v),
        'set row': lambda m: m.set_row(n - 1, env.M([env.vec('row', n)])),
        'set row turned': lambda m: m.set_row(n - 1, env.M([[x] for x in env.vec('row', n)])),
        'set column': lambda m: m.set_column(n - 1, env.M([[x] for x in env.vec('col', n)])),
        'set column turned': lambda m: m.set_column(n - 1, env.M([env.vec('col', n)])),
        'set anywhere': lambda m: m.set(idx(env, 'i', 0, n - 1), idx(env, 'j', 0, n - 1), v),
        'set short row': lambda m: m.set_row(0, env.M([[v]])),
        'set short column': lambda m: m.set_column(n - 1, env.M([[v]])),
        'set partial row': lambda m: m.set_row(n - 1, env.M([env.vec('pr', max(1, n - 1))])),
        'set partial column': lambda m: m.set_column(0, env.M([[x] for x in env.vec('pr', max(1, n - 1))])),
        'set long row': lambda m: m.set_row(0, env.M([env.vec('lr', n + 1)])),
        'set long column': lambda m: m.set_column(n - 1, env.M([[x] for x in env.vec('lr', n + 1)])),
        'add column vector': lambda m: m.add_by_vector_modify(env.M([[x] for x in env.vec('rv', n)])),
        'sub column vector': lambda m: m.sub_by_vector_modify(env.M([[x] for x in env.vec('rv', n)])),
        'mul row vector': lambda m: m.mul_by_vector_modify(env.M([env.vec('cv', n, lo=1, hi=3)])),
        'div column vector': lambda m: m.div_by_vector_modify(env.M([[x] for x in env.vec('dv', n, lo=1, hi=3)])),
        'add vector': lambda m: m.add_by_vector_modify(env.M([env.vec('rv', n)])),
        'sub vector': lambda m: m.sub_by_vector_modify(env.M([env.vec('rv', n)])),
        'mul vector': lambda m: m.mul_by_vector_modify(env.M([[x] for x in env.vec('cv', n, lo=1, hi=3)])),
        'div vector': lambda m: m.div_by_vector_modify(env.M([env.vec('dv', n, lo=1, hi=3)])),
        'fill diagonal': lambda m: H.fill_diagonal(m, v),
    }
    return d


EIGEN = set(GROUPS['eigen'] + GROUPS['sorted'])


def clear(env, m):
    """Bound: the matrices whose eigenvectors are asked for are clearly not symmetric (nearly symmetric ones may be treated as symmetric)."""
    d = data_of(m)
    if len(d) > 1 and len(d) == len(d[0]):
        a, b = d[0][1] * 1000, d[1][0]
        up, down = a - b * 1000, b * 1000 - a
        env.assume(((up >= 1 + b) & (up >= 1 - b)) | ((down >= 1 + b) & (down >= 1 - b)))


def run_q(env, m, q):
    if q in EIGEN:
        clear(env, m)
    ok, v = env.attempt(QUERIES[q], m)
    return (True, v) if ok else (False, type(v).__name__)


def same(env, label, a, b):
    if a[0] != b[0]:
        env.check(label, env.lit(False, 'one of them failed: %s %s' % (a[1], b[1])))
    elif not a[0]:
        env.check(label, env.lit(a[1] == b[1]))
    else:
        env.check(label, env.eq(a[1], b[1]))


def stale(env, n, group, mut, again):
    """Query, modify, query: the answer is that of a fresh matrix with the same contents."""
    g = grid(env, 'a', n, n) if (mut, group) != ('fill diagonal', 'sorted') else [[env.const(3 * i * i + j + 1) for j in range(n)] for i in range(n)]
    for q in GROUPS[group]:
        m = env.M(g)
        run_q(env, m, q)
        mutators(env, n)[mut](m)
        fresh = env.M(data_of(m))
        same(env, '%s after %s' % (q, mut), run_q(env, m, q), run_q(env, fresh, q))
        if again and q != 'inverse':
            mutators(env, n)['set'](m)
            mutators(env, n)['fill diagonal'](m)
            fresh = env.M(data_of(m))
            same(env, '%s after %s and set' % (q, mut), run_q(env, m, q), run_q(env, fresh, q))


ALL = ['eigenvalues', 'sorted eigenvectors', 'ascending eigenvectors', 'D', 'V', 'dominant', 'U', 'Vh', 'S', 'singular']


def several(env, n, mut, order, rounds=1):
    """Everything is asked for, in one order or the other; the matrix is modified; everything describes the new contents."""
    g = grid(env, 'a', n, n) if mut != 'fill diagonal' else [[env.const(3 * i * i + j + 1) for j in range(n)] for i in range(n)]
    m = env.M(g)
    names = ALL[order:] + ALL[:order] if order >= 0 else ALL[::-1]
    for q in names:
        run_q(env, m, q)
    for r in range(rounds):
        mutators(env, n)[mut](m)
        fresh = data_of(m)
        for q in names:
            same(env, '%s after %s, everything asked before' % (q, mut), run_q(env, m, q), run_q(env, env.M(fresh), q))


def value_ops(env, n, group):
    """Results of value-returning operations never inherit the operand's decompositions."""
    g = grid(env, 'a', n, n)
    v = env.real('v')
    b = env.M(grid(env, 'b', n, n))
    rv = env.M([env.vec('rv', n)])
    ops = {'copy+set': lambda m: m.copy(), 'transpose': lambda m: m.transpose(), 'add': lambda m: m.add(b), 'mul': lambda m: m.mul(v),
           'add vector': lambda m: m.add_by_vector(rv), 'apply': lambda m: m.apply_elementwise(lambda x: x + v),
           'product': lambda m: m.mul(b), 'sub matrix': lambda m: m.get_rows((0, n))}
    for q in GROUPS[group]:
        for name, f in ops.items():
            m = env.M(g)
            run_q(env, m, q)
            r = f(m)
            if name == 'copy+set':
                r.set(0, 0, v)
            same(env, '%s of %s' % (q, name), run_q(env, r, q), run_q(env, env.M(data_of(r)), q))


def order_of_queries(env, n):
    """Asking for one decomposition does not change the answer to another."""
    g = grid(env, 'a', n, n)
    names = ['eigenvalues', 'eigenvectors', 'D', 'V', 'U', 'Vh', 'S', 'singular', 'inverse']
    for p in names:
        for q in names:
            m = env.M(g)
            run_q(env, m, p)
            same(env, '%s after %s' % (q, p), run_q(env, m, q), run_q(env, env.M(g), q))
            env.check('contents after %s' % p, env.eq(m, g))


def order_of_sorted(env, n, first):
    """Sorted forms leave the unsorted ones alone and agree among themselves in every order of request."""
    g = grid(env, 'a', n, n)
    for q in ['eigenvalues', 'eigenvectors', 'D'] + GROUPS['sorted']:
        m = env.M(g)
        run_q(env, m, first)
        got = run_q(env, m, q)
        same(env, '%s after %s' % (q, first), got, run_q(env, env.M(g), q))
        run_q(env, m, first)
        same(env, '%s twice after %s' % (q, first), run_q(env, m, q), got)


def scenarios(tier):
    S = Suite()
    for first in GROUPS['sorted']:
        S.add('order of queries, %s first' % first, order_of_sorted, n=2, first=first)
        if tier != 'quick':
            S.add('order of queries 3, %s first' % first, order_of_sorted, n=3, first=first)
    muts = ['set', 'set diagonal', 'set row', 'set row turned', 'set column', 'set column turned', 'set short row',
            'add vector', 'sub vector', 'mul vector', 'div vector', 'fill diagonal']
    more = ['set anywhere', 'set short column', 'set partial row', 'set partial column', 'set long row', 'set long column', 'add column vector',
            'sub column vector', 'mul row vector', 'div column vector']
    for mut in more:
        for n in (2, 3):
            for g in ('eigen', 'svd') if tier == 'quick' else ('eigen', 'sorted', 'svd', 'misc'):
                S.add('%s after %s %d' % (g, mut, n), stale, n=n, group=g, mut=mut, again=False)
    for mut in muts:
        for n in (1, 2, 3):
            for g in (['eigen', 'svd'] if n != 2 else ['eigen', 'sorted', 'svd', 'misc']):
                S.add('%s after %s %d' % (g, mut, n), stale, n=n, group=g, mut=mut, 
                      again=(mut in ('set', 'add vector') and n == 2 and g != 'sorted'))
    for mut in muts + more[1:]:
        for order in (-1, 0, 6):
            S.add('everything asked in order %d, %s' % (order, mut), several, n=2, mut=mut, order=order, rounds=1 if tier == 'quick' else 2)
    for g in ('eigen', 'svd'):
        S.add('results of operations %s' % g, value_ops, n=2, group=g)
    S.add('order of queries 2', order_of_queries, n=2)
    S.add('order of queries 3', order_of_queries, n=3)
    return S
