"""Object-dtype ndarray subclass holding R/CX/B elements, plus numpy dispatch."""
import math
import itertools
from fractions import Fraction

import numpy as np

from .sym import (_is_nonneg_atom, R, CX, B, I, NAN, INF, NEG_INF, ZERO, ONE, TRUE, FALSE, FIN, NAN_K, Unsupported, ctx,
                  r_sqrt, r_exp, r_log, r_tanh, r_sin, r_cos, r_angle, r_pow, r_floor, r_round,
                  r_cmp, r_max, r_min, r_sign, r_abs, r_div, uf)
from . import lin


def lift_el(v):
    if isinstance(v, (R, CX, B)):
        return v
    if isinstance(v, I):
        return v.to_real()
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    r = R.lift(v)
    if r is None:
        return v
    return r


def obj(a):
    """Plain object ndarray with lifted elements."""
    if isinstance(a, SArr):
        return a.view(np.ndarray)
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            out = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(a.shape):
                out[ix] = lift_el(a[ix])
            return out
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            out[ix] = lift_el(a[ix].item() if hasattr(a[ix], 'item') else a[ix])
        return out
    if isinstance(a, (R, CX, B, I)) or np.isscalar(a) or a is None:
        out = np.empty((), dtype=object)
        out[()] = lift_el(a)
        return out
    arr = np.array(_plain(a), dtype=object)
    return obj(arr)


def _plain(a):
    if isinstance(a, (list, tuple)):
        return [_plain(x) for x in a]
    if isinstance(a, SArr):
        return a.view(np.ndarray)
    return a


def to_sarr(a):
    return obj(a).view(SArr)


def wrap(o):
    """ndarray(object) -> SArr, or bool ndarray when all plain bools; 0-d -> scalar."""
    if o.ndim == 0:
        return o[()]
    if o.size and all(isinstance(x, (bool, np.bool_)) for x in o.flat):
        return o.astype(bool)
    if o.size and all(isinstance(x, (B, bool, np.bool_)) for x in o.flat):
        if all(isinstance(x, bool) or x.const is not None for x in o.flat):
            return np.vectorize(bool, otypes=[bool])(o)
    return o.view(SArr)


def has_sym(x):
    if isinstance(x, (R, CX, B, I, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(y, (R, CX, B, I)) for y in x.flat)
    return False


def cast_scalar(x, t):
    """astype / dtype conversion of a scalar."""
    if t is None or t is R or t in (float, object, 'float', 'float64', 'd', 'f8', 'double', 'object'):
        return x
    if t in (complex, 'complex', 'complex128', np.complex128):
        return CX.lift(x)
    try:
        d = np.dtype(t)
    except Unsupported:
        raise
    except Exception:
        raise Unsupported('dtype %r' % (t,))
    if d == np.dtype(np.float64) or d == np.dtype(object) or d == np.dtype(np.longdouble):
        return x
    if d.kind == 'c':
        return CX.lift(x)
    if d.kind == 'f':
        return narrow(x, d.name)
    if d.kind in 'iu':
        return int_trunc(x)
    if d.kind == 'b':
        return x if isinstance(x, (B, bool)) else (x != 0)
    raise Unsupported('dtype %s' % d)


NARROWED = []     # narrowings met on the current path


def narrow(x, name):
    """Rounding to a narrower float: an uninterpreted function close to x."""
    NARROWED.append(name)
    if isinstance(x, CX):
        return CX(narrow(x.re, name), narrow(x.im, name))
    if not isinstance(x, R):
        x = R.lift(x)
    if x.k:
        return x
    if x.is_const():
        return R.lift(float(np.dtype(name).type(float(x.const()))))
    return uf(('narrow', name), (x,), lambda v: float(np.dtype(name).type(v)))


def int_trunc(x):
    x = R.lift(x)
    if x.is_const() and x.k == FIN:
        return R.lift(int(x.const()))
    return r_floor(x) if bool(x >= 0) else -r_floor(-x)


# ------------------------------------------------------------- ufunc tables
def _c2(f):
    return lambda a, b: f(lift_el(a), lift_el(b))


def _num(x):
    if isinstance(x, (R, CX)):
        return x
    if isinstance(x, B):
        return ONE if bool(x) else ZERO
    if isinstance(x, bool):
        return ONE if x else ZERO
    r = R.lift(x)
    if r is None:
        raise Unsupported('element %r' % type(x))
    return r


def _n2(f):
    return lambda a, b: f(_num(a), _num(b))


def _isnan(x):
    x = _num(x)
    if isinstance(x, CX):
        return x.re.k == NAN_K or x.im.k == NAN_K
    return x.k == NAN_K


def _isinf(x):
    x = _num(x)
    return x.k not in (FIN, NAN_K)


def _isfin(x):
    x = _num(x)
    if isinstance(x, CX):
        return x.re.k == FIN and x.im.k == FIN
    return x.k == FIN


def _abs(x):
    x = _num(x)
    return abs(x)


def _lnot(x):
    return ~x if isinstance(x, B) else (not x if isinstance(x, bool) else ~B.of(_num(x) != 0))


def _tob(x):
    return x if isinstance(x, (B, bool, np.bool_)) else (_num(x) != 0)


def _land(a, b):
    return B.of(_tob(a)) & B.of(_tob(b))


def _lor(a, b):
    return B.of(_tob(a)) | B.of(_tob(b))


def _floordiv(a, b):
    return r_floor(a / b)


U1 = {
    'negative': lambda a: -_num(a), 'positive': lambda a: _num(a), 'absolute': _abs, 'fabs': _abs,
    'sqrt': lambda a: r_sqrt(_num(a)), 'square': lambda a: _num(a) * _num(a),
    'exp': lambda a: r_exp(_num(a)), 'log': lambda a: r_log(_num(a)), 'tanh': lambda a: r_tanh(_num(a)),
    'sin': lambda a: r_sin(_num(a)), 'cos': lambda a: r_cos(_num(a)),
    'log1p': lambda a: r_log(ONE + _num(a)), 'expm1': lambda a: r_exp(_num(a)) - ONE,
    'log2': lambda a: r_log(_num(a)) / r_log(R.lift(2)), 'log10': lambda a: r_log(_num(a)) / r_log(R.lift(10)),
    'exp2': lambda a: r_pow(R.lift(2), _num(a)),
    'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfin,
    'sign': lambda a: r_sign(_num(a)), 'floor': lambda a: r_floor(_num(a)),
    'ceil': lambda a: -r_floor(-_num(a)), 'rint': lambda a: r_round(_num(a)),
    'trunc': lambda a: int_trunc(_num(a)),
    'conjugate': lambda a: _num(a).conjugate(), 'reciprocal': lambda a: ONE / _num(a),
    'logical_not': _lnot, 'invert': _lnot,
    'cosh': lambda a: (r_exp(_num(a)) + r_exp(-_num(a))) / 2,
    'sinh': lambda a: (r_exp(_num(a)) - r_exp(-_num(a))) / 2,
    'signbit': lambda a: _num(a) < 0,
    'deg2rad': lambda a: _num(a) * R.lift(math.pi) / 180,
}
U2 = {
    'add': _n2(lambda a, b: a + b), 'subtract': _n2(lambda a, b: a - b), 'multiply': _n2(lambda a, b: a * b),
    'divide': _n2(lambda a, b: a / b), 'true_divide': _n2(lambda a, b: a / b), 'power': _n2(r_pow),
    'float_power': _n2(r_pow), 'maximum': _n2(r_max), 'minimum': _n2(r_min),
    'fmax': _n2(lambda a, b: b if a.k == NAN_K else a if b.k == NAN_K else r_max(a, b)),
    'fmin': _n2(lambda a, b: b if a.k == NAN_K else a if b.k == NAN_K else r_min(a, b)),
    'equal': _c2(lambda a, b: a == b), 'not_equal': _c2(lambda a, b: a != b),
    'less': _n2(lambda a, b: a < b), 'less_equal': _n2(lambda a, b: a <= b),
    'greater': _n2(lambda a, b: a > b), 'greater_equal': _n2(lambda a, b: a >= b),
    'logical_and': _land, 'logical_or': _lor, 'bitwise_and': _land, 'bitwise_or': _lor,
    'logical_xor': lambda a, b: B.of(_tob(a)) ^ B.of(_tob(b)),
    'hypot': _n2(lambda a, b: r_sqrt(a * a + b * b)), 'arctan2': _n2(lambda a, b: r_angle(b, a)),
    'floor_divide': _n2(_floordiv), 'remainder': _n2(lambda a, b: a % b), 'fmod': _n2(lambda a, b: a % b),
    'copysign': _n2(lambda a, b: abs(a) if bool(b >= 0) else -abs(a)),
}
IDENT = {'add': ZERO, 'multiply': ONE, 'logical_and': TRUE, 'logical_or': FALSE, 'bitwise_and': TRUE,
         'bitwise_or': FALSE}


def _apply(f, arrs):
    if len(arrs) == 1:
        a = arrs[0]
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            out[ix] = f(a[ix])
        return out
    bs = np.broadcast_arrays(*arrs)
    out = np.empty(bs[0].shape, dtype=object)
    for ix in np.ndindex(out.shape):
        out[ix] = f(*[b[ix] for b in bs])
    return out


def matmul(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    a2 = a[None, :] if a.ndim == 1 else a
    b2 = b[:, None] if b.ndim == 1 else b
    if a2.ndim != 2 or b2.ndim != 2:
        raise Unsupported('matmul ndim')
    if a2.shape[1] != b2.shape[0]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    n, k, m = a2.shape[0], a2.shape[1], b2.shape[1]
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            s = ZERO
            for l in range(k):
                s = s + _num(a2[i, l]) * _num(b2[l, j])
            out[i, j] = s
    if a.ndim == 1 and b.ndim == 1:
        return out[0, 0]
    if a.ndim == 1:
        return out[0].view(SArr)
    if b.ndim == 1:
        return out[:, 0].view(SArr)
    return out.view(SArr)


def reduce_axis(a, f, axis, keepdims=False, ident=None):
    a = obj(a)
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        nax = []
        for x in axes:
            x = int(x)
            if x < -a.ndim or x >= a.ndim:
                raise np.exceptions.AxisError(x, a.ndim)
            nax.append(x % a.ndim)
        axes = tuple(nax)
    keep = [i for i in range(a.ndim) if i not in axes]
    t = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1]) if a.ndim else a.reshape(1)
    shp = tuple(a.shape[i] for i in keep)
    out = np.empty(shp, dtype=object)
    for ix in np.ndindex(shp):
        v = list(t[ix])
        if not v:
            if ident is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            out[ix] = ident
            continue
        r = v[0]
        for w in v[1:]:
            r = f(r, w)
        out[ix] = r
    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return out


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('subok', None)
    kw.pop('order', None)
    if method == 'at':
        a, ix = inputs[0], inputs[1]
        if len(inputs) == 3:
            cur = a[ix]
            new = ufunc_dispatch(ufunc, '__call__', (cur, inputs[2]), {})
            n = obj(new)
            if obj(cur).shape != n.shape:
                # broadcasting operand must not exceed the target
                raise ValueError('array is not broadcastable to correct shape')
            if ix is Ellipsis or isinstance(ix, slice):
                a[ix] = n
            else:
                raise Unsupported('ufunc.at with fancy index')
        else:
            a[ix] = ufunc_dispatch(ufunc, '__call__', (a[ix],), {})
        return None
    if method == '__call__':
        if where is not True:
            w = np.asarray(where)
            if w.dtype == object:
                w = np.vectorize(bool, otypes=[bool])(w)
            if out is None:
                raise Unsupported('ufunc where without out')
        if name == 'matmul':
            res = matmul(*inputs)
        elif name == 'vecdot':
            raise Unsupported('vecdot')
        elif name == 'divmod':
            raise Unsupported('divmod')
        elif name in U1 and len(inputs) == 1:
            res = wrap(_apply(U1[name], [obj(inputs[0])]))
        elif name in U2 and len(inputs) == 2:
            res = wrap(_apply(U2[name], [obj(inputs[0]), obj(inputs[1])]))
        else:
            raise Unsupported('ufunc %s' % name)
        if dtype is not None and not isinstance(res, np.ndarray):
            res = cast_scalar(res, dtype)
        elif dtype is not None and isinstance(res, SArr):
            res = res.astype(dtype)
        if out is not None:
            tgt = out[0] if isinstance(out, tuple) else out
            r = obj(res)
            if where is not True:
                r2 = obj(tgt).copy()
                wb = np.broadcast_to(w, r2.shape)
                rb = np.broadcast_to(r, r2.shape)
                for ix in np.ndindex(r2.shape):
                    if wb[ix]:
                        r2[ix] = rb[ix]
                r = r2
            if not isinstance(tgt, np.ndarray) or tgt.shape != np.broadcast_shapes(tgt.shape, r.shape):
                raise ValueError('non-broadcastable output operand with shape %s doesn\'t match the broadcast shape %s'
                                 % (getattr(tgt, 'shape', ()), r.shape))
            if getattr(tgt, 'narrow_to', None):
                r = _apply(lambda x: narrow(_num(x), tgt.narrow_to), [r])
            if tgt.dtype != object:
                raise np._core._exceptions.UFuncTypeError(ufunc) if False else TypeError('Cannot cast ufunc output')
            np.ndarray.__setitem__(tgt.view(np.ndarray), Ellipsis, r)
            return tgt
        return res
    if method == 'reduce':
        axis = kw.pop('axis', 0)
        keepdims = kw.pop('keepdims', False)
        initial = kw.pop('initial', None)
        a = inputs[0]
        if len(inputs) > 1:
            axis = inputs[1]
        if name not in U2:
            raise Unsupported('reduce %s' % name)
        o = _cast(reduce_axis(_cast(a, dtype), U2[name], axis, bool(keepdims), IDENT.get(name)), dtype)
        if initial is not None and initial is not np._NoValue:
            o = _apply(lambda x: U2[name](initial, x), [o])
        return wrap(o)
    if method == 'accumulate':
        axis = kw.pop('axis', 0)
        a = obj(inputs[0])
        res = a.copy()
        m = np.moveaxis(res, axis, 0)
        for i in range(1, m.shape[0]):
            m[i] = _apply(U2[name], [obj(m[i - 1]), obj(m[i])])
        return wrap(res)
    if method == 'outer':
        a, b = obj(inputs[0]), obj(inputs[1])
        a2 = a.reshape(a.shape + (1,) * b.ndim)
        return wrap(_apply(U2[name], [a2, b]))
    raise Unsupported('ufunc method %s' % method)


# ------------------------------------------------------------- functions
HANDLED = {}


def implements(*fs):
    def deco(g):
        for f in fs:
            HANDLED[f] = g
        return g
    return deco


def function_dispatch(func, types, args, kwargs):
    h = HANDLED.get(func)
    if h is not None:
        return h(*args, **kwargs)
    mod = getattr(func, '__module__', '') or ''
    nm = getattr(func, '__name__', str(func))
    if mod.startswith('numpy.linalg') or mod.startswith('numpy.fft') or nm in UNSAFE:
        raise Unsupported('numpy function %s.%s' % (mod, nm))
    # structural functions work on object arrays as they are
    impl = func._implementation if hasattr(func, '_implementation') else None

    def strip(x):
        if isinstance(x, SArr):
            return x.view(np.ndarray)
        if isinstance(x, (R, CX, B)):
            return obj(x)
        if isinstance(x, list):
            return [strip(y) for y in x]
        if isinstance(x, tuple):
            return tuple(strip(y) for y in x)
        return x
    if nm not in STRUCTURAL:
        raise Unsupported('numpy function %s' % nm)
    if 'dtype' in kwargs and kwargs['dtype'] is R:
        kwargs = dict(kwargs)
        kwargs.pop('dtype')
    out = kwargs.get('out')
    r = func(*strip(args), **{k: strip(v) for k, v in kwargs.items()})
    if out is not None:
        return out

    def back(y):
        if isinstance(y, np.ndarray) and y.dtype == object:
            return y.view(SArr)
        if isinstance(y, tuple):
            return tuple(back(z) for z in y)
        if isinstance(y, list):
            return [back(z) for z in y]
        return y
    return back(r)


UNSAFE = {'polyfit', 'histogram', 'interp', 'gradient', 'convolve', 'correlate'}
STRUCTURAL = {'apply_along_axis', 'apply_over_axes', 'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'transpose', 'reshape', 'ravel',
              'flip', 'fliplr', 'flipud', 'roll', 'rot90', 'moveaxis', 'swapaxes', 'squeeze', 'expand_dims',
              'broadcast_to', 'broadcast_arrays', 'atleast_1d', 'atleast_2d', 'tile', 'repeat', 'split', 'array_split',
              'hsplit', 'vsplit', 'take', 'take_along_axis', 'diag', 'diagonal', 'diagflat', 'tril', 'triu', 'copy',
              'append', 'insert', 'delete', 'block', 'shape', 'ndim', 'size', 'append', 'resize', 'put', 'copyto',
              'fill_diagonal', 'shares_memory', 'may_share_memory', 'iscomplexobj', 'isrealobj', 'asfarray', 'row_stack',
              'compress', 'choose', 'select', 'indices', 'unravel_index', 'rollaxis', 'partition',
              'ascontiguousarray', 'sliding_window_view', 'trim_zeros', 'pad', 'put_along_axis', 'array_repr',
              'array_str', 'matrix_transpose', 'permute_dims', 'unstack', 'concat', 'astype', 'result_type', 'require'}


def _np(name):
    o = np
    for p in name.split('.'):
        o = getattr(o, p, None)
        if o is None:
            return None
    return o


def impl(*names):
    def deco(g):
        for n in names:
            f = _np(n)
            if f is not None:
                HANDLED[f] = g
        return g
    return deco


def _axisarg(axis):
    return axis


@impl('sum')
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if where is not None and where is not np._NoValue:
        raise Unsupported('sum where')
    return wrap(_cast(reduce_axis(_cast(a, dtype), U2['add'], axis, _kd(keepdims), ZERO), dtype))


def _cast(a, dtype):
    """The rounding a dtype argument of a reduction brings (none for doubles)."""
    if dtype is None or dtype is np._NoValue:
        return a
    return _apply(lambda x: cast_scalar(x, dtype), [obj(a)])


def _kd(k):
    return False if k is np._NoValue else bool(k)


@impl('prod')
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return wrap(_cast(reduce_axis(_cast(a, dtype), U2['multiply'], axis, _kd(keepdims), ONE), dtype))


def _count(a, axis):
    a = obj(a)
    if axis is None:
        return a.size
    n = 1
    for x in (axis if isinstance(axis, tuple) else (axis,)):
        n *= a.shape[x]
    return n


@impl('mean', 'average')
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None, weights=None, **kw):
    if weights is not None:
        w = to_sarr(weights)
        return _sum(to_sarr(a) * w, axis) / _sum(w, axis)
    n = _count(a, axis)
    s = reduce_axis(_cast(a, dtype), U2['add'], axis, _kd(keepdims), ZERO)
    if n == 0:
        return wrap(_apply(lambda v: NAN, [s]))
    r = _cast(_apply(lambda v: _num(v) / n, [s]), dtype)
    if out is not None:
        out[...] = r
        return out
    return wrap(r)


@impl('nanmean')
def _nanmean(a, axis=None, **kw):
    o = obj(a)
    if not any(_isnan(x) for x in o.flat):
        return _mean(a, axis)
    raise Unsupported('nanmean with nan')


@impl('var')
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, mean=None, correction=None, **kw):
    if correction is not None and correction is not np._NoValue:
        ddof = correction
    a = obj(_cast(a, dtype))
    n = _count(a, axis)
    m = reduce_axis(a, U2['add'], axis, True, ZERO)
    m = _apply(lambda v: _num(v) / n, [m])
    d = _apply(lambda x, y: (_num(x) - y) * (_num(x) - y), [a, m])
    s = reduce_axis(d, U2['add'], axis, _kd(keepdims), ZERO)
    r = _cast(_apply(lambda v: v / (n - ddof) if n - ddof > 0 else v / 0, [s]), dtype)
    return wrap(r)


@impl('std')
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return _apply_wrap(r_sqrt, _var(a, axis, dtype, None, ddof, keepdims, **kw))


def _apply_wrap(f, x):
    if isinstance(x, np.ndarray):
        return wrap(_apply(f, [obj(x)]))
    return f(x)


def sym_sorted(v):
    """Insertion sort with forks; nan last (numpy order)."""
    res = []
    nans = [x for x in v if _isnan(x)]
    for x in v:
        if _isnan(x):
            continue
        lo = len(res)
        i = 0
        while i < len(res) and not bool(_num(x) < _num(res[i])):
            i += 1
        res.insert(i, x)
    return res + nans


def sym_argsort(v):
    idx = []
    nans = [i for i, x in enumerate(v) if _isnan(x)]
    for i, x in enumerate(v):
        if _isnan(x):
            continue
        k = 0
        while k < len(idx) and not bool(_num(x) < _num(v[idx[k]])):
            k += 1
        idx.insert(k, i)
    return idx + nans


def _along(a, axis, f, dtype=object):
    a = obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    m = np.moveaxis(a, axis, -1)
    shp = m.shape[:-1]
    outs = {}
    L = None
    for ix in np.ndindex(shp):
        r = f(list(m[ix]))
        outs[ix] = r
        L = len(r)
    out = np.empty(shp + (L if L is not None else m.shape[-1],), dtype=dtype)
    for ix, r in outs.items():
        for j, x in enumerate(r):
            out[ix + (j,)] = x
    return np.moveaxis(out, -1, axis)


@impl('sort')
def _sort(a, axis=-1, kind=None, order=None, stable=None):
    return _along(a, axis, sym_sorted).view(SArr)


@impl('argsort')
def _argsort(a, axis=-1, kind=None, order=None, stable=None):
    return _along(a, axis, sym_argsort, dtype=int)


@impl('median')
def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    def f(v):
        if any(_isnan(x) for x in v):
            return [NAN]
        s = sym_sorted(v)
        n = len(s)
        return [s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2]
    r = _along(a, axis, f)
    ax = 0 if axis is None else axis
    if not _kd(keepdims):
        r = np.take(r, 0, axis=ax)
    if isinstance(r, np.ndarray) and r.ndim:
        return r.view(SArr)
    return r[()] if isinstance(r, np.ndarray) else r


def _argext(a, axis, better):
    def f(v):
        for i, x in enumerate(v):
            if _isnan(x):
                return [i]
        b = 0
        for i in range(1, len(v)):
            if bool(better(_num(v[i]), _num(v[b]))):
                b = i
        return [b]
    r = _along(a, axis, f, dtype=int)
    r = np.take(r, 0, axis=0 if axis is None else axis)
    return r


@impl('argmax')
def _argmax(a, axis=None, out=None, **kw):
    return _argext(a, axis, lambda x, y: x > y)


@impl('argmin')
def _argmin(a, axis=None, out=None, **kw):
    return _argext(a, axis, lambda x, y: x < y)


@impl('amax', 'max')
def _amax(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    return wrap(reduce_axis(a, U2['maximum'], axis, _kd(keepdims)))


@impl('amin', 'min')
def _amin(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    return wrap(reduce_axis(a, U2['minimum'], axis, _kd(keepdims)))


@impl('nanmax')
def _nanmax(a, axis=None, **kw):
    return wrap(reduce_axis(a, U2['fmax'], axis))


@impl('nanmin')
def _nanmin(a, axis=None, **kw):
    return wrap(reduce_axis(a, U2['fmin'], axis))


@impl('ptp')
def _ptp(a, axis=None, **kw):
    return _amax(a, axis) - _amin(a, axis)


@impl('any')
def _any(a, axis=None, out=None, keepdims=False, **kw):
    o = _apply(lambda x: B.of(_tob(x)), [obj(a)])
    return _unb(wrap(reduce_axis(o, _lor, axis, _kd(keepdims), FALSE)))


@impl('all')
def _all(a, axis=None, out=None, keepdims=False, **kw):
    o = _apply(lambda x: B.of(_tob(x)), [obj(a)])
    return _unb(wrap(reduce_axis(o, _land, axis, _kd(keepdims), TRUE)))


def _unb(x):
    if isinstance(x, B) and x.const is not None:
        return np.bool_(x.const)
    return x


@impl('count_nonzero')
def _cnz(a, axis=None, **kw):
    return sum(1 for x in obj(a).flat if bool(_tob(x))) if axis is None else np.sum(conc_bool(a), axis=axis)


def conc_bool(a):
    return np.vectorize(lambda x: bool(_tob(x)), otypes=[bool])(obj(a))


@impl('nonzero', 'flatnonzero', 'argwhere')
def _nonzero(a):
    return np.nonzero(conc_bool(a))


HANDLED[np.flatnonzero] = lambda a: np.flatnonzero(conc_bool(a))
HANDLED[np.argwhere] = lambda a: np.argwhere(conc_bool(a))


@impl('where')
def _where(c, *xy):
    if not xy:
        return np.nonzero(conc_bool(c))
    cb = conc_bool(c)
    return wrap(_apply(lambda k, x, y: x if k else y, [cb.astype(object), obj(xy[0]), obj(xy[1])]))


@impl('clip')
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None and a_min is not np._NoValue else (min if min is not np._NoValue else None)
    hi = a_max if a_max is not None and a_max is not np._NoValue else (max if max is not np._NoValue else None)
    r = to_sarr(a).copy()
    if lo is not None:
        r = ufunc_dispatch(np.maximum, '__call__', (r, lo), {})
    if hi is not None:
        r = ufunc_dispatch(np.minimum, '__call__', (r, hi), {})
    if out is not None:
        out[...] = r
        return out
    return r


@impl('dot')
def _dot(a, b, out=None):
    a2, b2 = obj(a), obj(b)
    if a2.ndim == 0 or b2.ndim == 0:
        return wrap(_apply(U2['multiply'], [a2, b2]))
    if a2.ndim <= 2 and b2.ndim <= 2:
        if a2.shape[-1] != (b2.shape[0]):
            raise ValueError('shapes %s and %s not aligned' % (a2.shape, b2.shape))
        return matmul(a2, b2)
    raise Unsupported('dot ndim')


@impl('vdot')
def _vdot(a, b):
    return matmul(obj(a).reshape(-1), obj(b).reshape(-1))


@impl('inner')
def _inner(a, b):
    return matmul(a, obj(b).T)


@impl('outer')
def _outer(a, b, out=None):
    return wrap(_apply(U2['multiply'], [obj(a).reshape(-1, 1), obj(b).reshape(1, -1)]))


@impl('linalg.multi_dot')
def _mdot(arrays, **kw):
    r = arrays[0]
    for x in arrays[1:]:
        r = _dot(r, x)
    return r


@impl('trace', 'linalg.trace')
def _trace(a, offset=0, **kw):
    d = np.diagonal(obj(a), offset)
    s = ZERO
    for x in d:
        s = s + x
    return s


@impl('einsum')
def _einsum(spec, *ops, **kw):
    ins, _, outl = spec.replace(' ', '').partition('->')
    terms = ins.split(',')
    if '.' in spec:
        raise Unsupported('einsum ellipsis')
    if '->' not in spec:
        cnt = {}
        for t in terms:
            for ch in t:
                cnt[ch] = cnt.get(ch, 0) + 1
        outl = ''.join(sorted(ch for ch in cnt if cnt[ch] == 1))
    ops = [obj(o) for o in ops]
    dims = {}
    for t, o in zip(terms, ops):
        for ch, n in zip(t, o.shape):
            if dims.setdefault(ch, n) != n:
                raise ValueError('einsum: dimension mismatch')
    sumi = [ch for ch in dims if ch not in outl]
    out = np.empty([dims[ch] for ch in outl], dtype=object)
    for ix in np.ndindex(out.shape):
        env = dict(zip(outl, ix))
        s = ZERO
        for jx in itertools.product(*[range(dims[ch]) for ch in sumi]):
            env.update(zip(sumi, jx))
            p = ONE
            for t, o in zip(terms, ops):
                p = p * _num(o[tuple(env[ch] for ch in t)])
            s = s + p
        out[ix] = s
    return wrap(out)


@impl('cumsum')
def _cumsum(a, axis=None, **kw):
    if axis is None:
        a = obj(a).reshape(-1)
        axis = 0

    def f(v):
        r = []
        s = ZERO
        for x in v:
            s = s + x
            r.append(s)
        return r
    return _along(a, axis, f).view(SArr)


@impl('diff')
def _diff(a, n=1, axis=-1, **kw):
    r = obj(a)
    for _ in range(n):
        m = np.moveaxis(r, axis, 0)
        r = np.moveaxis(_apply(U2['subtract'], [m[1:], m[:-1]]), 0, axis)
    return r.view(SArr)


@impl('real')
def _real(a):
    return wrap(_apply(lambda x: x.re if isinstance(x, CX) else _num(x), [obj(a)]))


@impl('imag')
def _imag(a):
    return wrap(_apply(lambda x: x.im if isinstance(x, CX) else ZERO, [obj(a)]))


@impl('angle')
def _angle(a, deg=False):
    def f(x):
        x = CX.lift(x)
        return r_angle(x.re, x.im)
    return wrap(_apply(f, [obj(a)]))


@impl('real_if_close')
def _ric(a, tol=100):
    o = obj(a)
    if any(isinstance(x, CX) and not (x.im.is_const() and x.im.const() == 0) for x in o.flat):
        return a
    return _real(a)


@impl('nan_to_num')
def _n2n(a, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(x):
        x = _num(x)
        if x.k == FIN:
            return x
        if x.k == NAN_K:
            return R.lift(nan)
        big = R.lift(np.finfo(float).max)
        if bool(x > 0):
            return big if posinf is None else R.lift(posinf)
        return -big if neginf is None else R.lift(neginf)
    return wrap(_apply(f, [obj(a)]))


@impl('zeros_like')
def _zl(a, dtype=None, shape=None, **kw):
    o = np.empty(np.shape(a) if shape is None else shape, dtype=object)
    o[...] = ZERO
    return o.view(SArr)


@impl('ones_like')
def _ol(a, dtype=None, shape=None, **kw):
    o = np.empty(np.shape(a) if shape is None else shape, dtype=object)
    o[...] = ONE
    return o.view(SArr)


@impl('full_like')
def _fl(a, fill_value, dtype=None, shape=None, **kw):
    o = np.empty(np.shape(a) if shape is None else shape, dtype=object)
    o[...] = lift_el(fill_value)
    return o.view(SArr)


HANDLED[np.empty_like] = lambda a, dtype=None, **kw: _fl(a, NAN)


@impl('round', 'around', 'round_')
def _round(a, decimals=0, out=None):
    return wrap(_apply(lambda x: r_round(_num(x), decimals), [obj(a)]))


@impl('isclose')
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        x, y = _num(x), _num(y)
        if isinstance(x, CX) or isinstance(y, CX):
            return abs(x - y) <= R.lift(atol) + R.lift(rtol) * abs(y)
        if x.k or y.k:
            if x.k == NAN_K and y.k == NAN_K:
                return bool(equal_nan)
            return x.k == y.k
        d, t, r = x - y, R.lift(atol), R.lift(rtol)
        tpos = t.const() >= 0 if t.is_const() else (not t.k and _is_nonneg_atom(t))
        if (d.is_const() and d.const() == 0 or r_cmp(d, ZERO, '==').const is True) and tpos and r.is_const() and r.const() >= 0:
            return TRUE
        if r.is_const() and r.const() == 0 and not t.is_const() and tpos:
            b = d * d <= t * t                  # a tolerance relative to a norm: no root needed
            if b.const is None:                 # often decided by the assumptions alone
                import z3
                q = z3.Solver()
                q.set('timeout', 3000)
                q.add(*[p.z for p in ctx().pc])
                q.add(b.z)
                if q.check() == z3.unsat:
                    return FALSE
            return b
        if r.is_const() and r.const() >= 0:     # |d| <= t + r|y| without deciding any sign
            p, q = t + r * y, t - r * y
            return ((d <= p) & (-d <= p)) | ((d <= q) & (-d <= q))
        return abs(d) <= t + r * abs(y)
    return wrap(_apply(f, [obj(a), obj(b)]))


@impl('allclose')
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = _isclose(a, b, rtol, atol, equal_nan)
    if not isinstance(r, np.ndarray):
        return bool(r)
    l = list(r.flat)
    if isinstance(atol, R) and not atol.is_const():
        return all(bool(x) for x in l)      # one comparison at a time: quadratic ones are hard together
    return bool(_all(r))


@impl('array_equal')
def _aeq(a, b, equal_nan=False):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.flat, b.flat):
        if equal_nan and _isnan(x) and _isnan(y):
            continue
        if not bool(x == y):
            return False
    return True


@impl('unique')
def _unique(a, *args, **kw):
    if kw or args:
        raise Unsupported('unique options')
    s = sym_sorted(list(obj(a).flat))
    r = []
    for x in s:
        if not r or not bool(x == r[-1]):
            r.append(x)
    return to_sarr(r)


@impl('isin', 'in1d')
def _isin(a, t, **kw):
    raise Unsupported('isin')


@impl('cov')
def _cov(m, y=None, rowvar=True, bias=False, ddof=None, **kw):
    if y is not None:
        raise Unsupported('cov y')
    X = obj(m)
    if X.ndim == 1:
        X = X[None, :]
    if not rowvar and X.shape[0] != 1:
        X = X.T
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    c = to_sarr(X) - _mean(X, 1, keepdims=True)
    r = matmul(c, c.T) / (n - ddof)
    return r if r.shape != (1, 1) else r[0, 0]


# ------------------------------------------------------------- linalg
@impl('linalg.norm')
def _norm(x, ord=None, axis=None, keepdims=False):
    a = obj(x)
    if axis is None and ord is None:
        v = a.reshape(-1)
        r = r_sqrt(_sumsq(v))
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o.view(SArr)
        return r
    if axis is None:
        if a.ndim == 1:
            axis = 0
        elif a.ndim == 2:
            if ord in ('fro', 'f'):
                return r_sqrt(_sumsq(a.reshape(-1)))
            if ord == 1:
                return _amax(_sum(_apply_wrap(_abs, to_sarr(a)), 0))
            if ord == np.inf or (isinstance(ord, R) and ord is INF):
                return _amax(_sum(_apply_wrap(_abs, to_sarr(a)), 1))
            raise Unsupported('matrix norm ord %r' % (ord,))
    if isinstance(ord, R):
        ord = float(ord)
    if isinstance(axis, tuple):
        if len(axis) == 2 and ord in (None, 'fro'):
            sq = _apply(lambda v: _sq(v), [a])
            return _apply_wrap(r_sqrt, wrap(reduce_axis(sq, U2['add'], axis, keepdims, ZERO)))
        if len(axis) == 1:
            axis = axis[0]
        else:
            raise Unsupported('norm axis')
    if ord is None or ord == 2:
        sq = _apply(lambda v: _sq(v), [a])
        return _apply_wrap(r_sqrt, wrap(reduce_axis(sq, U2['add'], axis, keepdims, ZERO)))
    ab = _apply(_abs, [a])
    if ord == 1:
        return wrap(reduce_axis(ab, U2['add'], axis, keepdims, ZERO))
    if ord == np.inf:
        return wrap(reduce_axis(ab, U2['maximum'], axis, keepdims))
    if ord == -np.inf:
        return wrap(reduce_axis(ab, U2['minimum'], axis, keepdims))
    if ord == 0:
        raise Unsupported('norm 0')
    p = _apply(lambda v: r_pow(v, R.lift(ord)), [ab])
    return _apply_wrap(lambda v: r_pow(v, ONE / R.lift(ord)), wrap(reduce_axis(p, U2['add'], axis, keepdims, ZERO)))


HANDLED[_np('linalg.vector_norm')] = lambda x, axis=None, keepdims=False, ord=2: _norm(
    obj(x).reshape(-1) if axis is None else x, ord, 0 if axis is None else axis, keepdims)
HANDLED[_np('linalg.matrix_norm')] = lambda x, keepdims=False, ord='fro': _norm(x, ord)


def _sq(v):
    v = _num(v)
    return v.re * v.re + v.im * v.im if isinstance(v, CX) else v * v


def _sumsq(v):
    s = ZERO
    for x in v:
        s = s + _sq(x)
    return s


@impl('linalg.inv')
def _inv(a):
    return lin.inv(obj(a)).view(SArr)


@impl('linalg.solve')
def _solve(a, b):
    a, b = obj(a), obj(b)
    r = lin.solve(a, b)
    return r.view(SArr)


@impl('linalg.det')
def _det(a):
    return lin.det(obj(a))


@impl('linalg.pinv')
def _pinv(a, rcond=None, hermitian=False, rtol=None, **kw):
    return lin.pinv(obj(a), _cut(rtol if rcond is None else rcond)).view(SArr)


def _cut(rcond):
    """Cutoffs at the level of rounding are not modelled: exact rank."""
    if rcond is None or (isinstance(rcond, (int, float, np.floating)) and float(rcond) < 1e-13):
        return None
    return rcond


@impl('linalg.lstsq')
def _lstsq(a, b, rcond=None):
    a, b = obj(a), obj(b)
    return lin.lstsq(a, b, _cut(rcond)).view(SArr), None, min(a.shape), None


@impl('linalg.eig')
def _eig(a):
    w, v = lin.eig(obj(a))
    r = w.view(SArr), v.view(SArr)
    from numpy.linalg._linalg import EigResult
    return EigResult(*r)


@impl('linalg.eigh')
def _eigh(a, UPLO='L'):
    w, v = lin.eigh(obj(a))
    from numpy.linalg._linalg import EighResult
    return EighResult(w.view(SArr), v.view(SArr))


@impl('linalg.eigvals')
def _eigvals(a):
    return lin.eig(obj(a))[0].view(SArr)


@impl('linalg.eigvalsh')
def _eigvalsh(a, UPLO='L'):
    return lin.eigh(obj(a))[0].view(SArr)


@impl('linalg.svd')
def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    a = obj(a)
    if full_matrices and a.shape[0] != a.shape[1] and compute_uv:
        raise Unsupported('full svd')
    u, s, vh = lin.svd(a)
    if not compute_uv:
        return s.view(SArr)
    from numpy.linalg._linalg import SVDResult
    return SVDResult(u.view(SArr), s.view(SArr), vh.view(SArr))


@impl('linalg.svdvals')
def _svdvals(a):
    return lin.svd(obj(a))[1].view(SArr)


@impl('linalg.matrix_rank')
def _rank(a, *args, **kw):
    return lin.rank(obj(a))


@impl('linalg.qr')
def _qr(a, mode='reduced'):
    raise Unsupported('qr')


@impl('linalg.matrix_power')
def _mpow(a, n):
    r = to_sarr(np.eye(obj(a).shape[0]))
    b = to_sarr(a) if n >= 0 else _inv(a)
    for _ in range(abs(n)):
        r = matmul(r, b)
    return r


# ------------------------------------------------------------- fft
@impl('fft.fft')
def _fft(a, n=None, axis=-1, norm=None, out=None):
    return _dft(a, n, axis, norm, -1)


@impl('fft.ifft')
def _ifft(a, n=None, axis=-1, norm=None, out=None):
    return _dft(a, n, axis, norm, +1)


def _dft(a, n, axis, norm, sign):
    a = obj(a)
    if axis < -a.ndim or axis >= a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim)
    N = a.shape[axis]
    if n is not None and n != N:
        raise Unsupported('fft n')
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, dtype=object)
    tw = [lin.root_of_unity(k, N, sign) for k in range(N)]
    if norm == 'ortho':
        sc = ONE / r_sqrt(R.lift(N))
    elif (norm in (None, 'backward')) == (sign == +1):
        sc = R.lift(Fraction(1, N))
    else:
        sc = ONE
    for ix in np.ndindex(m.shape[:-1]):
        for k in range(N):
            s = CX(ZERO)
            for j in range(N):
                s = s + tw[(j * k) % N] * CX.lift(m[ix + (j,)])
            out[ix + (k,)] = CX(s.re * sc, s.im * sc)
    return np.moveaxis(out, -1, axis).view(SArr)


@impl('fft.rfft')
def _rfft(a, n=None, axis=-1, norm=None, out=None):
    r = _dft(a, n, axis, norm, -1)
    N = obj(a).shape[axis]
    return np.take(r.view(np.ndarray), range(N // 2 + 1), axis=axis).view(SArr)


@impl('fft.fftshift')
def _fftshift(x, axes=None):
    return _shift(x, axes, lambda n: n // 2)


@impl('fft.ifftshift')
def _ifftshift(x, axes=None):
    return _shift(x, axes, lambda n: -(n // 2))


def _shift(x, axes, f):
    o = obj(x)
    if axes is None:
        axes = tuple(range(o.ndim))
    elif isinstance(axes, int):
        axes = (axes,)
    for ax in axes:
        o = np.roll(o, f(o.shape[ax]), axis=ax)
    return o.view(SArr)


# ------------------------------------------------------------- the array
class SArr(np.ndarray):
    __array_priority__ = 3000

    def __new__(cls, data):
        return to_sarr(data)

    narrow_to = None      # name of a narrower float type whose storage this is

    def __array_finalize__(self, o):
        if o is not None and getattr(o, 'narrow_to', None):
            self.narrow_to = o.narrow_to

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, types, args, kwargs)

    # element conversion on store
    def __setitem__(self, key, value):
        key = self._key(key)
        if self.narrow_to:
            nt = self.narrow_to
            value = _apply(lambda x: narrow(_num(x), nt), [obj(value)]) if isinstance(value, (np.ndarray, list, tuple)) else narrow(_num(value), nt)
        if isinstance(value, np.ndarray) or isinstance(value, (list, tuple)):
            value = obj(value)
            if value.ndim == 0:
                value = value[()]
            elif value.size and any(isinstance(v, CX) for v in value.flat) and \
                    not any(isinstance(v, CX) for v in self.flat):
                value = _apply(lambda v: v.re if isinstance(v, CX) else v, [value])
        else:
            value = _num(value) if not isinstance(value, (B, bool)) else value
        np.ndarray.__setitem__(self.view(np.ndarray), key, value)

    def _key(self, key):
        if isinstance(key, SArr):
            if key.size and isinstance(key.flat[0], (B, bool)):
                return conc_bool(key)
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if isinstance(key, tuple):
            return tuple(self._key(k) if isinstance(k, SArr) else k for k in key)
        if isinstance(key, B):
            return bool(key)
        return key

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, self._key(key))
        return r

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __contains__(self, v):
        return any(bool(x == v) for x in self.flat)

    @property
    def real(self):
        return _real(self)

    @property
    def imag(self):
        return _imag(self)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _sum(self, axis, keepdims=keepdims)

    def prod(self, axis=None, **kw):
        return _prod(self, axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _mean(self, axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return _std(self, axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return _var(self, axis, ddof=ddof, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return _amax(self, axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return _amin(self, axis, keepdims=keepdims)

    def argmax(self, axis=None, **kw):
        return _argmax(self, axis)

    def argmin(self, axis=None, **kw):
        return _argmin(self, axis)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return _any(self, axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return _all(self, axis, keepdims=keepdims)

    def sort(self, axis=-1, kind=None, order=None, **kw):
        r = _sort(self, axis)
        np.ndarray.__setitem__(self.view(np.ndarray), Ellipsis, r.view(np.ndarray))

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return _argsort(self, axis)

    def dot(self, b, out=None):
        return _dot(self, b)

    def trace(self, *a, **k):
        return _trace(self)

    def clip(self, min=None, max=None, out=None, **kw):
        return _clip(self, min, max, out)

    def round(self, decimals=0, out=None):
        return _round(self, decimals)

    def cumsum(self, axis=None, **kw):
        return _cumsum(self, axis)

    def nonzero(self):
        return _nonzero(self)

    def conj(self):
        return ufunc_dispatch(np.conjugate, '__call__', (self,), {})

    conjugate = conj

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        if dtype is R or dtype in (float, object):
            return self.copy() if copy else self
        r = _apply(lambda x: cast_scalar(x, dtype), [self.view(np.ndarray)])
        if dtype in (int, np.int64, np.int32, 'int', np.intp):
            if all(isinstance(x, R) and x.is_const() for x in r.flat):
                return np.vectorize(int, otypes=[int])(r)
            raise Unsupported('astype int of symbolic array')
        if dtype in (bool, np.bool_):
            return conc_bool(r)
        r = r.view(SArr)
        d = np.dtype(dtype) if not isinstance(dtype, type) or issubclass(dtype, np.generic) else None
        if d is not None and d.kind == 'f' and d.itemsize < 8:
            r.narrow_to = d.name
        return r

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def fill(self, v):
        self[...] = v

    def tobytes(self, *a, **k):
        raise Unsupported('tobytes')

    def __reduce__(self):
        raise Unsupported('pickle')

    def __deepcopy__(self, memo):
        return self.copy()

    # comparisons and python operators go through ufuncs already
    def __pow__(self, o):
        return ufunc_dispatch(np.power, '__call__', (self, o), {})

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]
