"""Loads wai.ma from /repo/src: once with symbolic shims, once untouched."""
import ast
import builtins
import math
import os
import sys
import types
import numbers
from fractions import Fraction

import numpy as np

SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')


class Snapshot:
    """State of one freshly loaded module: its globals, its classes' attributes, contents of mutable values one level deep."""
    SKIP = ('__builtins__', '__dict__', '__weakref__', '__doc__', '_abc_impl', '__annotations__', '__abstractmethods__')

    def __init__(self, m):
        self.spaces = []
        self.boxes = []
        self.caches = []
        seen = set()
        self.space(m, m.__dict__)
        for v in list(m.__dict__.values()):
            if isinstance(v, type) and v.__module__ == m.__name__ and id(v) not in seen:
                seen.add(id(v))
                self.space(v, v.__dict__)

    def space(self, owner, d):
        items = {k: v for k, v in d.items() if k not in self.SKIP and not isinstance(v, types.ModuleType)}
        self.spaces.append((owner, items))
        name = owner.__name__
        for v in items.values():
            if isinstance(v, (classmethod, staticmethod)):
                v = v.__func__
            if isinstance(v, (dict, list, set, bytearray, np.ndarray)):
                self.box(v)
            elif hasattr(v, 'cache_clear'):
                self.caches.append(v)
            elif isinstance(v, types.FunctionType):
                if v.__module__ == (name if isinstance(owner, types.ModuleType) else owner.__module__):
                    self.box(v.__dict__)
                    for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                        if isinstance(x, (dict, list, set, bytearray, np.ndarray)):
                            self.box(x)
            elif type(v).__module__.startswith('wai.') and isinstance(getattr(v, '__dict__', None), dict) and not isinstance(v, type):
                self.box(v.__dict__)

    def box(self, v):
        self.boxes.append((v, v.copy() if isinstance(v, np.ndarray) else dict(v) if isinstance(v, dict) else type(v)(v)))

    @staticmethod
    def differ(v, old):
        if len(v) != len(old) or isinstance(v, (set, bytearray)):
            return v != old
        if isinstance(v, dict):
            return any(k not in old or old[k] is not x for k, x in v.items())
        return any(x is not y for x, y in zip(v, old))

    def restore(self):
        for owner, items in self.spaces:
            d = owner.__dict__
            for k, v in items.items():
                if d.get(k, self) is not v:
                    setattr(owner, k, v)
            if len(d) > len(items):
                for k in [k for k, v in d.items() if k not in items and k not in self.SKIP and not isinstance(v, types.ModuleType)]:
                    delattr(owner, k)
        for v, old in self.boxes:
            if isinstance(v, np.ndarray):
                v[...] = old
            elif self.differ(v, old):
                if isinstance(v, (dict, set)):
                    v.clear()
                    v.update(old)
                else:
                    v[:] = old
        for f in self.caches:
            f.cache_clear()


class ModuleLoader:
    """Own module registry; nothing enters sys.modules, nothing is cached on disk."""

    def __init__(self, shims=None, transform=None, builtin_over=None):
        self.mods = {}
        self.shims = shims or {}
        self.transform = transform
        self.bi = dict(builtins.__dict__)
        self.bi['__import__'] = self.import_
        if builtin_over:
            self.bi.update(builtin_over)
        self.files = []
        self.snaps = []
        self.root = types.ModuleType('wai')
        self.root.__path__ = [os.path.join(SRC, 'wai')]

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split('.')
        parent = None
        if len(parts) > 2:
            parent = self.load('.'.join(parts[:-1]))
            if name in self.mods:
                return self.mods[name]
        base = os.path.join(SRC, *parts)
        if os.path.isdir(base):
            path = os.path.join(base, '__init__.py')
            pkg = True
            if not os.path.exists(path):
                path = None
        elif os.path.exists(base + '.py'):
            path, pkg = base + '.py', False
        else:
            raise ModuleNotFoundError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [base]
        m.__dict__['__builtins__'] = self.bi
        self.mods[name] = m
        try:
            if path is not None:
                with open(path, 'r') as f:
                    src = f.read()
                self.files.append(path)
                tree = ast.parse(src, path)
                if self.transform is not None:
                    tree = self.transform(tree)
                code = compile(tree, path, 'exec', dont_inherit=True)
                exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        self.snaps.append(Snapshot(m))
        if parent is not None:
            setattr(parent, parts[-1], m)
        elif len(parts) == 2:
            setattr(self.root, parts[1], m)
        return m

    def fresh(self):
        """Undo what an earlier run left behind in modules, classes and functions: every run starts like a new process."""
        for s in self.snaps:
            s.restore()

    def _is_ours(self, name):
        return name == 'wai.ma' or name.startswith('wai.ma.')

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            full = '.'.join(base + ([name] if name else []))
        else:
            full = name
        if self._is_ours(full):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(full + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            real = builtins.__import__('wai')
            for k in ('common',):
                if hasattr(real, k) and not hasattr(self.root, k):
                    setattr(self.root, k, getattr(real, k))
            return self.root
        if full in self.shims:
            s = self.shims[full]
            if fromlist or '.' not in full:
                return s
            return self.shims[full.split('.')[0]]
        top = full.split('.')[0]
        if top in self.shims and fromlist:
            # e.g. from numpy.linalg import norm
            o = self.shims[top]
            try:
                for p in full.split('.')[1:]:
                    o = getattr(o, p)
                return o
            except AttributeError:
                pass
        if top in self.shims and not fromlist:
            return self.shims[top]
        return builtins.__import__(name, globals, locals, fromlist, level)


# ------------------------------------------------------------------ symbolic shims
def make_symbolic_loader():
    from . import sym
    from .sym import R, CX, B, I, Unsupported, CtxHolder
    from .sarr import (SArr, to_sarr, obj, has_sym, HANDLED, STRUCTURAL, ufunc_dispatch, function_dispatch,
                       cast_scalar, lift_el, narrow, int_trunc)
    from . import symbytes

    class FloatMeta(type(float)):
        def __instancecheck__(cls, x):
            return isinstance(x, (float, R))

        def __subclasscheck__(cls, c):
            return issubclass(c, (float, R))

        def __eq__(cls, o):
            return o is float or o is cls

        def __hash__(cls):
            return hash(float)

        def __call__(cls, v=0.0):
            return R.lift(v, strict=True)

    class ShimFloat(float, metaclass=FloatMeta):
        pass

    class IntMeta(type(int)):
        def __instancecheck__(cls, x):
            return isinstance(x, (int, I))

        def __subclasscheck__(cls, c):
            return issubclass(c, (int, I))

        def __eq__(cls, o):
            return o is int or o is cls

        def __hash__(cls):
            return hash(int)

        def __call__(cls, v=0, *a, **k):
            if isinstance(v, I):
                return v
            if isinstance(v, R) and not v.is_const():
                t = int_trunc(v)
                raise Unsupported('int() of a symbolic real')
            if isinstance(v, SArr):
                v = v.reshape(-1)[0]
            return int(v, *a, **k)

    class ShimInt(int, metaclass=IntMeta):
        pass

    FLOATS = {float, np.floating, np.float64, np.number, np.generic, np.inexact, numbers.Number, numbers.Real,
              numbers.Complex}
    INTS = {int, np.integer, np.number, np.generic, np.signedinteger, np.int64, numbers.Number, numbers.Real,
            numbers.Integral, numbers.Complex, numbers.Rational}
    INTS.discard(np.int64)

    def shim_isinstance(x, t):
        if isinstance(t, tuple):
            return any(shim_isinstance(x, u) for u in t)
        if t is ShimFloat:
            return isinstance(x, (float, R))
        if t is ShimInt:
            return isinstance(x, (int, I))
        if t is str and isinstance(x, symbytes.SymStr):
            return True
        if t is bytes and isinstance(x, symbytes.SymBytes):
            return True
        if t is R and isinstance(x, np.float64):
            return True
        if isinstance(x, (R, symbytes.FP)):
            if t is R:
                return True
            try:
                if t in FLOATS:
                    return True
            except TypeError:
                pass
        if isinstance(x, I):
            try:
                if t in INTS:
                    return True
            except TypeError:
                pass
        return isinstance(x, t)

    def is_float_dtype(t):
        if t is R or t is ShimFloat or t is float:
            return True
        if isinstance(t, str) and t in ('float', 'float64', 'd', 'f8', 'double', '<f8'):
            return True
        return isinstance(t, np.dtype) and t == np.dtype(float)

    def is_int_dtype(t):
        return t is ShimInt or t is int or t in (np.int64, np.int32, np.intp, 'int', 'int64')

    def np_array(o, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
        if isinstance(o, np.ndarray) and o.dtype != object and dtype is None:
            r = np.array(o, copy=True) if copy else o
            return to_sarr(r) if r.dtype.kind == 'f' else r
        if is_int_dtype(dtype):
            if has_sym(o):
                o2 = o if isinstance(o, SArr) else to_sarr(o)
                return o2.astype(int)
            return np.array(o, dtype=int)
        if dtype is None and not has_sym(o):
            r = np.array(o)
            if r.dtype.kind == 'f':
                return to_sarr(r)
            return r
        if dtype in (bool, np.bool_) and not has_sym(o):
            return np.array(o, dtype=bool)
        if dtype is object and not has_sym(o):
            return np.array(o, dtype=object)
        if isinstance(o, SArr) and copy is False:
            r = o
        elif isinstance(o, SArr):
            r = o.copy()
        else:
            r = to_sarr(o)
        if not isinstance(r, SArr):
            r = to_sarr(r)
        if dtype is not None and not is_float_dtype(dtype) and dtype is not object:
            r = r.astype(dtype)
        while r.ndim < ndmin:
            r = r[None]
        return r

    def np_asarray(o, dtype=None, **kw):
        if isinstance(o, SArr) and (dtype is None or is_float_dtype(dtype)):
            return o
        return np_array(o, dtype, copy=False)

    def filled(shape, v, dtype=None):
        shape = (shape,) if isinstance(shape, (int, I, np.integer)) else tuple(shape)
        shape = tuple(int(s) for s in shape)
        if dtype is not None and is_int_dtype(dtype):
            return np.full(shape, int(v), dtype=int)
        if dtype in (bool, np.bool_):
            return np.full(shape, v, dtype=bool)
        r = np.empty(shape, dtype=object)
        vv = lift_el(v)
        if isinstance(vv, np.ndarray) or isinstance(v, (list, tuple)):
            r[...] = obj(v)
        else:
            for ix in np.ndindex(shape):
                r[ix] = vv
        r = r.view(SArr)
        if dtype is not None and not is_float_dtype(dtype) and dtype is not object:
            r = r.astype(dtype)
        return r

    def np_zeros(shape, dtype=None, **kw):
        return filled(shape, sym.ZERO, dtype)

    def np_ones(shape, dtype=None, **kw):
        return filled(shape, sym.ONE, dtype)

    def np_empty(shape, dtype=None, **kw):
        return filled(shape, sym.NAN, dtype) if not (dtype is not None and is_int_dtype(dtype)) else np.zeros(shape, dtype=int)

    def np_full(shape, fill_value, dtype=None, **kw):
        return filled(shape, fill_value, dtype)

    def np_eye(N, M=None, k=0, dtype=None, **kw):
        N = int(N)
        M = N if M is None else int(M)
        r = to_sarr(np.eye(N, M, k))
        return r if dtype is None or not is_int_dtype(dtype) else np.eye(N, M, k, dtype=int)

    def np_arange(*a, dtype=None, **kw):
        a = [x.__index__() if isinstance(x, I) else x for x in a]
        if all(isinstance(x, (int, np.integer)) for x in a):
            r = np.arange(*a)
            return to_sarr(r) if dtype is not None and is_float_dtype(dtype) else r
        a = [R.lift(x) for x in a]
        if not all(x.is_const() for x in a):
            raise Unsupported('arange of symbolic bounds')
        fr = [Fraction(x.const()) for x in a]
        start, stop, step = (Fraction(0), fr[0], Fraction(1)) if len(fr) == 1 else (fr[0], fr[1], fr[2] if len(fr) > 2 else Fraction(1))
        out = []
        v = start
        while (step > 0 and v < stop) or (step < 0 and v > stop):
            out.append(R.lift(v))
            v += step
        return to_sarr(out)

    def np_linspace(start, stop, num=50, endpoint=True, **kw):
        start, stop = R.lift(start), R.lift(stop)
        num = int(num)
        d = num - 1 if endpoint else num
        return to_sarr([start + (stop - start) * Fraction(i, d) if d else start for i in range(num)])

    def np_format_sci(x, precision=None, unique=True, trim='k', sign=False, pad_left=None, exp_digits=None, **kw):
        x = R.lift(x)
        if x.is_const():
            return np.format_float_scientific(x.as_float(), precision=precision, unique=unique, trim=trim,
                                              exp_digits=exp_digits)
        return sym.ctx().token_for(x, 'sci:%s' % precision)

    def np_format_pos(x, precision=None, unique=True, fractional=True, trim='k', **kw):
        x = R.lift(x)
        if x.is_const():
            return np.format_float_positional(x.as_float(), precision=precision, unique=unique, fractional=fractional,
                                              trim=trim, **kw)
        if precision is None:
            return str(x)
        if not fractional:
            raise Unsupported('significant digits')
        return sym.ctx().token_for(x, 'fix:%s' % precision)

    class Narrow:
        def __init__(self, name):
            self.dtype = np.dtype(name)
            self.__name__ = name

        def __call__(self, v=0):
            if isinstance(v, (list, tuple, np.ndarray)):
                return to_sarr(v).astype(self.dtype)
            return narrow(R.lift(v), self.dtype.name)

    IRRATIONAL = {'sqrt', 'exp', 'log', 'log2', 'log10', 'log1p', 'expm1', 'exp2', 'tanh', 'sin', 'cos', 'cosh', 'sinh', 'cbrt'}

    def wrap_irrational(uf):
        class W:
            __name__ = uf.__name__

            def __call__(self, x, *a, **k):
                if CtxHolder.cur is None or isinstance(x, (SArr,)):
                    return uf(x, *a, **k)
                if isinstance(x, (int, float, np.number, R, I)):
                    return ufunc_dispatch(uf, '__call__', (R.lift(x),), dict(k))
                if isinstance(x, (list, tuple, np.ndarray)):
                    return ufunc_dispatch(uf, '__call__', (to_sarr(x),), dict(k))
                return uf(x, *a, **k)

            def __getattr__(self, n):
                return getattr(uf, n)
        return W()

    def wrap_func(f):
        def g(*a, **k):
            def conv(x):
                if isinstance(x, (list, tuple)) and has_sym(x):
                    if any(isinstance(y, np.ndarray) for y in x):
                        return x
                    return to_sarr(x)
                if isinstance(x, I):
                    return x.__index__()
                return x
            return f(*[conv(x) for x in a], **{kk: (v if kk == 'dtype' else conv(v)) for kk, v in k.items()})
        g.__name__ = getattr(f, '__name__', 'f')
        return g

    class Proxy(types.ModuleType):
        def __init__(self, name, real, over):
            super().__init__(name)
            self.__dict__['_real'] = real
            self.__dict__.update(over)

        def __getattr__(self, n):
            if n.startswith('__'):
                return getattr(self._real, n)
            v = getattr(self._real, n)
            if isinstance(v, np.ufunc) and n in IRRATIONAL:
                v = wrap_irrational(v)
            elif callable(v) and not isinstance(v, (type, np.ufunc)) and (v in HANDLED or n in STRUCTURAL):
                v = wrap_func(v)
            elif isinstance(v, float):
                return v
            self.__dict__[n] = v
            return v

    def div(a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, np.generic) \
                and not isinstance(b, np.generic):
            if b == 0:
                return a / b
            fa, fb = R.lift(a), R.lift(b)
            return fa / fb
        return a / b

    def flt(x):
        return R.lift(x)

    # ---- numpy.random: a deterministic function of (seed, call history)
    class RandomModel:
        def __init__(self, seed=None):
            self.reset(seed)

        def reset(self, seed):
            self.hist = (('seed', seed),)

        def draw(self, kind, shape):
            c = sym.ctx()
            if self.hist[0][1] is None:
                c.ex.nd_counter = getattr(c.ex, 'nd_counter', 0) + 1
            hist = self.hist
            key = ('rng', hist, kind, shape)
            o = c.memo.get(key)
            if o is None:
                from .poly import new_atom
                o = np.empty(shape, dtype=object)

                def vals():
                    rs = np.random.RandomState(hist[0][1] if hist[0][1] is not None else 12345)
                    for k, s in hist[1:]:
                        getattr(rs, k)(*s)
                    return np.asarray(getattr(rs, kind)(*shape))
                cell = {}
                for ix in np.ndindex(shape):
                    if sym.FL.on and hist[0][1] is not None:
                        if 'v' not in cell:
                            cell['v'] = vals()
                        o[ix] = R.lift(float(cell['v'][ix]))
                        continue
                    a = new_atom('rng', 'uf', data=('rng', ()), nonneg=(kind == 'rand'))

                    def ev(e, ix=ix):
                        if 'v' not in cell:
                            cell['v'] = vals()
                        return float(cell['v'][ix])
                    a.evalf = ev
                    z = None
                    if kind == 'rand':
                        a.facts = lambda a=a: [sym.z3_atom(a.id) >= 0, sym.z3_atom(a.id) < 1]
                    o[ix] = sym.R_atom(a)
                c.memo[key] = o
            self.hist = self.hist + ((kind, shape),)
            r = o.copy().view(SArr)
            return r if r.ndim else r[()]

        def seed(self, s=None):
            if isinstance(s, I):
                s = s.__index__()
            self.reset(s)

        def rand(self, *shape):
            return self.draw('rand', tuple(int(x) for x in shape))

        def randn(self, *shape):
            return self.draw('randn', tuple(int(x) for x in shape))

        def random_sample(self, size=None):
            shape = () if size is None else ((size,) if isinstance(size, int) else tuple(size))
            return self.draw('rand', shape)

        random = random_sample

        def standard_normal(self, size=None):
            shape = () if size is None else ((size,) if isinstance(size, int) else tuple(size))
            return self.draw('randn', shape)

        def uniform(self, low=0.0, high=1.0, size=None):
            return self.random_sample(size) * (R.lift(high) - R.lift(low)) + low

        def normal(self, loc=0.0, scale=1.0, size=None):
            return self.standard_normal(size) * scale + loc

    glob_rng = RandomModel()

    class RandomProxy(types.ModuleType):
        def __getattr__(self, n):
            if n == 'RandomState':
                return RandomModel
            if n in ('seed', 'rand', 'randn', 'random_sample', 'random', 'uniform', 'normal', 'standard_normal'):
                return getattr(glob_rng, n)
            raise Unsupported('numpy.random.%s' % n)

    rnd = RandomProxy('numpy.random')

    class MaProxy(types.ModuleType):
        def __getattr__(self, n):
            return getattr(npx, n)

    npx = Proxy('numpy', np, dict(
        array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray,
        asfortranarray=np_asarray, zeros=np_zeros, ones=np_ones, empty=np_empty, full=np_full, eye=np_eye,
        identity=lambda n, dtype=None: np_eye(n, dtype=dtype), arange=np_arange, linspace=np_linspace,
        float64=R, double=R, float_=R, longdouble=R, float32=Narrow('float32'), single=Narrow('float32'),
        float16=Narrow('float16'), half=Narrow('float16'),
        random=rnd, format_float_scientific=np_format_sci,
        format_float_positional=np_format_pos,
        isscalar=lambda x: isinstance(x, (R, I, CX)) or np.isscalar(x),
        iscomplexobj=lambda x: any(isinstance(v, CX) for v in obj(x).flat),
        finfo=lambda t=None: np.finfo(float),
        nan=sym.NAN, inf=sym.INF, NaN=sym.NAN, Inf=sym.INF, e=R.lift(math.e), pi=R.lift(math.pi),
        PINF=sym.INF, NINF=sym.NEG_INF,
        errstate=np.errstate,
    ))
    npx.ma = MaProxy('numpy.ma')
    npx.linalg = Proxy('numpy.linalg', np.linalg, {})
    npx.fft = Proxy('numpy.fft', np.fft, {})

    def m1(f, name):
        def g(x):
            x = R.lift(x, strict=True)
            return f(x)
        g.__name__ = name
        return g

    def msqrt(x):
        x = R.lift(x, strict=True)
        if isinstance(x, np.ndarray):
            x = x.reshape(-1)[0]
        if x.k == FINK and bool(x < 0):
            raise ValueError('math domain error')
        return sym.r_sqrt(x)

    def mlog(x, base=None):
        x = R.lift(x, strict=True)
        if bool(x <= 0):
            raise ValueError('math domain error')
        r = sym.r_log(x)
        return r if base is None else r / sym.r_log(R.lift(base))
    FINK = sym.FIN
    mathx = Proxy('math', math, dict(
        sqrt=msqrt, exp=m1(sym.r_exp, 'exp'), log=mlog, tanh=m1(sym.r_tanh, 'tanh'), sin=m1(sym.r_sin, 'sin'),
        cos=m1(sym.r_cos, 'cos'), fabs=m1(abs, 'fabs'), pow=lambda a, b: sym.r_pow(R.lift(a), R.lift(b)),
        isnan=lambda x: R.lift(x).k == sym.NAN_K, isinf=lambda x: R.lift(x).k in (sym.PINF, sym.NINF),
        isfinite=lambda x: R.lift(x).k == sym.FIN,
        floor=lambda x: x if isinstance(x, (int, I)) else int(sym.r_floor(R.lift(x))),
        ceil=lambda x: x if isinstance(x, (int, I)) else -int(sym.r_floor(-R.lift(x))),
        hypot=lambda *a: sym.r_sqrt(sum((R.lift(x) * R.lift(x) for x in a), sym.ZERO)),
        fsum=lambda it: sum(it, sym.ZERO),
        log10=lambda x: mlog(x, 10), log2=lambda x: mlog(x, 2),
        e=R.lift(math.e), pi=R.lift(math.pi), inf=sym.INF, nan=sym.NAN,
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(R.lift(a) - R.lift(b)) <= sym.r_max(R.lift(rel_tol) * sym.r_max(abs(R.lift(a)), abs(R.lift(b))), R.lift(abs_tol))),
    ))

    def quiet_print(*a, **k):
        for x in a:
            str(x)

    class DivT(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Div):
                return ast.copy_location(ast.Call(func=ast.Name(id='__vdiv__', ctx=ast.Load()),
                                                  args=[n.left, n.right], keywords=[]), n)
            return n

        def visit_Constant(self, n):
            if isinstance(n.value, float):
                return ast.copy_location(ast.Call(func=ast.Name(id='__vflt__', ctx=ast.Load()),
                                                  args=[n], keywords=[]), n)
            return n

        def visit_JoinedStr(self, n):
            return n

        def visit_MatchValue(self, n):
            return n

        def visit_AnnAssign(self, n):
            if n.value is not None:
                n.value = self.visit(n.value)
            return n

    def transform(tree):
        return ast.fix_missing_locations(DivT().visit(tree))

    from . import stubs
    shims = {'numpy': npx, 'numpy.random': rnd, 'numpy.linalg': npx.linalg, 'numpy.fft': npx.fft, 'math': mathx,
             'struct': symbytes.struct_shim(), 'sklearn.preprocessing': stubs.sklearn_preprocessing(),
             'sklearn': types.SimpleNamespace(preprocessing=stubs.sklearn_preprocessing()),
             'os': stubs.os_shim(), 'os.path': stubs.os_shim().path, 'io': stubs.io_shim(),
             'pathlib': stubs.pathlib_shim()}
    over = dict(isinstance=shim_isinstance, float=ShimFloat, int=ShimInt, print=quiet_print,
                __vdiv__=div, __vflt__=flt, open=stubs.vfs_open)
    ld = ModuleLoader(shims, transform, over)
    ld.np = npx
    ld.rng = glob_rng
    return ld


class Libs:
    def __init__(self):
        self.sym = make_symbolic_loader()
        over = {'print': lambda *a, **k: None}
        self.conc = ModuleLoader({}, None, over)

    def fresh(self):
        self.sym.fresh()
        self.conc.fresh()


FUNCS = set()


def start_function_trace():
    """Record every function of /repo/src that was executed (once each)."""
    mon = sys.monitoring
    tid = mon.PROFILER_ID
    try:
        mon.use_tool_id(tid, 'verif')
    except ValueError:
        return

    def cb(code, off):
        f = code.co_filename
        if f.startswith(SRC):
            FUNCS.add(f[len(SRC) + 1:] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, cb)
    mon.set_events(tid, mon.events.PY_START)
