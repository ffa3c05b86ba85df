"""Symbolic values: R (extended reals), CX (complex), B (booleans), I (ints).

R plays the role of numpy.float64 when the library source is executed
symbolically.  A finite R is a rational function num / prod(den**e) in atoms;
+-inf and nan are separate kinds.  Comparisons give B; using a B as a Python
truth value asks the exploration context to fork.
"""
import math
import numbers
from fractions import Fraction

import numpy as np
import z3

from . import poly
from .poly import Poly, ATOMS, new_atom, ONE_M

FIN, NAN_K, PINF, NINF = 0, 1, 2, 3


class Unsupported(BaseException):
    """The encoding cannot follow this construct (reported, never a verdict)."""


class PathAbort(BaseException):
    """The current path is infeasible or out of budget."""


class CtxHolder:
    cur = None


class FL:
    """Double precision constants: arithmetic among constants rounds like the real code (scenarios with fixed training data)."""
    on = False
    eig = False  # an eigen or singular value decomposition was computed: signs of the vectors are arbitrary


def _fl2(a, b, f):
    with np.errstate(all='ignore'):
        return R.lift(float(f(np.float64(a.as_float()), np.float64(b.as_float()))))


def _fl1(a, f):
    with np.errstate(all='ignore'):
        return R.lift(float(f(np.float64(a.as_float()))))


def ctx():
    c = CtxHolder.cur
    if c is None:
        raise Unsupported('no symbolic context')
    return c


# ---------------------------------------------------------------- z3 bridge
def z3_atom(aid):
    a = ATOMS[aid]
    if a.z3 is None:
        a.z3 = z3.Real('%s!%d' % (a.name, a.id))
    return a.z3


def z3_num(c):
    c = Fraction(c)
    return z3.RealVal(str(c.numerator) if c.denominator == 1 else '%d/%d' % (c.numerator, c.denominator))


def z3_poly(p):
    if p._z is None:
        terms = []
        for m, c in p.key():
            fs = []
            for a, e in m:
                za = z3_atom(a)
                fs.extend([za] * e)
            if not fs:
                terms.append(z3_num(c))
            elif c == 1:
                terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
            else:
                terms.append(z3.Product(z3_num(c), *fs))
        if not terms:
            p._z = z3.RealVal(0)
        elif len(terms) == 1:
            p._z = terms[0]
        else:
            p._z = z3.Sum(*terms)
    return p._z


# ---------------------------------------------------------------- booleans
class B:
    """Symbolic boolean: a z3 formula plus a float evaluator."""
    __slots__ = ('z', 'ev', 'const', 'atoms')
    __array_priority__ = 2000

    def __init__(self, z, ev, const=None, atoms=frozenset()):
        self.z = z
        self.ev = ev        # callable(evaluator) -> True/False/None
        self.const = const
        self.atoms = atoms

    @staticmethod
    def of(v):
        if isinstance(v, B):
            return v
        v = bool(v)
        return TRUE if v else FALSE

    def __bool__(self):
        if self.const is not None:
            return self.const
        return ctx().branch(self)

    def __and__(self, o):
        o = B.of(o)
        if self.const is not None:
            return o if self.const else FALSE
        if o.const is not None:
            return self if o.const else FALSE

        def ev(e):
            a = self.ev(e)
            if a is False:
                return False
            b = o.ev(e)
            if b is False:
                return False
            return None if a is None or b is None else True
        return B(z3.And(self.z, o.z), ev, atoms=self.atoms | o.atoms)
    __rand__ = __and__

    def __or__(self, o):
        o = B.of(o)
        if self.const is not None:
            return TRUE if self.const else o
        if o.const is not None:
            return TRUE if o.const else self

        def ev(e):
            a = self.ev(e)
            if a is True:
                return True
            b = o.ev(e)
            if b is True:
                return True
            return None if a is None or b is None else False
        return B(z3.Or(self.z, o.z), ev, atoms=self.atoms | o.atoms)
    __ror__ = __or__

    def __invert__(self):
        if self.const is not None:
            return FALSE if self.const else TRUE

        def ev(e):
            a = self.ev(e)
            return None if a is None else not a
        return B(z3.Not(self.z), ev, atoms=self.atoms)

    def __xor__(self, o):
        o = B.of(o)
        return (self & ~o) | (~self & o)

    def __eq__(self, o):
        if isinstance(o, (B, bool, np.bool_)):
            return ~(self ^ o)
        return NotImplemented

    def __hash__(self):
        return 0

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __repr__(self):
        return 'B(%s)' % (self.const if self.const is not None else str(self.z)[:80])


TRUE = B(z3.BoolVal(True), lambda e: True, True)
FALSE = B(z3.BoolVal(False), lambda e: False, False)


# ---------------------------------------------------------------- reals
LIMIT_TERMS = 600      # larger numerators are given a name (definition atom)


def _to_frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return Fraction(int(v))
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (float, np.floating)):
        return Fraction(repr(float(v)))
    raise Unsupported('cannot convert %r' % type(v))


class RMeta(type):
    """Makes R look enough like numpy.float64 for the code under test."""
    def __instancecheck__(cls, inst):
        return type.__instancecheck__(cls, inst)


class R(metaclass=RMeta):
    __slots__ = ('k', 'n', 'd', '_key')
    __array_priority__ = 1500

    def __new__(cls, v=0, _raw=None):
        if _raw is not None:
            self = object.__new__(cls)
            self.k, self.n, self.d = _raw
            self._key = None
            return self
        return R.lift(v, strict=True)

    def __init__(self, *a, **k):
        pass

    @staticmethod
    def raw(n, d=()):
        self = object.__new__(R)
        self.k = FIN
        self.n = n
        self.d = d
        self._key = None
        return self

    @staticmethod
    def lift(v, strict=False):
        if isinstance(v, R):
            return v
        if isinstance(v, B):
            return R.raw(Poly.const(1 if bool(v) else 0))
        if isinstance(v, I):
            return v.to_real()
        if isinstance(v, (bool, np.bool_)):
            return R.raw(Poly.const(int(v)))
        if isinstance(v, (int, np.integer)):
            return R.raw(Poly.const(int(v)))
        if isinstance(v, Fraction):
            return R.raw(Poly.const(v))
        if isinstance(v, (float, np.floating)):
            f = float(v)
            if math.isnan(f):
                return NAN
            if math.isinf(f):
                return INF if f > 0 else NEG_INF
            return R.raw(Poly.const(Fraction(repr(f))))
        if isinstance(v, CX):
            if strict:
                return v.re     # numpy: ComplexWarning, discards the imaginary part
            return v
        if isinstance(v, (complex, np.complexfloating)):
            return CX(R.lift(v.real), R.lift(v.imag))
        if isinstance(v, np.ndarray):
            if v.size == 1 and v.ndim == 0:
                return R.lift(v[()], strict)
            if strict and v.ndim:
                from .sarr import SArr, to_sarr
                return to_sarr(v)
        if isinstance(v, str):
            c = CtxHolder.cur
            if c is not None:
                t = c.token_value(v)
                if t is not None:
                    return t
            return R.lift(float(v))
        if strict:
            if v is None or isinstance(v, (list, tuple, dict, set)):
                if isinstance(v, (list, tuple)):
                    from .sarr import to_sarr
                    return to_sarr(v)
                raise TypeError('float() argument must be a string or a real number, not %r' % type(v).__name__)
            if hasattr(v, '__float__'):
                return R.lift(float(v))
            raise TypeError('float() argument must be a string or a real number, not %r' % type(v).__name__)
        return None

    # -- basic queries -----------------------------------------------------
    def is_const(self):
        return self.k != FIN or (not self.d and self.n.is_const())

    def const(self):
        return self.n.const_value()

    def key(self):
        if self._key is None:
            self._key = (self.k, self.n, self.d)
        return self._key

    def atoms(self):
        if self.k != FIN:
            return frozenset()
        s = set(self.n.atoms())
        for p, _ in self.d:
            s |= p.atoms()
        return frozenset(s)

    def as_float(self):
        if self.k == NAN_K:
            return math.nan
        if self.k == PINF:
            return math.inf
        if self.k == NINF:
            return -math.inf
        return float(self.n.const_value())

    # -- coercions ---------------------------------------------------------
    def __float__(self):
        if self.is_const():
            return self.as_float()
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        if self.is_const():
            if self.k == NAN_K:
                raise ValueError('cannot convert float NaN to integer')
            if self.k in (PINF, NINF):
                raise OverflowError('cannot convert float infinity to integer')
            return int(self.n.const_value())
        return ctx().concretise_int(self)

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __trunc__(self):
        return int(self)

    def __complex__(self):
        return complex(float(self))

    def __str__(self):
        if self.is_const():
            return str(np.float64(self.as_float()))
        return ctx().token_for(self, 'str')

    def __repr__(self):
        if self.is_const():
            return repr(self.as_float())
        return 'R(%d terms)' % len(self.n.t) + ('/%d' % len(self.d) if self.d else '')

    def __format__(self, spec):
        if self.is_const():
            return format(self.as_float(), spec)
        return ctx().token_for(self, 'fmt:' + spec)

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    # -- numpy scalar surface ----------------------------------------------
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def astype(self, t, **kw):
        from .sarr import cast_scalar
        return cast_scalar(self, t)

    def tolist(self):
        return self

    def is_integer(self):
        if self.is_const():
            return self.as_float().is_integer()
        raise Unsupported('is_integer')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .sarr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .sarr import function_dispatch
        return function_dispatch(func, types, args, kwargs)

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def sqrt(self):
        return r_sqrt(self)

    # -- arithmetic --------------------------------------------------------
    def __neg__(self):
        if self.k == FIN:
            return R.raw(-self.n, self.d)
        return {NAN_K: NAN, PINF: NEG_INF, NINF: INF}[self.k]

    def __pos__(self):
        return self

    def __abs__(self):
        return r_abs(self)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o2 = R.lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, CX):
            return CX(self + o2.re, o2.im)
        return r_add(self, o2)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o2 = R.lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, CX):
            return CX(self - o2.re, -o2.im)
        return r_add(self, -o2)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o2 = R.lift(o)
        if o2 is None:
            return NotImplemented
        return o2 - self if isinstance(o2, CX) else r_add(o2, -self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o2 = R.lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, CX):
            return CX(self * o2.re, self * o2.im)
        return r_mul(self, o2)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o2 = R.lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, CX):
            return CX(self, ZERO) / o2
        return r_div(self, o2)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o2 = R.lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, CX):
            return o2 / self
        return r_div(o2, self)

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o2 = R.lift(o)
        if o2 is None:
            return NotImplemented
        return r_pow(self, o2)

    def __rpow__(self, o, mod=None):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o2 = R.lift(o)
        if o2 is None:
            return NotImplemented
        return r_pow(o2, self)

    def __floordiv__(self, o):
        return r_floor(self / o)

    def __rfloordiv__(self, o):
        return r_floor(R.lift(o) / self)

    def __mod__(self, o):
        o = R.lift(o)
        return self - o * r_floor(self / o)

    def __rmod__(self, o):
        return R.lift(o) % self

    def __round__(self, nd=None):
        return r_round(self, nd)

    def __floor__(self):
        return int(r_floor(self))

    def __ceil__(self):
        return -int(r_floor(-self))

    # -- comparisons -------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        try:
            o2 = R.lift(o)
        except ValueError:
            o2 = None
        if o2 is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o2, CX):
            if op in ('==', '!='):
                e = r_cmp(self, o2.re, '==') & r_cmp(o2.im, ZERO, '==')
                return e if op == '==' else ~e
            return r_cmp(self, o2.re, op)
        return r_cmp(self, o2, op)

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __reduce__(self):
        raise Unsupported('pickling a symbolic real')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


numbers.Real.register(R)

NAN = R(_raw=(NAN_K, Poly({}), ()))
INF = R(_raw=(PINF, Poly({}), ()))
NEG_INF = R(_raw=(NINF, Poly({}), ()))
ZERO = R.raw(Poly({}))
ONE = R.raw(Poly.const(1))


def R_atom(a):
    return R.raw(Poly.atom(a))


def _sign_const(x):
    """Sign of an R as -1/0/1 (forks when symbolic); nan -> None."""
    if x.k == PINF:
        return 1
    if x.k == NINF:
        return -1
    if x.k == NAN_K:
        return None
    if bool(r_cmp(x, ZERO, '==')):
        return 0
    return 1 if bool(r_cmp(x, ZERO, '>')) else -1


def _den_mul(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    r = dict(d1)
    for p, e in d2:
        r[p] = r.get(p, 0) + e
    return _dkey(r)


def _dkey(r):
    return tuple(sorted(((p, e) for p, e in r.items() if e), key=lambda pe: (hash(pe[0]), pe[1])))


def _expand(d):
    r = Poly.const(1)
    for p, e in d:
        r = r * p.pow(e)
    return r


def _cancel(n, d):
    """Cancel den factors dividing n."""
    if not d or not n.t:
        return n, (() if not n.t else d)
    out = []
    ch = False
    for p, e in d:
        while e:
            q = n.exact_div(p)
            if q is None:
                break
            n = q
            e -= 1
            ch = True
        if e:
            out.append((p, e))
    return n, (tuple(out) if ch else d)


def _mk(n, d):
    n, d = _cancel(n, d)
    r = R.raw(n, d)
    if len(n.t) > LIMIT_TERMS:
        return name_it(r)
    return r


def name_it(r):
    """Give a big rational function a name: fresh atom v with v*den == num."""
    c = ctx()
    key = ('def', r.n, r.d)
    a = c.memo.get(key)
    if a is None:
        a = new_atom('def', 'def', data=r)
        a.evalf = lambda e, r=r: e.val(r)
        a.facts = lambda a=a, r=r: [z3_poly(_expand(r.d)) * z3_atom(a.id) == z3_poly(r.n)]
        a.deps = tuple(r.atoms())
        c.memo[key] = a
    return R_atom(a)


def r_add(a, b):
    if FL.on and a.is_const() and b.is_const():
        return _fl2(a, b, lambda x, y: x + y)
    if a.k or b.k:
        if a.k == NAN_K or b.k == NAN_K:
            return NAN
        if a.k and b.k:
            return a if a.k == b.k else NAN
        return a if a.k else b
    if not a.n.t:
        return b
    if not b.n.t:
        return a
    if a.d == b.d:
        n = a.n + b.n
        return _mk(n, a.d) if a.d else (_mk(n, ()) if len(n.t) > LIMIT_TERMS else R.raw(n))
    da, db = dict(a.d), dict(b.d)
    l = dict(da)
    for p, e in db.items():
        if l.get(p, 0) < e:
            l[p] = e
    na, nb = a.n, b.n
    for p, e in l.items():
        ea = e - da.get(p, 0)
        if ea:
            na = na * p.pow(ea)
        eb = e - db.get(p, 0)
        if eb:
            nb = nb * p.pow(eb)
    return _mk(na + nb, _dkey(l))


def r_mul(a, b):
    if FL.on and a.is_const() and b.is_const():
        return _fl2(a, b, lambda x, y: x * y)
    if a.k or b.k:
        if a.k == NAN_K or b.k == NAN_K:
            return NAN
        sa, sb = _sign_const(a), _sign_const(b)
        s = sa * sb
        return NAN if s == 0 else (INF if s > 0 else NEG_INF)
    if not a.n.t or not b.n.t:
        return ZERO
    an, ad, bn, bd = a.n, a.d, b.n, b.d
    if ad and not bn.is_const():
        bn, ad = _cancel(bn, ad)
    if bd and not an.is_const():
        an, bd = _cancel(an, bd)
    n = an * bn
    d = _den_mul(ad, bd)
    if d and poly.SQ:
        n, d = _cancel(n, d)
    if len(n.t) > LIMIT_TERMS:
        return name_it(R.raw(n, d))
    return R.raw(n, d)


def r_inv(b):
    """1/b for b known nonzero, finite."""
    n = b.n
    num = _expand(b.d)
    cm = n.content_mono()
    den = {}
    if cm:
        n = n.div_mono(cm)
        for a, e in cm:
            den[Poly({((a, 1),): 1})] = e
    c, m = n.monic()
    if not m.is_const():
        den[m] = den.get(m, 0) + 1
        if poly.SQ and len(m.t) <= 12:
            # rationalise single algebraic atoms:  1/(u + v s) = (u - v s)/(u^2 - v^2 s^2)
            pass
    num = num.scale(Fraction(1) / c)
    # algebraic atoms alone in the denominator: 1/s = s/rad
    den2 = {}
    for p, e in den.items():
        if len(p.t) == 1:
            ((mm, cc),) = p.t.items()
            if len(mm) == 1 and mm[0][1] == 1 and mm[0][0] in poly.SQ and poly.SQ[mm[0][0]].t:
                rad = poly.SQ[mm[0][0]]
                for _ in range(e):
                    num = num * p
                if rad.is_const():
                    num = num.scale(Fraction(1) / Fraction(rad.const_value()) ** e)
                    continue
                c2, m2 = rad.monic()
                num = num.scale(Fraction(1) / Fraction(c2) ** e)
                cm2 = m2.content_mono()
                if cm2:
                    m2 = m2.div_mono(cm2)
                    for a, ee in cm2:
                        q = Poly({((a, 1),): 1})
                        den2[q] = den2.get(q, 0) + ee * e
                if not m2.is_const():
                    den2[m2] = den2.get(m2, 0) + e
                continue
        den2[p] = den2.get(p, 0) + e
    num, d = _cancel(num, _dkey(den2))
    return R.raw(num, d)


def r_div(a, b):
    if FL.on and a.is_const() and b.is_const():
        return _fl2(a, b, lambda x, y: x / y)
    if a.k == NAN_K or b.k == NAN_K:
        return NAN
    if b.k:
        if a.k:
            return NAN
        return ZERO
    if b.is_const():
        c = b.const()
        if c == 0:
            s = _sign_const(a)
            return NAN if s in (0, None) else (INF if s > 0 else NEG_INF)
        if a.k:
            return a if c > 0 else -a
        return R.raw(a.n.scale(Fraction(1) / c), a.d)
    if a.k:
        s = _sign_const(b)
        return a if s >= 0 else -a
    if bool(r_cmp(b, ZERO, '==')):
        s = _sign_const(a)
        return NAN if s == 0 else (INF if s > 0 else NEG_INF)
    if a.n == b.n and a.d == b.d:
        return ONE
    return r_mul(a, r_inv(b))


def r_cmp(a, b, op):
    if a.k or b.k:
        if a.k == NAN_K or b.k == NAN_K:
            return TRUE if op == '!=' else FALSE
        fa = {FIN: 0, PINF: 1, NINF: -1}[a.k]
        fb = {FIN: 0, PINF: 1, NINF: -1}[b.k]
        return B.of({'==': fa == fb, '!=': fa != fb, '<': fa < fb, '<=': fa <= fb,
                     '>': fa > fb, '>=': fa >= fb}[op])
    d = a if not b.n.t else r_add(a, -b)
    if d.is_const():
        v = d.const()
        return B.of({'==': v == 0, '!=': v != 0, '<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[op])
    n = d.n
    odd = [p for p, e in d.d if e & 1]

    key = ('cmp', n, tuple(odd), op)
    c = CtxHolder.cur
    if c is not None:
        if c.zeros and not c.raw and n in c.zeros:    # zero by a decomposition's own equations
            return B.of(op in ('==', '<=', '>='))
        got = c.bmemo.get(key)
        if got is not None:
            return got
    if op in ('==', '!='):
        zl = z3_poly(n)
    else:
        zl = z3_poly(n)
        for p in odd:
            zl = zl * z3_poly(p)
    z0 = z3.RealVal(0)
    z = {'==': zl == z0, '!=': zl != z0, '<': zl < z0, '<=': zl <= z0, '>': zl > z0, '>=': zl >= z0}[op]

    def ev(e):
        v, m = e.poly_val(n)
        if v is None:
            return None
        if abs(v) <= 1e-9 * (m + 1e-30):
            if v == 0 and m == 0:
                v = 0.0
            else:
                ex = e.exact(n)
                if ex is None:
                    return None
                v = ex
        if op == '==':
            return v == 0
        if op == '!=':
            return v != 0
        s = 1 if v > 0 else (-1 if v < 0 else 0)
        for p in odd:
            w, mw = e.poly_val(p)
            if w is None or abs(w) <= 1e-9 * mw:
                return None
            if w < 0:
                s = -s
        return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0}[op]
    r = B(z, ev, atoms=d.atoms())
    if c is not None:
        c.bmemo[key] = r
    return r


def r_abs(x):
    if x.k:
        return NAN if x.k == NAN_K else INF
    if x.is_const():
        return R.raw(Poly.const(abs(Fraction(x.const()))))
    if _is_nonneg_atom(x):
        return x
    return x if bool(r_cmp(x, ZERO, '>=')) else -x


def _is_nonneg_atom(x):
    if x.d or len(x.n.t) != 1:
        return False
    ((m, c),) = x.n.t.items()
    return c > 0 and all(ATOMS[a].nonneg or e % 2 == 0 for a, e in m)


def r_sqrt(x, raise_neg=False):
    if isinstance(x, CX):
        raise Unsupported('complex sqrt')
    if FL.on and x.is_const():
        return _fl1(x, np.sqrt)
    if x.k:
        return x if x.k in (NAN_K, PINF) else NAN
    if x.is_const():
        v = Fraction(x.const())
        if v < 0:
            return NAN
        f = poly.frac_sqrt(v)
        if f is not None:
            return R.raw(Poly.const(f))
        # integer square-free-ish radicand: sqrt(p/q) = sqrt(p*q)/q
        return r_div(_sqrt_poly(Poly.const(v.numerator * v.denominator)), R.lift(v.denominator))
    num, den = x.n, x.d
    if den:
        dd = R.raw(_expand(den))
        if not bool(r_cmp(dd, ZERO, '>')):
            num, dd = -num, -dd
        # x = num/dd, dd > 0
        root_d = dd.n.sqrt_exact()
        if root_d is not None:
            rd = R.raw(root_d)
            if not bool(r_cmp(rd, ZERO, '>')):
                rd = -rd
            return r_div(_sqrt_poly_checked(num), rd)
        return r_div(_sqrt_poly_checked(num * dd.n), dd)
    return _sqrt_poly_checked(num)


def _sqrt_poly_checked(p):
    if p.is_const():
        return r_sqrt(R.raw(p))
    r = p.sqrt_exact()
    if r is not None:
        return r_abs(R.raw(r))
    if not _obviously_nonneg(p) and bool(r_cmp(R.raw(p), ZERO, '<')):
        return NAN
    return _sqrt_poly(p)


def _obviously_nonneg(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not ATOMS[a].nonneg:
                return False
    return True


def _sqrt_poly(p):
    """sqrt of a non-negative polynomial: memoised algebraic atom."""
    c = ctx()
    # pull out rational square content
    lead = Fraction(p.t[p.lead()])
    scale = ONE
    if p.is_const():
        # extract square factors of small integers
        v = int(p.const_value())
        s = 1
        for f in (2, 3, 5, 7, 11, 13):
            while v % (f * f) == 0:
                v //= f * f
                s *= f
        p = Poly.const(v)
        scale = R.lift(s)
    else:
        f = poly.frac_sqrt(abs(lead))
        if f is not None and f != 1:
            p = p.scale(Fraction(1) / (f * f))
            scale = R.lift(f)
    key = ('sqrt', p)
    a = c.memo.get(key)
    if a is None:
        pr = R.raw(p)
        a = new_atom('sqrt', 'sqrt', rad=p, nonneg=True)
        a.evalf = lambda e, pr=pr: math.sqrt(max(e.val(pr), 0.0))
        a.facts = lambda a=a, p=p: [z3_atom(a.id) >= 0, z3_atom(a.id) * z3_atom(a.id) == z3_poly(p)]
        a.deps = tuple(p.atoms())
        c.memo[key] = a
    return r_mul(scale, R_atom(a))


def uf(name, args, pyf, facts=None, nonneg=False):
    """Uninterpreted function application, memoised on canonical arguments."""
    c = ctx()
    key = ('uf', name) + tuple(x.key() if isinstance(x, R) else x for x in args)
    a = c.memo.get(key)
    if a is None:
        a = new_atom(name if isinstance(name, str) else str(name[0]), 'uf', data=(name, args), nonneg=nonneg)

        def evalf(e, args=args):
            return pyf(*[e.val(x) if isinstance(x, R) else x for x in args])
        a.evalf = evalf
        if facts is not None:
            a.facts = lambda a=a: facts(z3_atom(a.id))
        deps = set()
        for x in args:
            if isinstance(x, R):
                deps |= x.atoms()
        a.deps = tuple(deps)
        c.memo[key] = a
    return R_atom(a)


def _single_atom(x, kind_name):
    """If x is exactly a UF atom with given name return its args."""
    if x.k or x.d or len(x.n.t) != 1:
        return None
    ((m, c),) = x.n.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    a = ATOMS[m[0][0]]
    if a.kind == 'uf' and a.data[0] == kind_name:
        return a.data[1]
    return None


def _pyexp(v):
    try:
        return math.exp(v)
    except OverflowError:
        return math.inf


def r_exp(x):
    if FL.on and x.is_const():
        return _fl1(x, np.exp)
    if x.k:
        return {NAN_K: NAN, PINF: INF, NINF: ZERO}[x.k]
    if x.is_const() and x.const() == 0:
        return ONE
    a = _single_atom(x, 'log')
    if a is not None:
        return a[0]
    return uf('exp', (x,), _pyexp, lambda z: [z > 0, (z > 1) == r_cmp(x, ZERO, '>').z, (z == 1) == r_cmp(x, ZERO, '==').z], nonneg=True)


def r_log(x):
    if FL.on and x.is_const():
        return _fl1(x, np.log)
    if x.k:
        return {NAN_K: NAN, PINF: INF, NINF: NAN}[x.k]
    if x.is_const():
        v = x.const()
        if v == 1:
            return ZERO
        if v == 0:
            return NEG_INF
        if v < 0:
            return NAN
        fv = math.log(float(v))
        if abs(fv - round(fv)) < 1e-15 and round(fv) != 0:
            return R.lift(int(round(fv)))     # log(e**k) for the float constant e

        lo, hi = Fraction(repr(fv)) - Fraction(1, 10 ** 12), Fraction(repr(fv)) + Fraction(1, 10 ** 12)
        return uf('log', (x,), lambda v: math.log(v),
                  lambda z: [z > z3_num(lo), z < z3_num(hi)], nonneg=fv > 0)
    if bool(r_cmp(x, ZERO, '<=')):
        if bool(r_cmp(x, ZERO, '==')):
            return NEG_INF
        return NAN
    a = _single_atom(x, 'exp')
    if a is not None:
        return a[0]
    zx = x

    def facts(z):
        zl = z3_poly(zx.n)
        for p, e in zx.d:
            if e & 1:
                pass
        if not zx.d:
            return [(z > 0) == (zl > 1), (z == 0) == (zl == 1)]
        return []
    return uf('log', (x,), lambda v: math.log(v) if v > 0 else math.nan, facts)


def r_tanh(x):
    if FL.on and x.is_const():
        return _fl1(x, np.tanh)
    if x.k:
        return {NAN_K: NAN, PINF: ONE, NINF: -ONE}[x.k]
    if x.is_const() and x.const() == 0:
        return ZERO
    # odd function: canonical sign
    s, y = _canon_sign(x)
    r = uf('tanh', (y,), math.tanh, lambda z: [z < 1, z > -1, (z > 0) == r_cmp(y, ZERO, '>').z, (z == 0) == r_cmp(y, ZERO, '==').z])
    return r if s > 0 else -r


def _canon_sign(x):
    c = x.n.t[x.n.lead()]
    return (1, x) if c > 0 else (-1, -x)


def r_sin(x):
    if FL.on and x.is_const():
        return _fl1(x, np.sin)
    if x.k:
        return NAN
    if x.is_const() and x.const() == 0:
        return ZERO
    if x.is_const() and abs(x.const()) == R.lift(math.pi).const():
        return ZERO
    a = _single_atom(x, 'angle')
    if a is not None:
        re, im = a
        return r_div(im, r_sqrt(re * re + im * im))
    s, y = _canon_sign(x)
    r = uf('sin', (y,), math.sin, lambda z: [z <= 1, z >= -1])
    return r if s > 0 else -r


def r_cos(x):
    if FL.on and x.is_const():
        return _fl1(x, np.cos)
    if x.k:
        return NAN
    if x.is_const() and x.const() == 0:
        return ONE
    if x.is_const() and abs(x.const()) == R.lift(math.pi).const():
        return -ONE
    a = _single_atom(x, 'angle')
    if a is not None:
        re, im = a
        return r_div(re, r_sqrt(re * re + im * im))
    s, y = _canon_sign(x)
    c = ctx()
    key = ('cosatom', y.key())
    at = c.memo.get(key)
    if at is None:
        sn = r_sin(y)
        at = new_atom('cos', 'uf', rad=(ONE - sn * sn).n, data=('cos', (y,)))
        at.evalf = lambda e, y=y: math.cos(e.val(y))
        at.facts = lambda at=at: [z3_atom(at.id) * z3_atom(at.id) == z3_poly(at.rad)]
        at.deps = tuple(sn.atoms())
        c.memo[key] = at
    return R_atom(at)


def r_angle(re, im):
    """arctan2(im, re)."""
    if re.k or im.k:
        raise Unsupported('angle of non-finite')
    if bool(im == 0):
        return ZERO if bool(re >= 0) else R.lift(math.pi)
    return uf('angle', (re, im), lambda a, b: math.atan2(b, a),
              lambda z: [z > z3_num(Fraction('-3.14159266')), z < z3_num(Fraction('3.14159266')),
                         (z > 0) == r_cmp(im, ZERO, '>').z, (z < 0) == r_cmp(im, ZERO, '<').z,
                         z3.Implies(r_cmp(re, ZERO, '>=').z, z3.And(z < z3_num(Fraction('1.5707964')), z > z3_num(Fraction('-1.5707964')))),
                         z3.Implies(r_cmp(re, ZERO, '<=').z, z3.Or(z > z3_num(Fraction('1.5707963')), z < z3_num(Fraction('-1.5707963'))))])


def r_pow(a, b):
    if isinstance(a, CX) or isinstance(b, CX):
        raise Unsupported('complex power')
    if FL.on and a.is_const() and b.is_const():
        return _fl2(a, b, np.power)
    if b.is_const() and b.k == FIN:
        e = Fraction(b.const())
        if e.denominator == 1:
            n = int(e)
            if n == 0:
                return ONE
            if a.k:
                if n < 0:
                    return ONE / r_pow(a, -b)
                r = a
                for _ in range(min(n, 4) - 1 if n > 1 else 0):
                    r = r * a
                if n > 4 and (n % 2) == 0:
                    r = a * a
                return r
            if n < 0:
                return r_div(ONE, r_pow(a, -b))
            if n > 64:
                if a.is_const():
                    return R.raw(Poly.const(Fraction(a.const()) ** n))
                raise Unsupported('large power')
            r = ONE
            for _ in range(n):
                r = r_mul(r, a)
            return r
        if e == Fraction(1, 2):
            return r_sqrt(a)
        if e == Fraction(-1, 2):
            return r_div(ONE, r_sqrt(a))
        if a.is_const() and a.k == FIN and a.const() == 0:
            return ZERO if e > 0 else INF
    if a.k or b.k:
        if a.is_const() and b.is_const():
            try:
                return R.lift(float(np.float64(a.as_float()) ** np.float64(b.as_float())))
            except Exception:
                pass
        raise Unsupported('power of non-finite')
    if a.is_const():
        if a.const() == 1:
            return ONE
        if a.const() > 0:
            base = a

            def f(v):
                try:
                    return float(base.const()) ** v
                except OverflowError:
                    return math.inf
            return uf(('powc', base.const()), (b,), f, lambda z: [z > 0], nonneg=True)
    if b.is_const():
        if bool(a < 0):
            return NAN

    def f2(x, y):
        try:
            return x ** y
        except Exception:
            return math.nan
    return uf('pow', (a, b), f2, lambda z: [z >= 0], nonneg=True)


def r_floor(x):
    if x.k:
        return x
    if x.is_const():
        return R.raw(Poly.const(math.floor(Fraction(x.const()))))
    c = ctx()
    key = ('floor', x.key())
    a = c.memo.get(key)
    if a is None:
        a = new_atom('floor', 'uf', data=('floor', (x,)))
        a.evalf = lambda e, x=x: math.floor(e.val(x))

        def facts(a=a, x=x):
            if x.d:
                raise Unsupported('floor of a quotient')
            iv = z3.ToInt(z3_poly(x.n))
            return [z3_atom(a.id) == z3.ToReal(iv)]
        a.facts = facts
        a.deps = tuple(x.atoms())
        c.memo[key] = a
    return R_atom(a)


def r_round(x, nd=None):
    if x.k:
        return x
    if x.is_const():
        v = round(Fraction(x.const()), nd or 0)
        return R.raw(Poly.const(v))
    s = R.lift(10 ** (nd or 0)) if not (nd and nd < 0) else R.lift(Fraction(1, 10 ** (-nd)))
    # round-half-even modelled as floor(x+1/2) away from ties
    return r_floor(x * s + Fraction(1, 2)) / s


def r_max(a, b):
    if a.k == NAN_K or b.k == NAN_K:
        return NAN
    return a if bool(a >= b) else b


def r_min(a, b):
    if a.k == NAN_K or b.k == NAN_K:
        return NAN
    return a if bool(a <= b) else b


def r_sign(a):
    if a.k == NAN_K:
        return NAN
    if bool(a > 0):
        return ONE
    return -ONE if bool(a < 0) else ZERO


# ---------------------------------------------------------------- complex
class CX:
    __slots__ = ('re', 'im')
    __array_priority__ = 1600

    def __init__(self, re, im=None):
        self.re = R.lift(re)
        self.im = ZERO if im is None else R.lift(im)

    @staticmethod
    def lift(v):
        if isinstance(v, CX):
            return v
        r = R.lift(v)
        if r is None:
            return None
        if isinstance(r, CX):
            return r
        return CX(r, ZERO)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return CX(self.re, -self.im)

    conj = conjugate

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .sarr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = CX.lift(o)
        return NotImplemented if o is None else CX(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return CX(-self.re, -self.im)

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = CX.lift(o)
        return NotImplemented if o is None else CX(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = CX.lift(o)
        if o is None:
            return NotImplemented
        return CX(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = CX.lift(o)
        if o is None:
            return NotImplemented
        if o.im.is_const() and o.im.k == FIN and o.im.const() == 0:
            return CX(self.re / o.re, self.im / o.re)
        m = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return CX(n.re / m, n.im / m)

    def __rtruediv__(self, o):
        return CX.lift(o) / self

    def __abs__(self):
        return r_sqrt(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = CX.lift(o)
        return NotImplemented if o is None else (self.re == o.re) & (self.im == o.im)

    def __ne__(self, o):
        e = self.__eq__(o)
        return e if e is NotImplemented else ~e

    def __lt__(self, o):
        return self.re < CX.lift(o).re

    def __gt__(self, o):
        return self.re > CX.lift(o).re

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o < 20:
            r = CX(ONE)
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('complex power')

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __float__(self):
        raise TypeError("can't convert complex to float")


# ---------------------------------------------------------------- ints
class I:
    """Symbolic Python int (z3 Int)."""
    __slots__ = ('z', 'name')
    __array_priority__ = 1400

    def __init__(self, z, name=None):
        self.z = z
        self.name = name

    @staticmethod
    def lift(v):
        if isinstance(v, I):
            return v
        if isinstance(v, (bool, np.bool_, int, np.integer)):
            return I(z3.IntVal(int(v)))
        return None

    def const(self):
        s = z3.simplify(self.z)
        return s.as_long() if z3.is_int_value(s) else None

    def to_real(self):
        c = self.const()
        if c is not None:
            return R.lift(c)
        cc = ctx()
        key = ('i2r', self.z.get_id(), str(self.z))
        a = cc.memo.get(key)
        if a is None:
            a = new_atom('i2r', 'uf', data=('i2r', ()))
            a.evalf = lambda e, z=self.z: e.int_val(z)
            a.facts = lambda a=a, z=self.z: [z3_atom(a.id) == z3.ToReal(z)]
            cc.memo[key] = a
        return R_atom(a)

    def _bin(self, o, f):
        if isinstance(o, (float, R, Fraction, np.floating)):
            return None
        o = I.lift(o)
        if o is None:
            return NotImplemented
        return I(f(self.z, o.z))

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b)
        return self.to_real() + o if r is None else r
    __radd__ = __add__

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        return self.to_real() - o if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b - a)
        return R.lift(o) - self.to_real() if r is None else r

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        r = self._bin(o, lambda a, b: a * b)
        return self.to_real() * o if r is None else r
    __rmul__ = __mul__

    def __neg__(self):
        return I(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __truediv__(self, o):
        return self.to_real() / R.lift(o)

    def __rtruediv__(self, o):
        return R.lift(o) / self.to_real()

    def _divmod(self, a, b):
        # python floor division from z3 Euclidean division
        if bool(I(b) == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if bool(I(b) > 0):
            return a / b, a % b
        # b<0: floor(a/b) = floor((-a)/(-b))
        q = (-a) / (-b)
        return q, a - b * q

    def __floordiv__(self, o):
        o = I.lift(o)
        if o is None:
            return NotImplemented
        return I(self._divmod(self.z, o.z)[0])

    def __rfloordiv__(self, o):
        return I.lift(o) // self

    def __mod__(self, o):
        o = I.lift(o)
        if o is None:
            return NotImplemented
        return I(self._divmod(self.z, o.z)[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return I.lift(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = I(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __and__(self, o):
        if isinstance(o, int) and o > 0 and (o & (o + 1)) == 0:
            return I(self.z % (o + 1))
        raise Unsupported('symbolic int bit-and')

    def _cmp(self, o, f, op):
        if isinstance(o, (float, R, np.floating)):
            return r_cmp(self.to_real(), R.lift(o), op)
        o = I.lift(o)
        if o is None:
            return NotImplemented
        z = z3.simplify(f(self.z, o.z))
        if z3.is_true(z):
            return TRUE
        if z3.is_false(z):
            return FALSE
        return B(z, lambda e, z=z: e.int_bool(z))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, '==')

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, '!=')

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '<')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '<=')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '>')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '>=')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 0

    def __index__(self):
        c = self.const()
        if c is not None:
            return c
        return ctx().concretise(self)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __str__(self):
        return str(self.__index__())

    __repr__ = __str__

    def __format__(self, s):
        return format(self.__index__(), s)

    def bit_length(self):
        v = self if bool(self >= 0) else -self
        n = 0
        while n < 80:
            if bool(v < 2 ** n):
                return n
            n += 1
        raise Unsupported('bit_length beyond bound')

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .symbytes import int_to_bytes
        return int_to_bytes(self, length, byteorder, signed)

    @property
    def real(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .sarr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)


numbers.Integral.register(I)
