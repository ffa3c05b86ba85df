"""The two faces of a scenario: symbolic environment and concrete replay."""
import io
import math
import os
import shutil
import struct
import tempfile
from fractions import Fraction

import numpy as np
import z3

from . import sym
from .poly import new_atom, ATOMS
from .sym import R, B, I, CX, R_atom, z3_atom, z3_num, z3_poly, TRUE, FALSE, FIN, NAN, INF, NEG_INF, Unsupported, ctx
from .stubs import vfs, vfs_open, SymBytesIO
from .symbytes import SymStr, SymBytes, decode_double
from .explore import Claim, AssumeFailed, NVAR


class Scenario:
    def __init__(self, name, fn, params=None, time_limit=None, known=(), tier='quick', weight=1.0, max_paths=None):
        self.name, self.fn, self.params = name, fn, params or {}
        self.time_limit = time_limit
        self.known = set(known)
        self.tier = tier
        self.weight = weight
        self.max_paths = max_paths

    def is_known(self, label):
        return label in self.known


class BaseEnv:
    tol = 1e-6

    # -- structure ---------------------------------------------------------
    def flat(self, v):
        """(shape, list of scalars) of a scalar / list / array / Matrix."""
        if v is None or isinstance(v, (str, bytes)):
            return ('lit',), [v]
        d = getattr(v, 'data', None)
        if isinstance(d, np.ndarray) and not isinstance(v, np.ndarray):
            v = d
        if isinstance(v, np.ndarray):
            return tuple(v.shape), list(v.view(np.ndarray).flat) if v.dtype == object else list(v.flat)
        if isinstance(v, (list, tuple)):
            subs = [self.flat(x) for x in v]
            shp = ('seq', len(v)) + tuple(s[0] for s in subs)
            if subs and all(s[0] == subs[0][0] and 'lit' not in s[0] and (not s[0] or s[0][0] != 'seq') for s in subs):
                shp = (len(v),) + subs[0][0]
            return shp, [x for s in subs for x in s[1]]
        return (), [v]

    def eq(self, a, b, tol=None):
        sa, fa = self.flat(a)
        sb, fb = self.flat(b)
        if sa != sb:
            return self.lit(False, 'shape %s vs %s' % (sa, sb))
        return self.conj([self.eq1(x, y, tol) for x, y in zip(fa, fb)])

    def lit(self, ok, info=''):
        if self.symbolic:
            return Claim(b=TRUE if ok else FALSE, neg=[z3.BoolVal(True)] if not ok else [], info=info if isinstance(info, (str, int, float, bool, type(None))) else str(info)[:200])
        return Claim(ok=bool(ok), info=info if isinstance(info, (str, int, float, bool, type(None))) else str(info)[:200])

    def shape(self, m, r, c):
        d = m.data
        return self.lit(tuple(d.shape) == (r, c), 'shape %s expected %s' % (d.shape, (r, c)))

    # -- construction ------------------------------------------------------
    def matrix(self, name, r, c, lo=None, hi=None):
        vals = [[self.real('%s_%d_%d' % (name, i, j), lo, hi) for j in range(c)] for i in range(r)]
        return self.M(vals)

    def vec(self, name, n, lo=None, hi=None):
        return [self.real('%s_%d' % (name, i), lo, hi) for i in range(n)]

    def Matrix(self):
        return self.lib('wai.ma.core.matrix').Matrix

    def attempt(self, fn, *a, **k):
        try:
            return True, fn(*a, **k)
        except Exception as e:
            return False, e

    def check(self, label, *claims):
        raise NotImplementedError

    def choose(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, ex, c):
        self.ex = ex
        self.c = c
        self.pending = []
        self.observed = []
        self.nchecks = 0

    def lib(self, name):
        return self.ex.libs.sym.load(name)

    # -- scratch files -------------------------------------------------------
    def scratch(self):
        return '/vfs/cwd'

    def read_bytes(self, path):
        with vfs_open(path, 'rb') as f:
            return f.read()

    def read_text(self, path):
        with vfs_open(path, 'r') as f:
            return f.read()

    def path_exists(self, path):
        return vfs().exists(path)

    def open(self, path, mode='r'):
        return vfs_open(path, mode)

    def new_bytesio(self):
        return SymBytesIO()

    def text(self, name, n):
        cps = [self.int('%s_%d' % (name, i), 0, 0x10FFFF) for i in range(n)]
        for c in cps:
            self.assume((c < 0xD800) | (c > 0xDFFF))
        return SymStr(cps)

    def cps(self, s):
        return list(s.cps) if isinstance(s, SymStr) else [ord(c) for c in s]

    def double(self, b):
        return decode_double(list(b))

    def real(self, name, lo=None, hi=None):
        a = self.ex.inputs.get(name)
        if a is None:
            rnd = self.ex.rnd
            l = Fraction(-4 if lo is None else lo)
            h = Fraction(4 if hi is None else hi)
            if lo is None and hi is not None and l >= h:
                l = h - 4
            if hi is None and lo is not None and l >= h:
                h = l + 4
            den = 512
            a = new_atom(name, 'in', data={'lo': l, 'hi': h, 'def': [l + (h - l) * Fraction(2 * rnd.randint(0, den // 2 - 1) + 1, den) for _ in range(NVAR)]},
                         nonneg=(lo is not None and lo >= 0))
            self.ex.inputs[name] = a
            b = []
            if lo is not None:
                b.append(z3_atom(a.id) >= z3_num(Fraction(lo)))
            if hi is not None:
                b.append(z3_atom(a.id) <= z3_num(Fraction(hi)))
            if b:
                a.facts = lambda b=b: b
        return R_atom(a)

    def int(self, name, lo, hi):
        if lo == hi:
            return I(z3.IntVal(lo))
        if name not in self.ex.int_inputs:
            rnd = self.ex.rnd
            self.ex.int_inputs[name] = (lo, hi, [rnd.randint(lo, hi) for _ in range(NVAR)])
        z = z3.Int(name)
        i = I(z, name)
        self.c.assume((i >= lo) & (i <= hi))
        return i

    def const(self, v):
        return R.lift(Fraction(v) if isinstance(v, str) else v)

    def nan(self):
        return NAN

    def inf(self, s=1):
        return INF if s > 0 else NEG_INF

    def doubles(self):
        """From here on arithmetic among constants rounds to doubles, as in the real code; equalities of results hold up to 1e-9 relative."""
        sym.FL.on = True

    def M(self, rows):
        from .sarr import to_sarr
        return self.Matrix()(to_sarr(rows))

    def arr(self, rows):
        from .sarr import to_sarr
        return to_sarr(rows)

    def assume(self, b):
        if isinstance(b, Claim):
            b = b.b
        self.c.assume(b)

    def sqrt(self, x):
        return sym.r_sqrt(R.lift(x))

    def exp(self, x):
        return sym.r_exp(R.lift(x))

    def log(self, x):
        return sym.r_log(R.lift(x))

    def tanh(self, x):
        return sym.r_tanh(R.lift(x))

    def ne(self, x, y):
        return R.lift(x) != R.lift(y)

    # -- claims ------------------------------------------------------------
    def eq1(self, x, y, tol=None, obs=True):
        if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)) or x is None or y is None:
            return self.lit(type(x) == type(y) and x == y, '%r vs %r' % (x, y))
        if isinstance(x, (bool, np.bool_, B)) and isinstance(y, (bool, np.bool_, B)):
            b = ~(B.of(x) ^ B.of(y))
            return Claim(b=b, neg=[z3.Not(b.z)])
        if isinstance(x, CX) or isinstance(y, CX):
            x, y = CX.lift(x), CX.lift(y)
            self.observed.append(('l', x))
            self.observed.append(('r', y))
            return self.conj([self.eq1(x.re, y.re, tol, False), self.eq1(x.im, y.im, tol, False)])
        x, y = R.lift(x), R.lift(y)
        if x is None or y is None:
            return self.lit(False, 'incomparable')
        if isinstance(x, CX) or isinstance(y, CX):
            return self.eq1(CX.lift(x), CX.lift(y))
        if obs:
            self.observed.append(('l', x))
            self.observed.append(('r', y))
        if x.k or y.k:
            return self.lit(x.k == y.k, 'kinds')
        b = sym.r_cmp(x, y, '==')
        if b.const is True:
            self.ex.norm_pairs.append((x, y)) if len(self.ex.norm_pairs) < 400 else None
            return Claim(b=b, neg=[])
        d = x - y
        if sym.FL.on and not d.k and d.n.is_small(x.n, y.n):
            return Claim(b=TRUE, neg=[])
        neg = []
        for t in (Fraction(1, 2), Fraction(1, 50)):
            neg.append(z3.Or(sym.r_cmp(d, R.lift(t), '>').z, sym.r_cmp(d, R.lift(-t), '<').z))
        neg.append(z3.Not(b.z))
        return Claim(b=b, neg=neg)

    def conj(self, cs):
        b = TRUE
        negs = [[], [], []]
        info = ''
        for c in cs:
            if c.b.const is True:
                continue
            info = info or c.info
            b = b & c.b
            for i in range(3):
                if c.neg:
                    negs[i].append(c.neg[min(i, len(c.neg) - 1)])
        return Claim(b=b, neg=[z3.Or(*n) for n in negs if n], info=info if isinstance(info, (str, int, float, bool, type(None))) else str(info)[:200])

    def disj(self, cs):
        b = FALSE
        for c in cs:
            b = b | c.b
        if b.const is True:
            return Claim(b=b, neg=[])
        negs = [z3.And(*[c.neg[min(i, len(c.neg) - 1)] for c in cs]) for i in range(3)] if all(c.neg for c in cs) else []
        return Claim(b=b, neg=negs, info=' / '.join(c.info for c in cs))

    def true(self, b, info=''):
        if isinstance(b, Claim):
            return b
        b = B.of(b)
        return Claim(b=b, neg=[z3.Not(b.z)], info=info if isinstance(info, (str, int, float, bool, type(None))) else str(info)[:200])

    def _ineq(self, x, y, op, slack):
        x, y = R.lift(x), R.lift(y)
        b = sym.r_cmp(x, y, op)
        if x.k or y.k:
            return Claim(b=b, neg=[z3.Not(b.z)])
        # robust violation: off by a margin
        d = x - y
        m = Fraction(1, 20)
        rb = sym.r_cmp(d, R.lift(m), '>') if op in ('<', '<=') else sym.r_cmp(d, R.lift(-m), '<')
        return Claim(b=b, neg=[rb.z, z3.Not(b.z)])

    def le(self, x, y, slack=1e-7):
        return self._ineq(x, y, '<=', slack)

    def ge(self, x, y, slack=1e-7):
        return self._ineq(x, y, '>=', slack)

    def lt(self, x, y, slack=0):
        return self._ineq(x, y, '<', slack)

    def gt(self, x, y, slack=0):
        return self._ineq(x, y, '>', slack)

    def isnan(self, x):
        return self.lit(R.lift(x).k == sym.NAN_K, 'isnan')

    def decide(self, b):
        """Branch the scenario itself on a condition."""
        if isinstance(b, Claim):
            b = b.b
        return bool(b)

    def check(self, label, *claims):
        self.nchecks += 1
        st = self.ex.stats
        for c in claims:
            st.add('claims')
            if c.b.const is True:
                st.add('claims_normal_form')
                continue
            if c.b.const is False:
                self.pending.append((label, [z3.BoolVal(True)], (), 'false'))
                continue
            res, model = self.c._check([z3.Not(c.b.z)], c.b.atoms, self.ex.claim_timeout)
            if res == z3.unsat:
                continue
            if res == z3.unknown:
                st.add('claims_unknown')
                self.ex.unknown_labels[label] = self.ex.unknown_labels.get(label, 0) + 1
            self.pending.append((label, c.neg or [z3.Not(c.b.z)], c.b.atoms, 'sat' if res == z3.sat else 'unknown'))

    def exception(self, e):
        self.ex.notes.add('exception %s: %s' % (type(e).__name__, str(e)[:80]))
        self.pending.append(('exception %s' % type(e).__name__, [z3.BoolVal(True)], (), 'exc'))


class ConcEnv(BaseEnv):
    symbolic = False

    def __init__(self, ex, named, loose=None):
        self.ex = ex
        self.named = named
        self.failed = []
        self.observed = []
        self.passed = 0
        self.loose = loose or 0.0
        self._dirs = []
        self._cwd = None

    # -- scratch files -------------------------------------------------------
    def scratch(self):
        """A scratch directory that is also the current directory."""
        d = tempfile.mkdtemp(prefix='verif_mc_')
        self._dirs.append(d)
        if self._cwd is None:
            self._cwd = os.getcwd()
        os.chdir(d)
        return d

    def close(self):
        if self._cwd is not None:
            os.chdir(self._cwd)
            self._cwd = None
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []

    def read_bytes(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def read_text(self, path):
        with open(path, 'r') as f:
            return f.read()

    def path_exists(self, path):
        return os.path.exists(path)

    def open(self, path, mode='r'):
        return open(path, mode)

    def new_bytesio(self):
        return io.BytesIO()

    def text(self, name, n):
        cps = [self.int('%s_%d' % (name, i), 0, 0x10FFFF) for i in range(n)]
        if any(0xD800 <= c <= 0xDFFF for c in cps):
            raise AssumeFailed()
        return ''.join(chr(c) for c in cps)

    def cps(self, s):
        return [ord(c) for c in s]

    def double(self, b):
        if len(b) != 8:
            return None
        return np.float64(struct.unpack('<d', bytes(b))[0])

    def lib(self, name):
        return self.ex.libs.conc.load(name)

    def real(self, name, lo=None, hi=None):
        v = self.named.get(name)
        if v is None:
            v = 0.5 if lo is None else float(lo) + 0.5
        v = Fraction(v)
        if (lo is not None and v < Fraction(lo)) or (hi is not None and v > Fraction(hi)):
            raise AssumeFailed()
        return np.float64(float(v))

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = int(self.named.get(name, lo))
        if v < lo or v > hi:
            raise AssumeFailed()
        return v

    def const(self, v):
        return np.float64(float(Fraction(v)) if not isinstance(v, float) else v)

    def nan(self):
        return np.float64('nan')

    def inf(self, s=1):
        return np.float64(math.inf * s)

    def doubles(self):
        pass

    def M(self, rows):
        return self.Matrix()(np.array(rows, dtype=np.float64))

    def arr(self, rows):
        return np.array(rows, dtype=np.float64)

    def assume(self, b):
        if isinstance(b, Claim):
            b = b.ok
        if not bool(b):
            raise AssumeFailed()

    def sqrt(self, x):
        return np.sqrt(np.float64(x))

    def exp(self, x):
        return np.exp(np.float64(x))

    def log(self, x):
        return np.log(np.float64(x))

    def tanh(self, x):
        return np.tanh(np.float64(x))

    def ne(self, x, y):
        return abs(complex(x) - complex(y)) > 1e-9

    def eq1(self, x, y, tol=None):
        if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)) or x is None or y is None:
            return self.lit(type(x) == type(y) and x == y, '%r vs %r' % (x, y))
        if isinstance(x, (bool, np.bool_)) and isinstance(y, (bool, np.bool_)):
            return self.lit(bool(x) == bool(y), '%r vs %r' % (x, y))
        try:
            xc, yc = complex(x), complex(y)
        except Exception:
            return self.lit(False, 'incomparable %r %r' % (x, y))
        if isinstance(x, (complex, np.complexfloating)) or isinstance(y, (complex, np.complexfloating)):
            if self.ex_complex(x) or self.ex_complex(y):
                pass
        self.observed.append(('l', xc))
        self.observed.append(('r', yc))
        t = max(self.tol if tol is None else tol, self.loose)
        ok = True
        for p, q in ((xc.real, yc.real), (xc.imag, yc.imag)):
            if math.isnan(p) or math.isnan(q):
                ok = ok and math.isnan(p) and math.isnan(q)
            elif math.isinf(p) or math.isinf(q):
                ok = ok and p == q
            else:
                ok = ok and abs(p - q) <= t * (1 + max(abs(p), abs(q)))
        return self.lit(ok, '%r vs %r' % (x, y))

    def ex_complex(self, x):
        return isinstance(x, (complex, np.complexfloating)) and x.imag != 0

    def conj(self, cs):
        bad = [c for c in cs if not c.ok]
        return Claim(ok=not bad, info=bad[0].info if bad else '')

    def true(self, b, info=''):
        if isinstance(b, Claim):
            return b
        return Claim(ok=bool(b), info=info if isinstance(info, (str, int, float, bool, type(None))) else str(info)[:200])

    def disj(self, cs):
        return Claim(ok=any(c.ok for c in cs), info=' / '.join(c.info for c in cs))

    def _f(self, x):
        return float(np.real(x))

    def le(self, x, y, slack=1e-7):
        x, y = self._f(x), self._f(y)
        return Claim(ok=x <= y + max(slack, self.loose) * (1 + abs(y)), info='%r <= %r' % (x, y))

    def ge(self, x, y, slack=1e-7):
        x, y = self._f(x), self._f(y)
        return Claim(ok=x >= y - max(slack, self.loose) * (1 + abs(y)), info='%r >= %r' % (x, y))

    def lt(self, x, y, slack=0):
        x, y = self._f(x), self._f(y)
        return Claim(ok=x < y + max(slack, self.loose * (1 + abs(y))), info='%r < %r' % (x, y))

    def gt(self, x, y, slack=0):
        x, y = self._f(x), self._f(y)
        return Claim(ok=x > y - max(slack, self.loose * (1 + abs(y))), info='%r > %r' % (x, y))

    def isnan(self, x):
        return self.lit(math.isnan(x), 'isnan %r' % x)

    def decide(self, b):
        if isinstance(b, Claim):
            return bool(b.ok)
        return bool(b)

    def check(self, label, *claims):
        for c in claims:
            if not c.ok:
                self.failed.append((label, c.info, None))
            else:
                self.passed += 1

    def exception(self, e):
        self.failed.append(('exception %s' % type(e).__name__, str(e)[:200], None))
