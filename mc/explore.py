"""Path exploration by re-execution, SMT queries, counterexample replay."""
import math
import random
import time
import zlib
from fractions import Fraction

import numpy as np
import z3

from . import poly, sym
from .sarr import NARROWED
from .poly import ATOMS, Poly, new_atom
from .sym import R, B, I, CX, CtxHolder, Unsupported, PathAbort, R_atom, z3_atom, z3_num, z3_poly, TRUE, FALSE, FIN, FL


NVAR = 3


class AssumeFailed(BaseException):
    pass


class Budget(BaseException):
    pass


# ------------------------------------------------------------------ evaluator
class Evaluator:
    """Float evaluation of symbolic values under an assignment of the inputs."""

    def __init__(self, assign, ints, variant=0, ex=None):
        self.assign = assign        # atom id -> Fraction or float
        self.ints = ints            # z3 int name -> int
        self.variant = variant      # default values for inputs without assignment
        self.ex = ex
        self.cache = {}
        self.avals = {}

    def input(self, aid):
        v = self.assign.get(aid)
        if v is None:
            v = ATOMS[aid].data['def'][self.variant]
        return v

    def int_input(self, n):
        v = self.ints.get(n)
        if v is None:
            v = self.ex.int_inputs[n][2][self.variant]
        return v

    def _subs(self):
        return [(z3.Int(n), z3.IntVal(self.int_input(n))) for n in self.ex.int_inputs]

    def atom(self, aid):
        v = self.avals.get(aid)
        if v is None:
            a = ATOMS[aid]
            if a.kind == 'in':
                v = float(self.input(aid))
            else:
                try:
                    v = float(a.evalf(self))
                except (OverflowError, ZeroDivisionError, ValueError):
                    v = math.nan
            self.avals[aid] = v
        return v

    def poly_val(self, p):
        s = 0.0
        m = 0.0
        for mono, c in p.t.items():
            t = float(c)
            for a, e in mono:
                t *= self.atom(a) ** e
            s += t
            m += abs(t)
        if s != s:
            return None, None
        return s, m

    def exact(self, p):
        s = Fraction(0)
        for mono, c in p.t.items():
            t = Fraction(c)
            for a, e in mono:
                if ATOMS[a].kind != 'in':
                    return None
                v = self.input(a)
                if isinstance(v, float):
                    return None
                t *= Fraction(v) ** e
            s += t
        return s

    def val(self, r):
        if isinstance(r, R):
            if r.k == sym.NAN_K:
                return math.nan
            if r.k == sym.PINF:
                return math.inf
            if r.k == sym.NINF:
                return -math.inf
            v, _ = self.poly_val(r.n)
            if v is None:
                return math.nan
            for p, e in r.d:
                w, _ = self.poly_val(p)
                if not w:
                    return math.nan
                v /= w ** e
            return v
        if isinstance(r, CX):
            return complex(self.val(r.re), self.val(r.im))
        if isinstance(r, I):
            return self.int_val(r.z)
        if isinstance(r, B):
            return r.ev(self)
        return r

    def int_val(self, z):
        subs = self._subs()
        s = z3.simplify(z3.substitute(z, *subs))
        return s.as_long() if z3.is_int_value(s) else math.nan

    def int_bool(self, z):
        subs = self._subs()
        s = z3.simplify(z3.substitute(z, *subs))
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return None


class Stats:
    def __init__(self):
        self.d = {'paths': 0, 'branches': 0, 'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0,
                  'claims': 0, 'claims_normal_form': 0, 'replays': 0, 'replay_mismatch': 0, 'unsupported': 0,
                  'unwitnessed_paths': 0, 'claims_unknown': 0, 'unconfirmed': 0, 'truncated': 0,
                  'unknown_branches': 0, 'infeasible': 0, 'rounding_only': 0, 'normal_confirmed': 0}

    def add(self, k, v=1):
        self.d[k] += v


def closure_facts(aids, light_only):
    """Facts of all atoms reachable from aids."""
    seen = set()
    todo = list(aids)
    facts = []
    heavy = False
    blocks = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        a = ATOMS[x]
        if a.facts is None:
            todo.extend(a.deps)
            continue
        if a.kind in ('def', 'op'):
            heavy = True
            if light_only:
                continue
            if a.kind == 'op':
                if id(a.facts) in blocks:
                    continue
                blocks.add(id(a.facts))
        todo.extend(a.deps)
        facts.extend(a.facts())
    return facts, heavy


class Ctx:
    def __init__(self, ex, prefix, witnesses):
        self.ex = ex
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pc = []                # list of B
        self.pc_atoms = set()
        self.witnesses = list(witnesses)
        self.memo = ex.memo
        self.bmemo = ex.bmemo
        self.zeros = ex.zeros
        self.raw = False
        self.stats = ex.stats
        self.solver = None
        self.tokens = ex.tokens
        self.spectra = []
        self.svds = []
        self.uncertain = False
        self.alts = []
        self.conc_n = 0

    # -- notes -------------------------------------------------------------
    def note(self, s):
        self.ex.notes.add(s)

    # -- registered decompositions ----------------------------------------
    def register_spectrum(self, a, w, v):
        from . import lin
        from .sarr import obj
        self.spectra.append((lin.nums(obj(a)), list(w), lin.nums(obj(v))))

    def lookup_spectrum(self, a):
        from . import lin
        for m, w, v in self.spectra:
            if m.shape == a.shape and all(lin.bool_const_eq(x, y) for x, y in zip(m.flat, a.flat)):
                wo = np.empty(len(w), dtype=object)
                for i, x in enumerate(w):
                    wo[i] = x
                vo = v.copy()
                n = len(w)
                for j in range(n):
                    def ev(e, j=j, m=m, v=v):
                        mt = lin.evaluate_matrix(e, m)
                        ww, vv = np.linalg.eig(mt)
                        mine = np.array([e.val(v[i, j]) for i in range(n)])
                        k = max(range(n), key=lambda q: abs(np.dot(np.real(vv[:, q]), mine)))
                        return 1.0 if np.dot(np.real(vv[:, k]), mine) >= 0 else -1.0
                    sg = lin.sign_atom('eigsgn', (lin.akey(m), j), ev)
                    for i in range(n):
                        vo[i, j] = sg * vo[i, j]
                return wo, vo
        return None

    def register_svd(self, a, u, s, vh):
        from . import lin
        from .sarr import obj
        self.svds.append((lin.nums(obj(a)), lin.nums(obj(u)), list(s), lin.nums(obj(vh))))

    def lookup_svd(self, a):
        from . import lin
        for m, u, s, vh in self.svds:
            if m.shape == a.shape and all(lin.bool_const_eq(x, y) for x, y in zip(m.flat, a.flat)):
                k = len(s)
                uo, vo = u.copy(), vh.copy()
                so = np.empty(k, dtype=object)
                for j in range(k):
                    so[j] = s[j]

                    def ev(e, j=j, m=m, u=u):
                        mt = lin.evaluate_matrix(e, m)
                        uu, ss, vv = np.linalg.svd(mt, full_matrices=False)
                        mine = np.array([e.val(u[i, j]) for i in range(u.shape[0])])
                        return 1.0 if np.dot(uu[:, j], mine) >= 0 else -1.0
                    sg = lin.sign_atom('svdsgn', (lin.akey(m), j), ev)
                    for i in range(u.shape[0]):
                        uo[i, j] = sg * uo[i, j]
                    for i in range(vh.shape[1]):
                        vo[j, i] = sg * vo[j, i]
                return uo, so, vo
        return None

    # -- tokens (text form of symbolic values) ------------------------------
    def token_for(self, r, fmt):
        key = (r.key(), fmt)
        t = self.tokens['by_val'].get(key)
        if t is None:
            t = '<sym%d>' % len(self.tokens['by_val'])
            self.tokens['by_val'][key] = t
            self.tokens['by_tok'][t] = (r, fmt)
        return t

    def token_value(self, s):
        t = self.tokens['by_tok'].get(s.strip())
        if t is None:
            if '<sym' in s:
                raise ValueError('could not convert string to float: %r' % s)
            return None
        r, fmt = t
        if fmt in ('str', 'repr'):
            return r
        kind, _, prec = fmt.partition(':')
        if kind == 'fix' and prec.isdigit():
            h = Fraction(1, 2 * 10 ** int(prec))
            ev = lambda v: float(np.format_float_positional(v, precision=int(prec), unique=False, fractional=True))
            return sym.uf(('parse', fmt), (r,), ev, lambda z: [] if r.d else
                          [z - z3_poly(r.n) <= z3_num(h), z3_poly(r.n) - z <= z3_num(h)])
        if kind == 'sci' and prec.isdigit():
            h = Fraction(51, 100 * 10 ** int(prec))
            ev = lambda v: float(np.format_float_scientific(v, precision=int(prec)))

            def facts(z):
                if r.d:
                    return []
                x = z3_poly(r.n)
                ax = z3.If(x >= 0, x, -x)
                return [z - x <= ax * z3_num(h), x - z <= ax * z3_num(h)]
            return sym.uf(('parse', fmt), (r,), ev, facts)
        return sym.uf(('parse', fmt), (r,), lambda v: v)

    # -- solver ------------------------------------------------------------
    def _check(self, extra, atoms, timeout, want_model=False):
        """sat/unsat/unknown of pc & facts & extra."""
        st = self.stats
        allat = set(self.pc_atoms) | set(atoms)
        res = z3.unknown
        model = None
        had_heavy = False
        for light in (True, False):
            facts, heavy = closure_facts(allat, light)
            if not light and not had_heavy:
                break
            had_heavy = heavy
            cons = [b.z for b in self.pc] + list(extra) + facts
            t0 = time.time()
            s = z3.Solver()
            s.set('timeout', int(timeout * 1000))
            for c in cons:
                s.add(c)
            res = s.check()
            st.add('queries')
            if res == z3.unknown and not light:
                pass
            if res == z3.unknown:
                s2 = z3.SolverFor('QF_NRA')
                s2.set('timeout', int(timeout * 1000))
                for c in cons:
                    s2.add(c)
                try:
                    res2 = s2.check()
                except z3.Z3Exception:
                    res2 = z3.unknown
                st.add('queries')
                if res2 != z3.unknown:
                    res, s = res2, s2
            dt = time.time() - t0
            st.add('solver_s', dt)
            if res == z3.unsat:
                st.add('unsat')
                return res, None
            if res == z3.sat:
                model = s.model()
        st.add('sat' if res == z3.sat else 'unknown')
        return res, model

    def model_assign(self, model):
        assign = {}
        for name, a in self.ex.inputs.items():
            v = model.eval(z3_atom(a.id), model_completion=True)
            assign[a.id] = _z3val(v)
        ints = {}
        for name in self.ex.int_inputs:
            v = model.eval(z3.Int(name), model_completion=True)
            ints[name] = v.as_long()
        return assign, ints

    def make_witness(self, assign, ints):
        return Evaluator(assign, ints, 0, self.ex)

    def holds_on(self, ev):
        """Does the evaluator satisfy the path condition (best effort)?"""
        for b in self.pc:
            if b.ev(ev) is not True:
                return False
        return True

    def assume(self, b):
        b = B.of(b)
        if b.const is True:
            return
        if b.const is False:
            raise PathAbort('assumption false')
        keep = [w for w in self.witnesses if b.ev(w) is True]
        self.pc.append(b)
        self.pc_atoms |= b.atoms
        self.witnesses = keep
        if not keep and self.pos >= len(self.prefix):
            res, model = self._check([], b.atoms, self.ex.branch_timeout)
            if res == z3.unsat:
                raise PathAbort('assumptions infeasible')
            if res == z3.sat:
                self._adopt(model)

    def _adopt(self, model):
        assign, ints = self.model_assign(model)
        w = self.make_witness(assign, ints)
        if self.holds_on(w):
            self.witnesses.append(w)
            return True
        return False

    def branch(self, b):
        self.ex.tick()
        st = self.stats
        if self.pos < len(self.prefix):
            d, wit = self.prefix[self.pos]
            self.pos += 1
            if d == 'T?' or d == 'F?':
                self.uncertain = True
            take = d[0] == 'T'
            self.decisions.append((d, None))
            cond = b if take else ~b
            if d[-1] != 'i':        # implied ones add nothing
                self.pc.append(cond)
                self.pc_atoms |= cond.atoms
            if self.pos == len(self.prefix):
                self.witnesses = [w for w in (wit or []) if cond.ev(w) is True]
            return take
        st.add('branches')
        nb = ~b
        wt = [w for w in self.witnesses if b.ev(w) is True]
        wf = [w for w in self.witnesses if b.ev(w) is False]
        okT, okF = bool(wt), bool(wf)
        uT = uF = False
        if not okT:
            res, model = self._check([b.z], b.atoms, self.ex.branch_timeout)
            if res == z3.sat:
                okT = True
                w = self.make_witness(*self.model_assign(model))
                if self.holds_on(w) and b.ev(w) is True:
                    wt.append(w)
            elif res == z3.unknown:
                okT = uT = True
                st.add('unknown_branches')
        if not okF:
            res, model = self._check([nb.z], b.atoms, self.ex.branch_timeout)
            if res == z3.sat:
                okF = True
                w = self.make_witness(*self.model_assign(model))
                if self.holds_on(w) and b.ev(w) is False:
                    wf.append(w)
            elif res == z3.unknown:
                okF = uF = True
                st.add('unknown_branches')
        if not okT and not okF:
            raise PathAbort('infeasible path')
        if okT and okF:
            # explore a certain side first
            take = not (uT and not uF)
        else:
            take = okT
        if okT and okF:
            other = ('F?' if uF else 'F') if take else ('T?' if uT else 'T')
            owit = wf if take else wt
            self.alts.append((list(self.decisions), other, owit))
        code = ('T' + ('?' if uT else '')) if take else ('F' + ('?' if uF else ''))
        if code.endswith('?'):
            self.uncertain = True
        if not (okT and okF):
            code = code[0]
            # implied: no new constraint needed
            code += 'i'
            self.decisions.append((code, None))
            self.pos += 1
            self.prefix = self.prefix + [(code, None)]
            return take
        self.decisions.append((code, None))
        self.prefix = self.prefix + [(code, None)]
        self.pos += 1
        cond = b if take else nb
        self.pc.append(cond)
        self.pc_atoms |= cond.atoms
        self.witnesses = wt if take else wf
        return take

    def concretise(self, i):
        """Fork over the values of a symbolic int."""
        for _ in range(200):
            v = None
            for w in self.witnesses:
                v = w.int_val(i.z)
                if isinstance(v, int):
                    break
                v = None
            if v is None:
                res, model = self._check([], (), self.ex.branch_timeout)
                if res != z3.sat:
                    raise PathAbort('cannot concretise')
                v = model.eval(i.z, model_completion=True).as_long()
            if self.pos < len(self.prefix):
                # value chosen on the recorded path is stored with the decision
                v = self.ex.conc_values.get((tuple(d for d, _ in self.decisions), str(i.z)), v)
            else:
                self.ex.conc_values[(tuple(d for d, _ in self.decisions), str(i.z))] = v
            if self.branch(i == v):
                return v
        raise Unsupported('too many values for an index')

    def concretise_int(self, r):
        raise Unsupported('int() of a symbolic real')


def _z3val(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return float(Fraction(v.approx(20).numerator_as_long(), v.approx(20).denominator_as_long()))
    return Fraction(0)


# ------------------------------------------------------------------ claims
class Claim:
    """A claim: symbolic B (+ a robust negation) or a concrete verdict."""
    __slots__ = ('b', 'neg', 'ok', 'info')

    def __init__(self, b=None, neg=None, ok=None, info=''):
        self.b, self.neg, self.ok, self.info = b, neg, ok, info


class Explorer:
    """Explores one scenario symbolically and replays what it finds."""

    def __init__(self, scenario, libs, seed=1, time_limit=60.0, max_paths=4000, branch_timeout=2.0, claim_timeout=10.0):
        self.sc = scenario
        self.libs = libs
        self.seed = seed
        self.deadline = time.time() + time_limit
        self.max_paths = max_paths
        self.branch_timeout = branch_timeout
        self.claim_timeout = claim_timeout
        self.memo = {}
        self.bmemo = {}
        self.zeros = set()
        self.notes = set()
        self.tokens = {'by_val': {}, 'by_tok': {}}
        self.inputs = {}
        self.int_inputs = {}
        self.stats = Stats()
        self.violations = []
        self.known = []
        self.unsupported = {}
        self.conc_values = {}
        self.samples = []
        self.unconfirmed = []
        self.mismatches = []
        self.norm_pairs = []
        self.unknown_labels = {}

    def tick(self):
        if time.time() > self.deadline:
            raise Budget()

    def initial_witnesses(self):
        return self._wit

    def run(self):
        from .env import SymEnv, ConcEnv
        poly.reset_atoms()
        stack = [([], [])]
        first = True
        rnd = random.Random(self.seed * 7919 + zlib.crc32(self.sc.name.encode()))
        self.rnd = rnd
        while stack:
            if self.stats.d['paths'] >= self.max_paths or time.time() > self.deadline:
                self.stats.add('truncated', len(stack))
                break
            if len(self.violations) >= 2:
                break
            prefix, wit = stack.pop()
            c = Ctx(self, prefix, [] if prefix else [Evaluator({}, {}, v, self) for v in range(NVAR)])
            CtxHolder.cur = c
            FL.on = FL.eig = False
            NARROWED.clear()
            self.libs.sym.fresh()
            env = SymEnv(self, c)
            try:
                status = 'ok'
                try:
                    self.sc.fn(env, **self.sc.params)
                except (PathAbort,):
                    status = 'infeasible'
                except AssumeFailed:
                    status = 'infeasible'
                except Unsupported as u:
                    status = 'unsupported'
                    msg = str(u)
                    self.unsupported[msg] = self.unsupported.get(msg, 0) + 1
                except Budget:
                    status = 'budget'
                except RecursionError:
                    status = 'unsupported'
                    self.unsupported['recursion'] = self.unsupported.get('recursion', 0) + 1
                except Exception as e:
                    status = 'exception'
                    env.exception(e)
            finally:
                CtxHolder.cur = None
            for dec, other, owit in c.alts:
                stack.append((dec + [(other, owit)], owit))
            if status == 'budget':
                self.stats.add('truncated', 1 + len(stack))
                self._concrete_fallback(c)
                break
            if status == 'infeasible':
                self.stats.add('infeasible')
                continue
            self.stats.add('paths')
            if status == 'unsupported':
                self.stats.add('unsupported')
                self._concrete_fallback(c)
                continue
            self._finish_path(c, env)
        CtxHolder.cur = None
        return self

    # -- after a path ------------------------------------------------------
    def _assign_named(self, w):
        d = {n: w.input(a.id) for n, a in self.inputs.items()}
        d.update({n: w.int_input(n) for n in self.int_inputs})
        return d

    def _finish_path(self, c, env):
        CtxHolder.cur = c
        try:
            self._discharge_normal(c)
            pend = env.pending
            for item in pend:
                self._handle_failure(c, env, item)
            # path witness replay: validates the encoding against the real code
            wit = c.witnesses[:1]
            if not wit:
                try:
                    res, model = c._check([], (), self.branch_timeout)
                    if res == z3.unsat:
                        self.stats.d['paths'] -= 1
                        self.stats.add('infeasible')
                        return
                    if res == z3.sat and c._adopt(model):
                        wit = c.witnesses[:1]
                except Unsupported:
                    pass
            if not wit:
                for _ in range(150):
                    n = self.random_named()
                    w = c.make_witness({a.id: n[k] for k, a in self.inputs.items()}, {k: n[k] for k in self.int_inputs})
                    if c.holds_on(w):
                        wit = [w]
                        break
            if not wit:
                self.stats.add('unwitnessed_paths')
                return
            if pend:
                return
            w = wit[0]
            named = self._assign_named(w)
            r = self.replay(named)
            if r is None:
                return
            # compare symbolic observations with the concrete ones
            bad = []
            if env.observed and r.observed and len(env.observed) == len(r.observed):
                for (l1, sv), (l2, cv) in zip(env.observed, r.observed):
                    try:
                        v = w.val(sv) if sv is not None else None
                    except Exception:
                        v = None
                    if FL.eig and v is not None and cv is not None and not _close(v, cv, 1e-4):
                        try:
                            v, cv = abs(complex(v)), abs(complex(cv))
                        except Exception:
                            pass
                    if not _close(v, cv, 1e-4):
                        bad.append((l1, repr(v), repr(cv)))
            elif len(env.observed) != len(r.observed):
                bad.append(('observations', len(env.observed), len(r.observed)))
            if bad and w.cache.get('complex spectrum'):
                bad = []
                self.notes.add('witness outside the real-spectrum model')
            if bad:
                self.stats.add('replay_mismatch')
                if len(self.mismatches) < 5:
                    self.mismatches.append({'inputs': _jsonable(named), 'diff': [str(x) for x in bad[:3]]})
            if r.failed:
                # rounding may upset a claim that holds over the reals: only a
                # gross failure of the real code counts here
                r2 = self.replay(named, 1e-3)
                if r2 is not None and r2.failed:
                    self._report(named, r2, 'witness replay')
                else:
                    self.stats.add('rounding_only')
            elif len(self.samples) < 3:
                self.samples.append({'inputs': _jsonable(named), 'decisions': ''.join(d[0] for d, _ in c.decisions)})
        finally:
            CtxHolder.cur = None

    def _discharge_normal(self, c):
        """Hand the equalities closed by normal form to the solver as well."""
        pairs, self.norm_pairs = self.norm_pairs, []
        dis = []
        for x, y in pairs:
            if len(x.n.t) + len(y.n.t) > 200 or sum(len(p.t) for p, _ in x.d + y.d) > 200:
                continue
            l, r = z3_poly(x.n), z3_poly(y.n)
            for p, e in y.d:
                l = l * z3.Product(*([z3_poly(p)] * e))
            for p, e in x.d:
                r = r * z3.Product(*([z3_poly(p)] * e))
            dis.append(l != r)
        if not dis:
            return
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(z3.Or(*dis))
        for p in self.zeros:
            s.add(z3_poly(p) == 0)
        res = s.check()
        self.stats.add('queries')
        self.stats.add('solver_s', time.time() - t0)
        if res == z3.unsat:
            self.stats.add('unsat')
            self.stats.add('normal_confirmed', len(dis))
        elif res == z3.sat:
            raise AssertionError('normal form disagrees with the solver')
        else:
            self.stats.add('unknown')

    def replay(self, named, loose=None):
        from .env import ConcEnv
        cur = CtxHolder.cur
        CtxHolder.cur = None
        self.libs.conc.fresh()
        env = ConcEnv(self, named, loose)
        if NARROWED and loose is None:
            env.tol = 1e-9      # doubles carry this much; a narrower float does not
        try:
            self.stats.add('replays')
            with np.errstate(all='ignore'):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        self.sc.fn(env, **self.sc.params)
                    except AssumeFailed:
                        return None
                    except Exception as e:
                        env.exception(e)
            return env
        finally:
            env.close()
            CtxHolder.cur = cur

    def _report(self, named, r, how):
        labels = [f[0] for f in r.failed]
        for lab, info, finding in r.failed:
            rec = {'scenario': self.sc.name, 'label': lab, 'info': info, 'inputs': _jsonable(named), 'how': how,
                   'finding': finding}
            (self.known if self.sc.is_known(lab) else self.violations).append(rec)
        return labels

    def _handle_failure(self, c, env, item):
        """A claim (or 'no exception') the solver refuted or could not decide."""
        label, negs, atoms, kind = item
        tried = 0
        cands = []
        for w in c.witnesses[:2]:
            cands.append(self._assign_named(w))
        bounds = []
        for n, a in self.inputs.items():
            z = z3_atom(a.id)
            bounds.append(z3.And(z <= 10, z >= -10))
        queries = []
        for q in negs:
            queries.append(([q] + bounds))
        for q in negs:
            queries.append([q])
        zs = [z3_atom(a.id) for a in self.inputs.values()]
        if len(zs) > 1:
            # generic counterexamples: degenerate ones may not replay where functions are uninterpreted
            for q in negs[:2]:
                queries.append([q, z3.Distinct(*zs)])
                queries.append([q] + [z3.Or(y * 64 > x * 64 + k, y * 64 < x * 64 - k)
                                      for k, (x, y) in enumerate(zip(zs, zs[1:]), 3)])
        for q in queries:
            try:
                res, model = c._check(q, atoms, self.claim_timeout)
            except Unsupported:
                continue
            if res == z3.sat:
                assign, ints = c.model_assign(model)
                w = c.make_witness(assign, ints)
                cands.insert(0, self._assign_named(w))
        # random perturbations of the candidates
        base = list(cands)
        for b in base[:3]:
            for _ in range(3):
                cands.append({n: (v if n in self.int_inputs else
                                  Fraction(v) + Fraction(self.rnd.randint(-8, 8), 64)) for n, v in b.items()})
        for _ in range(12):
            cands.append(self.random_named())
        if NARROWED:
            # values that no narrow float holds exactly
            cands += [{n: (v if n in self.int_inputs else Fraction(v) * Fraction(1000003, 1000000 + 3 * k)) for n, v in b.items()}
                      for k, b in enumerate([self.random_named() for _ in range(6)] + base[:3], 2)]
        for named in cands:
            tried += 1
            r = self.replay(named)
            if r is None or not r.failed:
                continue
            if kind != 'sat' and not NARROWED:
                r = self.replay(named, 1e-3)
                if r is None or not r.failed:
                    continue
            self._report(named, r, 'counterexample for "%s"' % label)
            return
        self.stats.add('unconfirmed')
        if len(self.unconfirmed) < 10:
            self.unconfirmed.append({'scenario': self.sc.name, 'label': label, 'tried': tried})

    def random_named(self):
        d = {}
        for n, a in self.inputs.items():
            lo, hi = a.data['lo'], a.data['hi']
            lo = -4 if lo is None else lo
            hi = 4 if hi is None else hi
            if lo > hi:
                lo, hi = hi, lo
            d[n] = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(2 * self.rnd.randint(0, 255) + 1, 512)
        for n, (lo, hi, _) in self.int_inputs.items():
            d[n] = self.rnd.randint(lo, hi)
        return d

    def _concrete_fallback(self, c):
        """The encoding stopped: still try the real code on the path's inputs."""
        cands = [self._assign_named(w) for w in c.witnesses[:2]]
        for _ in range(4):
            cands.append(self.random_named())
        for named in cands:
            r = self.replay(named, 1e-3)
            if r is not None and r.failed:
                self._report(named, r, 'concrete fallback')
                return


def _close(v, cv, tol):
    if v is None or cv is None:
        return True
    try:
        if isinstance(v, (bool, np.bool_)) or isinstance(cv, (bool, np.bool_)):
            return bool(v) == bool(cv)
        v, cv = complex(v), complex(cv)
    except Exception:
        return True
    for x, y in ((v.real, cv.real), (v.imag, cv.imag)):
        if math.isnan(x) or math.isnan(y):
            continue
        if math.isinf(x) or math.isinf(y):
            if x != y and abs(x) < 1e12 and abs(y) < 1e12:
                return False
            continue
        if abs(x - y) > tol * (1 + max(abs(x), abs(y))):
            return False
    return True


def _jsonable(d):
    return {k: (str(v) if isinstance(v, Fraction) else v) for k, v in d.items()}
