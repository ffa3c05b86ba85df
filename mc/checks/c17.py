"""Fourier transform: each output mode holds the documented components of the discrete Fourier transform."""
import math
from .util import *

BOUNDS = ('all real rows of 1-6 and 8 samples (components exactly representable with square roots), 1-3 rows, all six output modes, both normalisations')
MOD = 'wai.ma.transformation._FFT'


def trig(env, k, n):
    """cos and sin of 2 pi k / n, exactly, for n in 1, 2, 3, 4, 6, 8."""
    k %= n
    h, s2, s3 = env.const('1/2'), env.sqrt(env.const(2)) / 2, env.sqrt(env.const(3)) / 2
    tab = {0: (env.const(1), env.const(0))}
    d = {(1, 12): (s3, h), (1, 8): (s2, s2), (1, 6): (h, s3), (1, 4): (env.const(0), env.const(1)), (1, 3): (-h, s3), (3, 8): (-s2, s2),
         (1, 2): (env.const(-1), env.const(0))}
    g = math.gcd(k, n)
    a, b = k // g, n // g
    if a == 0:
        return tab[0]
    if (a, b) in d:
        return d[(a, b)]
    c, s = trig(env, n - k, n)
    return c, -s


def dft(env, x, ortho):
    """[(re, im)] of frequencies 0 .. n//2"""
    n = len(x)
    sc = env.const(1) / env.sqrt(env.const(n)) if ortho else env.const(1)
    out = []
    for f in range(n // 2 + 1):
        re, im = env.const(0), env.const(0)
        for t in range(n):
            c, s = trig(env, (f * t) % n, n)
            re, im = re + x[t] * c, im - x[t] * s
        out.append((re * sc, im * sc))
    return out


def rows_of(env, x, mode, ortho):
    n = len(x)
    d = dft(env, x, ortho)
    ny = n % 2 == 0
    if mode == 1:
        return [re for re, im in d]
    if mode == 2:
        return [im for re, im in d]
    if mode == 3:
        out = [d[0][0]]
        for f in range(1, len(d)):
            out.append(d[f][0])
            if not (ny and f == len(d) - 1):
                out.append(d[f][1])
        return out
    if mode == 4:
        return [env.sqrt(re * re + im * im) for re, im in d]
    raise ValueError


def values(env, r, n, mode, ortho):
    F = env.lib(MOD)
    g = grid(env, 'a', r, n)
    t = F.FFT()
    t.output_mode = mode if (r + n) % 2 else F.OutputMode(mode)
    t.orthonormalisation = ortho
    m = env.M(g)
    out = t.transform(m)
    o = data_of(out)
    want = [rows_of(env, x, mode, ortho) for x in g]
    env.check('shape', env.shape(out, r, len(want[0])))
    if mode == 4:
        # compare squares; amplitudes are never negative
        env.check('not negative', *[env.ge(x, 0) for x in flat(o)])
        sq = lambda row: [x * x for x in row]
        o, want = [sq(x) for x in o], [sq(x) for x in want]
    if r == 1:
        env.check('components', env.eq(o, want))
    else:
        # which output row belongs to which input row is judged separately
        sh = r // 2
        rolled = want[-sh:] + want[:-sh]
        env.check('components of some row order', env.disj([env.eq(o, want), env.eq(o, rolled)]))
    env.check('data unchanged', env.eq(m, g))


def row_order(env, r, n):
    F = env.lib(MOD)
    g = grid(env, 'a', r, n)
    t = F.FFT()
    t.output_mode = 3
    o = data_of(t.transform(env.M(g)))
    env.check('row i of the output belongs to row i of the data', env.eq(o, [rows_of(env, x, 3, False) for x in g]))


def angles(env, n, mode, scale=1):
    """Angle and amplitude give back the components."""
    F = env.lib(MOD)
    scale = env.const(scale)
    x = [v * scale for v in env.vec('x', n)]
    d = dft(env, x, False)
    ny = n % 2 == 0
    for re, im in d:
        env.assume(re * re + im * im > scale * scale / 100)
    t = F.FFT()
    t.output_mode = mode
    o = data_of(t.transform(env.M([x])))[0]
    env.check('count', env.lit(len(o) == (len(d) if mode == 8 else n)))
    if mode == 8:
        t2 = F.FFT()
        t2.output_mode = 4
        amp = data_of(t2.transform(env.M([x])))[0]
        pairs = list(zip(amp, o))
        for f, (a, ang) in enumerate(pairs):
            re, im = d[f]
            env.check('quadrant', env.true((re < 0) | ((ang < 1.6) & (ang > -1.6))), env.true((re > 0) | (ang > 1.5) | (ang < -1.5)))
            env.check('angle range', env.le(ang, env.const('3.1415927')), env.ge(ang, env.const('-3.1415927')))
            env.check('sign of the angle', env.true((im < 0) | (ang >= 0)), env.true((im > 0) | (im == 0) | (ang <= 0)))
            if f == 0 or (ny and f == len(d) - 1):
                env.check('real components have angle zero or pi', env.disj([env.conj([env.eq(ang, 0), env.ge(re, 0)]), env.conj([env.gt(ang, 3), env.le(re, 0)])]))
    else:
        env.check('zero frequency', env.eq(o[0], d[0][0]))
        if ny and n > 1:
            env.check('nyquist', env.eq(o[-1], d[-1][0]))
        for f in range(1, (n + 1) // 2):
            a, ang = o[2 * f - 1], o[2 * f]
            re, im = d[f]
            env.check('quadrant', env.true((re < 0) | ((ang < 1.6) & (ang > -1.6))), env.true((re > 0) | (ang > 1.5) | (ang < -1.5)))
            env.check('amplitude', env.eq(a * a, re * re + im * im), env.ge(a, 0))
            env.check('sign of the angle', env.true((im < 0) | (ang >= 0)), env.true((im > 0) | (im == 0) | (ang <= 0)))


def modes(env):
    F = env.lib(MOD)
    v = env.int('v', -2, 20)
    t = F.FFT()
    ok, e = env.attempt(setattr, t, 'output_mode', v.__index__())
    good = (v == 1) | (v == 2) | (v == 3) | (v == 4) | (v == 8) | (v == 12)
    env.check('documented modes only', env.true(good) if ok else env.true(~good if env.symbolic else not good), env.lit(ok or isinstance(e, ValueError)))
    env.check('default mode', env.lit(F.FFT().output_mode.value == 4 and F.FFT().orthonormalisation is False))


def scenarios(tier):
    S = Suite()
    for n in (1, 2, 3, 4, 6, 8):
        for mode in (1, 2, 3, 4):
            for o in (False, True):
                for r in ((1, 2, 3) if n < 5 else (1, 2)):
                    if mode == 4 and n * r > 8:
                        continue
                    S.add('mode %d %dx%d ortho=%s' % (mode, r, n, o), values, r=r, n=n, mode=mode, ortho=o)
    for n in (1, 2, 3, 4):
        for mode in (8, 12):
            S.add('angles mode %d %d' % (mode, n), angles, n=n, mode=mode)
            for e in (12, 30):
                S.add('angles mode %d %d small %d' % (mode, n, e), angles, n=n, mode=mode, scale='1/%d' % 2 ** e)
    S.add('row order', row_order, r=2, n=3)
    S.add('modes', modes)
    return S
