"""Binary serialisation: fixed layout, nothing lost, whole state written exactly once."""
from .util import *

BOUNDS = ('all real and NaN/infinite elements, shapes up to 3x3 plus wide/tall shapes up to 40; every 32-bit integer; big integers up to '
          '72 bits either sign; texts of up to 3 arbitrary code points; existing and missing directories')
SER = 'wai.ma.core._Serialisable'
T = 'wai.ma.transformation'


def le32(cells):
    """Little-endian signed 32-bit value of four byte cells."""
    v = cells[0] + cells[1] * 256 + cells[2] * 65536 + cells[3] * 16777216
    return v


class Reader:
    def __init__(self, env, b):
        self.env, self.b, self.p = env, b, 0

    def take(self, n):
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def int32(self):
        c = list(self.take(4))
        if len(c) != 4:
            return None
        return le32(c)

    def double(self):
        return self.env.double(self.take(8))

    def matrix(self):
        r, c = self.int32(), self.int32()
        if r is None or c is None or not (0 <= int(r) < 500 and 0 <= int(c) < 500):
            return None
        return [[self.double() for _ in range(int(c))] for _ in range(int(r))]

    def end(self):
        return self.p == len(self.b)


def same(env, got, want):
    if got is None or any(x is None for x in flat(got)):
        return env.lit(False, 'not decodable')
    return env.eq(got, want, tol=0)


def stream_of(env, obj):
    s = env.new_bytesio()
    obj.serialise_state(s)
    return s.getvalue()


def matrix_layout(env, r, c):
    g = grid(env, 'a', r, c)
    m = env.M(g)
    b = stream_of(env, m)
    env.check('length', env.lit(len(b) == 8 + 8 * r * c, str(len(b))))
    rd = Reader(env, b)
    got = rd.matrix()
    env.check('decoded matrix is the matrix', same(env, got, g), env.lit(rd.end()))
    env.check('matrix unchanged', env.eq(m, g))
    d = env.scratch()
    m.save_state(d + '/m.bin')
    env.check('saved file has the same bytes', env.lit(env.read_bytes(d + '/m.bin') == b))


def special(env, kind):
    x = {'nan': env.nan(), 'inf': env.inf(), '-inf': env.inf(-1)}[kind]
    g = [[env.real('a'), x], [x, env.real('b')]]
    rd = Reader(env, stream_of(env, env.M(g)))
    env.check('non-finite elements survive', same(env, rd.matrix(), g), env.lit(rd.end()))


def stream_append(env):
    """Serialising into a stream appends: several objects can follow each other."""
    a, b = grid(env, 'a', 2, 1), grid(env, 'b', 1, 2)
    s = env.new_bytesio()
    env.M(a).serialise_state(s)
    env.M(b).serialise_state(s)
    env.M(a).serialise_state(s)
    rd = Reader(env, s.getvalue())
    env.check('first', same(env, rd.matrix(), a))
    env.check('second', same(env, rd.matrix(), b))
    env.check('third', same(env, rd.matrix(), a), env.lit(rd.end()))


def scalar_int(env, lo, hi):
    S = env.lib(SER).Serialisable
    n = env.int('n', lo, hi)
    b = S.serialise_to_bytes(n)
    env.check('four bytes', env.lit(len(b) == 4))
    u = le32(list(b))
    env.check('value', env.true((u == n) | (u == n + 4294967296)))


def int_range(env):
    S = env.lib(SER).Serialisable
    raises(env, 'too large', S.serialise_to_bytes, 2 ** 31)
    raises(env, 'too small', S.serialise_to_bytes, -2 ** 31 - 1)
    raises(env, 'unsupported type', S.serialise_to_bytes, None)
    raises(env, 'unsupported list', S.serialise_to_bytes, [1])
    env.check('extremes', env.lit(bytes(list(S.serialise_to_bytes(2 ** 31 - 1))) == (2 ** 31 - 1).to_bytes(4, 'little')),
              env.lit(bytes(list(S.serialise_to_bytes(-2 ** 31))) == (-2 ** 31).to_bytes(4, 'little', signed=True)))


def scalar_real(env):
    S = env.lib(SER).Serialisable
    x = env.real('x')
    b = S.serialise_to_bytes(x)
    env.check('eight bytes', env.lit(len(b) == 8))
    v = env.double(b)
    env.check('value', env.lit(False, 'not decodable') if v is None else env.eq(v, x, tol=0))
    for v in (0.5, -3.25, 1e300):
        env.check('plain floats', env.eq(env.double(S.serialise_to_bytes(v)), env.const(v), tol=0))


def scalar_text(env, n):
    S = env.lib(SER).Serialisable
    t = env.text('t', n)
    b = S.serialise_to_bytes(t)
    ln = le32(list(b[:4]))
    env.check('length prefix counts the bytes', env.lit(len(b) == 4 + int(ln), '%s %s' % (len(b), ln)))
    want = []
    for c in env.cps(t):
        if env.decide(c < 0x80):
            want += [c]
        elif env.decide(c < 0x800):
            want += [c // 64 + 0xC0, c % 64 + 0x80]
        elif env.decide(c < 0x10000):
            want += [c // 4096 + 0xE0, c // 64 % 64 + 0x80, c % 64 + 0x80]
        else:
            want += [c // 262144 + 0xF0, c // 4096 % 64 + 0x80, c // 64 % 64 + 0x80, c % 64 + 0x80]
    env.check('UTF-8 text', *bytes_are(env, b[4:], want))


def bytes_are(env, b, want):
    b = list(b)
    if len(b) != len(want):
        return [env.lit(False, '%d bytes, expected %d' % (len(b), len(want)))]
    return [env.true(x == y) for x, y in zip(b, want)]


def big_int(env, bits, sign):
    """Every integer of exactly this many bits."""
    S = env.lib(SER).Serialisable
    lo, hi = (2 ** (bits - 1), 2 ** bits - 1) if bits else (0, 0)
    n = env.int('n', lo, hi) if sign > 0 else env.int('n', -hi, -lo)
    if not env.symbolic:
        n = int(n)
    b = S.serialise_big_int(n)
    k = int(le32(list(b[:4])))
    env.check('length prefix', env.lit(len(b) == 4 + k, '%d bytes, prefix %d' % (len(b) - 4, k)))
    env.check('enough room for the sign', env.lit(8 * k > bits, '%d bytes' % k))
    # two's complement, least significant byte first
    env.check('value survives', *bytes_are(env, b[4:], [n // 256 ** i % 256 for i in range(k)]))


def standardize(env, r, c):
    Std = env.lib(T).Standardize
    g = grid(env, 'a', r, c)
    s = Std()
    raises(env, 'unconfigured state is rejected', s.serialise_state, env.new_bytesio())
    s.configure(env.M(g))
    rd = Reader(env, stream_of(env, s))
    means, devs = rd.matrix(), rd.matrix()
    env.check('means', same(env, means, data_of(s.get_means())), env.eq(data_of(s.get_means()), [[mean_([row[j] for row in g]) for j in range(c)]]))
    env.check('deviations', same(env, devs, data_of(s.get_std_devs())))
    env.check('nothing else', env.lit(rd.end()))
    s.reset()
    raises(env, 'reset state is rejected', s.serialise_state, env.new_bytesio())


def log_state(env, base):
    Log = env.lib(T).Log
    l = Log()
    off = env.real('off')
    l.offset = off
    b = None
    if base is not None:
        l.base = env.const(base) if isinstance(base, str) else base
    rd = Reader(env, stream_of(env, l))
    x, k, o = rd.double(), rd.double(), rd.double()
    env.check('decodable', env.lit(None not in (x, k, o)))
    if None in (x, k, o):
        return
    env.check('base', env.eq(x, env.const(2.718281828459045) if base is None else (env.const(base) if isinstance(base, str) else base)))
    env.check('conversion factor', env.eq(k * env.log(env.const(base) if isinstance(base, str) else env.const(base)), 1) if base is not None else env.eq(k, 1))
    env.check('offset', env.eq(o, off, tol=0))
    env.check('nothing else', env.lit(rd.end()))


def sg_state(env, left, right, order, der):
    SG = env.lib(T).SavitzkyGolay
    s = SG()
    s.num_points_left, s.num_points_right, s.polynomial_order, s.derivative_order = left, right, order, der
    raises(env, 'unconfigured state is rejected', s.serialise_state, env.new_bytesio())
    s.transform(env.M(grid(env, 'a', 1, left + right + 1)))
    rd = Reader(env, stream_of(env, s))
    env.check('coefficients', same(env, rd.matrix(), data_of(s.coefficients)), env.lit(rd.end()))
    env.check('one coefficient per window point', env.shape(s.coefficients, 1, left + right + 1))


def simpls_state(env, comps):
    S = env.lib('wai.ma.algorithm.pls').SIMPLS
    s = S()
    s.num_components = comps
    raises(env, 'untrained state is rejected', s.serialise_state, env.new_bytesio())
    k = env.real('k', lo=1, hi=3)
    x = [[1.0, 2.0], [2.0, -1.0], [0.5, 3.0], [-1.0, 1.0]]
    y = [[k], [2 * k], [-k], [3 * k]]
    res = s.initialize(env.M(x), env.M(y))
    env.check('trained', env.lit(res is None))
    rd = Reader(env, stream_of(env, s))
    env.check('weights', same(env, rd.matrix(), data_of(s.get_matrix('W'))), env.lit(rd.end()))


def save(env, path, pre):
    g = grid(env, 'a', 2, 2)
    m = env.M(g)
    d = env.scratch()
    if pre:
        env.M([[env.real('z')] * 5] * 3).save_state(path)
    m.save_state(path)
    full = d + '/' + path
    env.check('file exists', env.lit(env.path_exists(full)))
    b = env.read_bytes(full)
    env.check('file holds exactly the state', env.lit(b == stream_of(env, m)))
    rd = Reader(env, b)
    env.check('file decodes to the matrix', same(env, rd.matrix(), g), env.lit(rd.end()))


def as_bytes(env, r, c):
    g = grid(env, 'a', r, c)
    m = env.M(g)
    b = m.get_serialised_state()
    env.check('bytes returned are the state', env.lit(len(b) == 8 + 8 * r * c, '%d bytes' % len(b)))


def scenarios(tier):
    S = Suite()
    for r, c in SHAPES + [(2, 19), (19, 2), (1, 40)] + mined_shapes(['core'], 130):
        S.add('matrix %dx%d' % (r, c), matrix_layout, r=r, c=c)
    for k in ('nan', 'inf', '-inf'):
        S.add('special %s' % k, special, kind=k)
    S.add('stream', stream_append)
    for lo, hi in ((0, 255), (-256, -1), (256, 65535), (-65536, -257), (0, 2 ** 31 - 1), (-2 ** 31, -1)):
        S.add('int32 %d..%d' % (lo, hi), scalar_int, lo=lo, hi=hi)
    S.add('int32 range', int_range)
    S.add('real', scalar_real)
    for n in (0, 1, 2, 3):
        S.add('text %d' % n, scalar_text, n=n)
    for bits in [0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 23, 24, 31, 32, 33, 39, 40, 41, 63, 64, 65, 72] + (list(range(18, 80)) if tier == 'thorough' else []):
        for sg in ((1, -1) if bits else (1,)):
            S.add('big int %d bits %s' % (bits, '+' if sg > 0 else '-'), big_int, bits=bits, sign=sg)
    for r, c in ((2, 1), (2, 2), (3, 2)):
        S.add('standardize %dx%d' % (r, c), standardize, r=r, c=c)
    for base in (None, 2, 10, '1/2', '5/2'):
        S.add('log %s' % base, log_state, base=base)
    for l, r, o, d in ((3, 3, 2, 1), (1, 1, 2, 0), (2, 1, 2, 1), (0, 0, 2, 0)):
        S.add('savitzky golay %d %d %d %d' % (l, r, o, d), sg_state, left=l, right=r, order=o, der=d)
    for k in (1, 2):
        S.add('simpls %d' % k, simpls_state, comps=k)
    for p in ('m.bin', 'sub/m.bin', 'a/b/c/m.bin'):
        for pre in (False, True):
            S.add('save %s%s' % (p, ' over another file' if pre else ''), save, path=p, pre=pre)
    S.add('state as bytes', as_bytes, r=2, c=2)
    return S
