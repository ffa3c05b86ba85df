"""Text files: writing and reading a matrix give it back, up to the requested decimals."""
from .util import *

BOUNDS = ('all real elements (|x| <= 10^6 for rounded formats), shapes up to 3x3 plus wide/tall shapes up to 40, with and without header, '
          'separators , ; tab space and ::, decimals -1 (all) and 0..8, fixed and scientific; file names and open handles')


def roundtrip(env, r, c, header, sep, handle):
    H = env.lib(HELPER)
    g = grid(env, 'a', r, c)
    m = env.M(g)
    d = env.scratch()
    p = d + '/m.csv'
    if handle:
        with env.open(p, 'w') as f:
            H.write(m, f, header, sep, -1)
        with env.open(p, 'r') as f:
            back = H.read(f, header, sep)
    else:
        H.write(m, p, header, sep, -1)
        back = H.read(p, header, sep)
    env.check('shape', env.shape(back, r, c))
    env.check('elements', env.eq(back, g, tol=0))
    env.check('matrix unchanged', env.eq(m, g))
    lines = env.read_text(p).split('\n')
    env.check('one line per row', env.lit(len(lines) == r + 1 + int(header) and lines[-1] == '', str(len(lines))))
    if header:
        env.check('header', env.lit(lines[0] == sep.join('col%d' % (j + 1) for j in range(c)), lines[0]))
    env.check('cells', *[env.lit(len(l.split(sep)) == c) for l in lines[:-1]])


def rounded(env, r, c, dec, sci, header):
    H = env.lib(HELPER)
    g = grid(env, 'a', r, c, lo=-1000000, hi=1000000)
    m = env.M(g)
    p = env.scratch() + '/m.csv'
    H.write(m, p, header, ',', dec, sci)
    back = data_of(H.read(p, header, ','))
    env.check('shape', env.lit(len(back) == r and all(len(x) == c for x in back)))
    half = env.const('1/%d' % (2 * 10 ** dec))
    for i in range(r):
        for j in range(c):
            x, y = g[i][j], back[i][j]
            if sci:
                t = (x if env.decide(x >= 0) else -x) * env.const('6/%d' % 10 ** (dec + 1))
                env.check('relative rounding', env.le(x - y, t), env.le(y - x, t))
            else:
                env.check('rounding', env.le(x - y, half), env.le(y - x, half))


def strings(env, r, c, dec):
    """The text form has the same lines as the file."""
    H = env.lib(HELPER)
    g = grid(env, 'a', r, c, lo=-1000000, hi=1000000)
    m = env.M(g)
    p = env.scratch() + '/m.csv'
    for header in (False, True):
        H.write(m, p, header, ';', dec)
        lines = H.to_lines(m, header, ';', dec)
        env.check('lines', env.lit([str(l) for l in lines] == env.read_text(p).split('\n')[:-1]))
        env.check('string', env.lit(str(H.to_string(m, header, ';', dec)) == '\n'.join(str(l) for l in lines)))
    env.check('default text', env.lit(str(H.to_string(m)).split('\n')[0] == '\t'.join('col%d' % (j + 1) for j in range(c))))
    env.check('matrix unchanged', env.eq(m, g))


def exact_values(env, sci):
    """Specific magnitudes survive the unlimited format."""
    H = env.lib(HELPER)
    vals = [0.1, 1e-20, -1e20, 123456.789, 1 / 3, 5e-324, 1.7976931348623157e308, 0.0, -2.5]
    p = env.scratch() + '/m.csv'
    m = env.M([vals])
    if sci:
        H.write(m, p, False, ',', 17, True)
    else:
        H.write(m, p, False, ',', -1)
    env.check('elements', env.eq(H.read(p, False, ','), [vals], tol=0))


def large(env, dec):
    """Numbers with many digits before the point keep all of them."""
    H = env.lib(HELPER)
    vals = [s * v for v in (1.2345678901234567e15, 9.007199254740993e15, 1.2345678901234567e16, 3.3333333333333333e16, 1.2345678901234567e17, 9.87654321987654321e18,
                            9.223372036854775807e18, 1.8446744073709552e19, 1.2345678901234567e22, 9.87654321987654321e25, 1.2345678901234567e100,
                            1.7976931348623157e308, 123456789012.5) for s in (1, -1)]
    p = env.scratch() + '/m.csv'
    for m, sep in (([vals], ','), ([[v] for v in vals], ';')):
        H.write(env.M(m), p, False, sep, dec)
        env.check('elements', env.eq(H.read(p, False, sep), m, tol=0))


def small(env, dec):
    """Elements far below one keep as many decimals as were asked for."""
    H = env.lib(HELPER)
    vals = [s * v for v in (1.25e-7, 3.5e-12, 9.87654321e-15, 1.5e-16, 2.0625e-18, 4.5e-19, 7.5e-22, 123.4567890123456) for s in (1, -1)]
    p = env.scratch() + '/m.csv'
    H.write(env.M([vals]), p, False, ',', dec)
    g = data_of(H.read(p, False, ','))
    env.check('elements', *[env.lit(abs(a - b) <= 0.5001 * 10.0 ** -dec + abs(b) * 2.0 ** -52, (a, b)) for a, b in zip([float(v) for v in flat(g)], vals)])


def special(env, dec, sci):
    H = env.lib(HELPER)
    g = [[env.nan(), env.inf()], [env.inf(-1), env.const(1)]]
    p = env.scratch() + '/m.csv'
    H.write(env.M(g), p, True, ',', dec, sci)
    env.check('non-finite elements', env.eq(H.read(p, True, ','), g))


def foreign(env, text, header, sep, want):
    """Files written by other programs."""
    H = env.lib(HELPER)
    p = env.scratch() + '/m.csv'
    with env.open(p, 'w') as f:
        f.write(text)
    env.check('contents', env.eq(H.read(p, header, sep), want))


def empty(env):
    H = env.lib(HELPER)
    p = env.scratch() + '/e.csv'
    for text, header in (('', False), ('', True), ('a,b\n', True)):
        with env.open(p, 'w') as f:
            f.write(text)
        for h in (False, True):
            def rd():
                if h:
                    with env.open(p, 'r') as f:
                        return H.read(f, header, ',')
                return H.read(p, header, ',')
            ok, e = env.attempt(rd)
            env.check('empty input is reported', env.lit(not ok and isinstance(e, RuntimeError), 'accepted' if ok else type(e).__name__))


def overwrite(env):
    H = env.lib(HELPER)
    p = env.scratch() + '/m.csv'
    a, b = grid(env, 'a', 3, 2), grid(env, 'b', 1, 3)
    H.write(env.M(a), p, True, ',', -1)
    H.write(env.M(b), p, False, ',', -1)
    env.check('a file is replaced', env.eq(H.read(p, False, ','), b))


def scenarios(tier):
    S = Suite()
    k = 0
    for r, c in SHAPES + [(2, 19), (19, 2), (1, 40)] + mined_shapes(['core'], 130):
        for header in (False, True):
            for handle in (False, True):
                seps = (',', ';', '\t', ' ', '::') if (r, c) in ((2, 3), (1, 1)) else (',;\t'[k % 3],)
                for sep in seps:
                    k += 1
                    S.add('round trip %dx%d header=%s handle=%s sep=%r' % (r, c, header, handle, sep), roundtrip, r=r, c=c, header=header, sep=sep, handle=handle)
    for sep in list('!"#$%&\'()*/:=?@[\\]^_`{|}~') + ['\x01', '\x7f', '\u00a7', '##', '//', ', ', ' ; ', '|-|', '--', 'x', 'sep', '\t\t']:
        for header in (False, True):
            S.add('separator %r header=%s' % (sep, header), roundtrip, r=2, c=3, header=header, sep=sep, handle=header)
    for dec in (0, 1, 2, 3, 6, 8):
        for r, c in ((1, 1), (2, 2)):
            S.add('fixed %d %dx%d' % (dec, r, c), rounded, r=r, c=c, dec=dec, sci=False, header=bool(dec % 2))
            if dec and r * c < 4 or dec == 3:
                S.add('scientific %d %dx%d' % (dec, r, c), rounded, r=r, c=c, dec=dec, sci=True, header=not dec % 2)
    for dec in (-1, 2, 6):
        for r, c in ((1, 1), (2, 3)):
            S.add('text form %d %dx%d' % (dec, r, c), strings, r=r, c=c, dec=dec)
    S.add('magnitudes', exact_values, sci=False)
    for d in (1, 2, 6, 15):
        S.add('many digits %d' % d, large, dec=d)
    for d in (12, 16, 18, 20, 24, 30):
        S.add('small elements %d' % d, small, dec=d)
    S.add('magnitudes scientific', exact_values, sci=True)
    for dec, sci in ((-1, False), (3, False), (4, True)):
        S.add('special %d %s' % (dec, sci), special, dec=dec, sci=sci)
    for i, (t, h, s, w) in enumerate([
            ('1,2\n3,4\n', False, ',', [[1, 2], [3, 4]]), ('1,2\n3,4', False, ',', [[1, 2], [3, 4]]), ('x,y\n1,2\n3,4\n', True, ',', [[1, 2], [3, 4]]),
            ('1e3;-2.5E-1\n', False, ';', [[1000, -0.25]]), (' 1 , 2\n 3 ,4 \n', False, ',', [[1, 2], [3, 4]]),
            ('7\n8\n', False, ',', [[7], [8]]), ('1,2,3\n4,5,6,7\n', False, ',', [[1, 2, 3], [4, 5, 6]]),
            ('1,2,3\n4,5\n', False, ',', [[1, 2, 3], [4, 5, 0]]),
            ('1,2,\n3,4,5\n', False, ',', [[1, 2, 0], [3, 4, 5]]), ('1,,3\n,4,\n', False, ',', [[1, 0, 3], [0, 4, 0]]),
            (',,\n1,2,3\n', False, ',', [[0, 0, 0], [1, 2, 3]]), ('a;b;c\n;;1\n2;3;\n', True, ';', [[0, 0, 1], [2, 3, 0]]),
            ('1\t\t\n\t2\t3\n', False, '\t', [[1, 0, 0], [0, 2, 3]]), ('1,2,\n3,4,\n', False, ',', [[1, 2, 0], [3, 4, 0]])]):
        S.add('foreign file %d' % i, foreign, text=t, header=h, sep=s, want=w)
    S.add('empty input', empty)
    S.add('overwrite', overwrite)
    return S
