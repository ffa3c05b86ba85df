"""Symbolic byte strings, text and struct packing for the serialisation code.

A SymBytes is a list of byte cells: a Python int, a symbolic int (0..255), or a
DByte - byte i of the IEEE encoding of a symbolic real.  Packing a real is an
injective uninterpreted function whose inverse is unpacking the same cells in
the same order and format; anything else does not decode.
"""
import struct
import types
from fractions import Fraction

import z3

from .sym import R, I, B, Unsupported, TRUE, FALSE, ctx


class DByte:
    __slots__ = ('r', 'fmt', 'i')

    def __init__(self, r, fmt, i):
        self.r, self.fmt, self.i = r, fmt, i

    def key(self):
        return (self.r.key(), self.fmt, self.i)


class FP:
    """Marker type (kept for isinstance tables)."""


def cell_eq(a, b):
    if isinstance(a, DByte) and isinstance(b, DByte):
        return TRUE if a.key() == b.key() else None
    if isinstance(a, DByte) or isinstance(b, DByte):
        return None
    r = I.lift(a) == I.lift(b)
    return r


class SymBytes:
    __slots__ = ('cells',)

    def __init__(self, cells=()):
        self.cells = list(cells)

    @staticmethod
    def lift(b):
        if isinstance(b, SymBytes):
            return b
        if isinstance(b, (bytes, bytearray, memoryview)):
            return SymBytes(list(bytes(b)))
        return None

    def __len__(self):
        return len(self.cells)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.cells[i])
        return self.cells[i]

    def __iter__(self):
        return iter(self.cells)

    def __add__(self, o):
        o = SymBytes.lift(o)
        return NotImplemented if o is None else SymBytes(self.cells + o.cells)

    def __radd__(self, o):
        o = SymBytes.lift(o)
        return NotImplemented if o is None else SymBytes(o.cells + self.cells)

    def __mul__(self, n):
        return SymBytes(self.cells * int(n))

    def __eq__(self, o):
        o = SymBytes.lift(o)
        if o is None:
            return False
        if len(self) != len(o):
            return FALSE
        r = TRUE
        for a, b in zip(self.cells, o.cells):
            e = cell_eq(a, b)
            if e is None:
                raise Unsupported('comparison of encoded reals')
            r = r & e
        return r

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self.cells)

    def join(self, parts):
        out = SymBytes()
        for i, p in enumerate(parts):
            if i:
                out = out + self
            out = out + p
        return out


def int_to_bytes(i, length, byteorder='big', signed=False):
    length = int(length)
    if length < 0:
        raise ValueError('length argument must be non-negative')
    m = 256 ** length
    if signed:
        ok = (i >= -(m // 2)) & (i < m // 2) if length else (i == 0)
    else:
        if bool(i < 0):
            raise OverflowError("can't convert negative int to unsigned")
        ok = i < m
    if not bool(ok):
        raise OverflowError('int too big to convert')
    cells = []
    for k in range(length):
        z = (i.z / (256 ** k)) % 256       # z3 division floors for positive divisors
        cells.append(I(z3.simplify(z)))
    if byteorder == 'big':
        cells.reverse()
    elif byteorder != 'little':
        raise ValueError("byteorder must be either 'little' or 'big'")
    return SymBytes(cells)


class SymStr:
    """A string of fixed length whose code points are symbolic."""
    __slots__ = ('cps',)

    def __init__(self, cps):
        self.cps = list(cps)

    def __len__(self):
        return len(self.cps)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        cells = []
        if enc in ('utf-8', 'utf8'):
            for c in self.cps:
                if bool(c < 0x80):
                    cells.append(c)
                elif bool(c < 0x800):
                    cells += [c // 64 + 0xC0, c % 64 + 0x80]
                elif bool(c < 0x10000):
                    if bool((c >= 0xD800) & (c <= 0xDFFF)):
                        raise UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed')
                    cells += [c // 4096 + 0xE0, (c // 64) % 64 + 0x80, c % 64 + 0x80]
                else:
                    cells += [c // 262144 + 0xF0, (c // 4096) % 64 + 0x80, (c // 64) % 64 + 0x80, c % 64 + 0x80]
        elif enc in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1'):
            lim = 0x80 if 'ascii' in enc else 0x100
            for c in self.cps:
                if bool(c < lim):
                    cells.append(c)
                elif errors == 'ignore':
                    pass
                elif errors == 'replace':
                    cells.append(63)
                else:
                    raise UnicodeEncodeError(enc, '\uffff', 0, 1, 'ordinal not in range')
        else:
            raise Unsupported('encoding %s' % enc)
        return SymBytes(cells)

    def __getattr__(self, n):
        raise Unsupported('str.%s' % n)


DOUBLE = {'d': 8, 'f': 4, 'e': 2}


def pack(fmt, *vals):
    order = '@'
    f = fmt
    if f and f[0] in '<>=!@':
        order, f = f[0], f[1:]
    big = order in '>!'
    codes = []
    num = ''
    for ch in f:
        if ch.isdigit():
            num += ch
        elif ch == ' ':
            continue
        else:
            codes += [ch] * (int(num) if num else 1)
            num = ''
    if len(codes) != len(vals):
        raise struct.error('pack expected %d items for packing (got %d)' % (len(codes), len(vals)))
    out = SymBytes()
    for ch, v in zip(codes, vals):
        if ch in DOUBLE:
            if isinstance(v, I):
                v = v.to_real()
            r = R.lift(v)
            if r is None:
                raise struct.error('required argument is not a float')
            n = DOUBLE[ch]
            if r.is_const() and (r.k or Fraction(r.as_float()) == r.const()):
                out = out + struct.pack(('>' if big else '<') + ch, r.as_float())
            else:
                idx = list(range(n))
                if big:
                    idx.reverse()
                out = out + SymBytes([DByte(r, ch, i) for i in idx])
        elif ch in 'bBhHiIlLqQ':
            size = struct.calcsize('<' + ch)
            if isinstance(v, I):
                try:
                    out = out + int_to_bytes(v, size, 'big' if big else 'little', signed=ch.islower())
                except OverflowError as e:
                    raise struct.error(str(e))
            else:
                out = out + struct.pack(('>' if big else '<') + ch, v)
        else:
            raise Unsupported('struct format %s' % fmt)
    return out


def decode_double(cells):
    """The real whose IEEE double (little-endian cells) this is, else None."""
    if len(cells) != 8:
        return None
    if all(isinstance(c, int) for c in cells):
        return R.lift(struct.unpack('<d', bytes(cells))[0])
    if not all(isinstance(c, DByte) and c.fmt == 'd' for c in cells):
        return None
    if len({c.r.key() for c in cells}) != 1 or [c.i for c in cells] != list(range(8)):
        return None
    return cells[0].r


def struct_shim():
    m = types.ModuleType('struct')

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = struct.calcsize(fmt)

        def pack(self, *v):
            return pack(self.format, *v)

    def unpack(*a):
        raise Unsupported('struct.unpack')
    m.pack, m.Struct, m.calcsize, m.error, m.unpack = pack, Struct, struct.calcsize, struct.error, unpack
    return m
