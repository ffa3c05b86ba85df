"""Models of the environment the library touches: files, os.path, sklearn."""
import builtins
import io
import os
import posixpath
import pathlib
import types

import numpy as np

from . import sym
from .sym import R, Unsupported, ctx, CtxHolder, uf
from .symbytes import SymBytes


# ------------------------------------------------------------------ virtual files
class VFS:
    """A private file system of the current path: no real file is touched."""

    def __init__(self):
        self.files = {}
        self.dirs = {'/', '/vfs', '/vfs/cwd'}

    def norm(self, p):
        p = os.fspath(p)
        if not p.startswith('/'):
            p = posixpath.join('/vfs/cwd', p)
        return posixpath.normpath(p)

    def exists(self, p):
        if os.fspath(p) == '':
            return False
        n = self.norm(p)
        return n in self.files or n in self.dirs


def vfs():
    c = ctx()
    if not hasattr(c, 'vfs'):
        c.vfs = VFS()
    return c.vfs


class VFile:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.binary = 'b' in mode
        self.pos = 0
        self.closed = False
        self.name = path

    def _data(self):
        return self.fs.files[self.path]

    def write(self, s):
        if not any(m in self.mode for m in 'wax+'):
            raise io.UnsupportedOperation('not writable')
        d = self._data()
        if self.binary:
            b = SymBytes.lift(s)
            if b is None:
                raise TypeError("a bytes-like object is required, not '%s'" % type(s).__name__)
            cells = d['b'].cells
            if 'a' in self.mode:
                self.pos = len(cells)
            cells[self.pos:self.pos + len(b)] = b.cells
            self.pos += len(b)
            return len(b)
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        if 'a' in self.mode:
            self.pos = len(d['t'])
        d['t'] = d['t'][:self.pos] + s + d['t'][self.pos + len(s):]
        self.pos += len(s)
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def read(self, n=-1):
        if 'r' not in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation('not readable')
        d = self._data()
        if self.binary:
            cells = d['b'].cells
            e = len(cells) if n is None or n < 0 else self.pos + n
            r = SymBytes(cells[self.pos:e])
            self.pos = min(e, len(cells))
            return r
        t = d['t']
        e = len(t) if n is None or n < 0 else self.pos + n
        r = t[self.pos:e]
        self.pos = min(e, len(t))
        return r

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self):
        t = self._data()['t']
        e = t.find('\n', self.pos)
        e = len(t) if e < 0 else e + 1
        r = t[self.pos:e]
        self.pos = e
        return r

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def seek(self, p, w=0):
        d = self._data()
        n = len(d['b']) if self.binary else len(d['t'])
        self.pos = p if w == 0 else (self.pos + p if w == 1 else n + p)
        return self.pos

    def tell(self):
        return self.pos

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


def vfs_open(file, mode='r', *a, **k):
    if CtxHolder.cur is None:
        raise Unsupported('open outside a path')
    fs = vfs()
    if isinstance(file, int):
        raise Unsupported('open of a descriptor')
    if os.fspath(file) == '':
        raise FileNotFoundError(2, 'No such file or directory', file)
    p = fs.norm(file)
    if p in fs.dirs:
        raise IsADirectoryError(21, 'Is a directory', file)
    if posixpath.dirname(p) not in fs.dirs:
        raise FileNotFoundError(2, 'No such file or directory', file)
    if 'r' in mode:
        if p not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory', file)
    elif 'x' in mode and p in fs.files:
        raise FileExistsError(17, 'File exists', file)
    elif 'a' in mode and p in fs.files:
        pass
    else:
        fs.files[p] = {'b': SymBytes(), 't': ''}
    return VFile(fs, p, mode)


def os_shim():
    m = types.ModuleType('os')
    path = types.ModuleType('posixpath')
    for n in ('dirname', 'basename', 'join', 'split', 'splitext', 'normpath', 'isabs', 'sep'):
        setattr(path, n, getattr(posixpath, n))
    path.abspath = lambda p: vfs().norm(p)
    path.realpath = path.abspath
    path.exists = lambda p: vfs().exists(p)
    path.isdir = lambda p: os.fspath(p) != '' and vfs().norm(p) in vfs().dirs
    path.isfile = lambda p: os.fspath(p) != '' and vfs().norm(p) in vfs().files
    m.path = path
    m.sep, m.linesep, m.extsep, m.curdir, m.pardir = os.sep, os.linesep, os.extsep, os.curdir, os.pardir
    m.fspath, m.PathLike, m.environ, m.devnull = os.fspath, os.PathLike, os.environ, os.devnull
    m.getcwd = lambda: '/vfs/cwd'

    def makedirs(p, mode=0o777, exist_ok=False):
        fs = vfs()
        if os.fspath(p) == '':
            raise FileNotFoundError(2, 'No such file or directory', '')
        n = fs.norm(p)
        if fs.exists(n):
            if not exist_ok or n in fs.files:
                raise FileExistsError(17, 'File exists', p)
            return
        while n not in fs.dirs:
            if n in fs.files:
                raise NotADirectoryError(20, 'Not a directory', p)
            fs.dirs.add(n)
            n = posixpath.dirname(n)

    def mkdir(p, mode=0o777):
        fs = vfs()
        if os.fspath(p) == '':
            raise FileNotFoundError(2, 'No such file or directory', '')
        n = fs.norm(p)
        if fs.exists(n):
            raise FileExistsError(17, 'File exists', p)
        if posixpath.dirname(n) not in fs.dirs:
            raise FileNotFoundError(2, 'No such file or directory', p)
        fs.dirs.add(n)

    def remove(p):
        fs = vfs()
        n = fs.norm(p)
        if n not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory', p)
        del fs.files[n]

    def replace(a, b):
        fs = vfs()
        a, b = fs.norm(a), fs.norm(b)
        if a not in fs.files or posixpath.dirname(b) not in fs.dirs:
            raise FileNotFoundError(2, 'No such file or directory', a)
        fs.files[b] = fs.files.pop(a)
    m.makedirs, m.mkdir, m.remove, m.unlink, m.replace, m.rename = makedirs, mkdir, remove, remove, replace, replace
    return m


def pathlib_shim():
    m = types.ModuleType('pathlib')
    osx = os_shim()

    class Path(pathlib.PurePosixPath):
        def exists(self):
            return osx.path.exists(str(self))

        def is_dir(self):
            return osx.path.isdir(str(self))

        def is_file(self):
            return osx.path.isfile(str(self))

        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            if self.exists() and exist_ok:
                return
            (osx.makedirs if parents else osx.mkdir)(str(self))

        def open(self, mode='r', *a, **k):
            return vfs_open(str(self), mode)

        def absolute(self):
            return Path(vfs().norm(str(self)))
        resolve = absolute

        def write_bytes(self, b):
            with vfs_open(str(self), 'wb') as f:
                return f.write(b)

        def read_bytes(self):
            with vfs_open(str(self), 'rb') as f:
                return f.read()

        def write_text(self, b):
            with vfs_open(str(self), 'w') as f:
                return f.write(b)

        def read_text(self):
            with vfs_open(str(self), 'r') as f:
                return f.read()
    m.Path = m.PosixPath = Path
    m.PurePath, m.PurePosixPath = pathlib.PurePath, pathlib.PurePosixPath
    return m


class SymBytesIO:
    def __init__(self, initial=b''):
        self.buf = SymBytes(list(SymBytes.lift(initial).cells))
        self.pos = 0

    def write(self, s):
        b = SymBytes.lift(s)
        if b is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(s).__name__)
        self.buf.cells[self.pos:self.pos + len(b)] = b.cells
        self.pos += len(b)
        return len(b)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def read(self, n=-1):
        cells = self.buf.cells
        e = len(cells) if n is None or n < 0 else self.pos + n
        r = SymBytes(cells[self.pos:e])
        self.pos = max(self.pos, min(e, len(cells)))
        return r

    def getvalue(self):
        return SymBytes(list(self.buf.cells))

    getbuffer = getvalue

    def seek(self, p, w=0):
        self.pos = p if w == 0 else (self.pos + p if w == 1 else len(self.buf) + p)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        del self.buf.cells[self.pos if n is None else n:]

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def io_shim():
    m = types.ModuleType('io')
    m.BytesIO = SymBytesIO
    m.StringIO = io.StringIO
    m.IOBase, m.RawIOBase, m.BufferedIOBase, m.TextIOBase = io.IOBase, io.RawIOBase, io.BufferedIOBase, io.TextIOBase
    m.open = vfs_open
    m.SEEK_SET, m.SEEK_CUR, m.SEEK_END = 0, 1, 2
    return m


# ------------------------------------------------------------------ scikit-learn
def sklearn_preprocessing():
    """Column-wise transformers as uninterpreted functions.

    Assumed contract of scikit-learn: output element (i,j) of a fitted
    transformer is a function of the class, its parameters, the fitted column j
    and the input element (i,j); for PowerTransformer and RobustScaler
    inverse_transform undoes transform.
    """
    m = types.ModuleType('sklearn.preprocessing')

    def plain(v):
        if isinstance(v, R):
            return v.as_float() if v.is_const() else v.key()
        if isinstance(v, (list, tuple)):
            return tuple(plain(x) for x in v)
        return v

    def make(cname, exact_inverse):
        def build(params):
            import sklearn.preprocessing as sk
            return getattr(sk, cname)(**dict(params))

        class Stub:
            def __init__(self, **kw):
                import sklearn.preprocessing as sk
                known = getattr(sk, cname)().get_params()
                for k in kw:
                    if k not in known:
                        raise TypeError("__init__() got an unexpected keyword argument '%s'" % k)
                known.update({k: plain(v) for k, v in kw.items()})
                self.params = tuple(sorted(known.items()))
                self.cols = None

            def fit(self, X, y=None):
                from .sarr import obj
                a = obj(X)
                if a.ndim != 2:
                    raise ValueError('Expected 2D array')
                self.cols = [tuple(R.lift(v) for v in a[:, j]) for j in range(a.shape[1])]
                return self

            def fit_transform(self, X, y=None):
                return self.fit(X).transform(X)

            def _apply(self, X, inv):
                from .sarr import obj, to_sarr
                a = obj(X)
                if self.cols is None:
                    from sklearn.exceptions import NotFittedError
                    raise NotFittedError('This %s instance is not fitted yet.' % cname)
                if a.ndim != 2 or a.shape[1] != len(self.cols):
                    raise ValueError('X has %d features, but %s is expecting %d features as input'
                                     % (a.shape[-1], cname, len(self.cols)))
                out = np.empty(a.shape, dtype=object)
                for i in range(a.shape[0]):
                    for j in range(a.shape[1]):
                        out[i, j] = self._el(self.cols[j], R.lift(a[i, j]), inv)
                return to_sarr(out)

            def _el(self, col, x, inv):
                if x.k:
                    raise Unsupported('non-finite value in scikit-learn')
                ck = tuple(v.key() for v in col)
                name = ('skl', cname, self.params, 'inv' if inv else 'fwd')
                other = ('skl', cname, self.params, 'fwd' if inv else 'inv')
                if exact_inverse and not x.d and len(x.n.t) == 1:
                    ((mo, co),) = x.n.t.items()
                    if co == 1 and len(mo) == 1 and mo[0][1] == 1:
                        from .poly import ATOMS
                        at = ATOMS[mo[0][0]]
                        if at.kind == 'uf' and at.data[0] == other and at.data[1][1:] == col:
                            return at.data[1][0]
                params = self.params

                def f(v, *cv):
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        t = build(params).fit(np.array(cv, dtype=float).reshape(-1, 1))
                        g = t.inverse_transform if inv else t.transform
                        return float(g(np.array([[v]]))[0, 0])
                return uf(name, (x,) + col, f)

            def transform(self, X):
                return self._apply(X, False)

            def inverse_transform(self, X):
                return self._apply(X, True)
        Stub.__name__ = cname
        return Stub
    m.PowerTransformer = make('PowerTransformer', True)
    m.RobustScaler = make('RobustScaler', True)
    m.QuantileTransformer = make('QuantileTransformer', False)
    m.StandardScaler = make('StandardScaler', True)
    m.MinMaxScaler = make('MinMaxScaler', True)
    m.MaxAbsScaler = make('MaxAbsScaler', True)
    return m
