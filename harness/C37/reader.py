"""Runs one of the repository's Python readers on a file and prints what it returns as 64-bit words.

reader.py MODE MODULE FILE   the real reader on a real file; prints {"ok": bool, "words": [...]}
reader.py MODE MODULE -      the reader is executed symbolically: standard input holds the bytes of
                             the file, null standing for an unknown byte; prints every outcome with
                             its condition, {"outcomes": [{"cond": [e...], "ok": bool, "words": [e...]}]}

An expression is a number or a list ["b", i] (byte i), ["cat", e...] (most significant byte first),
or [operator, e...].
"""
import json
import struct as rstruct
import sys

import numpy as rnp


class Unsupported(BaseException):
    pass


# ---------- symbolic values

class Paths(object):
    """Depth-first enumeration of the outcomes of symbolic conditions."""
    def __init__(self):
        self.script, self.pos, self.cond = [], 0, []

    def branch(self, e):
        if self.pos == len(self.script):
            self.script.append(True)
        v = self.script[self.pos]
        self.pos += 1
        self.cond.append(e if v else ["not", e])
        if len(self.script) > 12:
            raise Unsupported("conditions on the contents")
        return v

    def next(self):
        while self.script and not self.script[-1]:
            self.script.pop()
        if not self.script:
            return False
        self.script[-1] = False
        self.pos, self.cond = 0, []
        return True


PATHS = Paths()


class SymBool(object):
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return PATHS.branch(self.e)


def cvt(v, kind):
    """The expression of v as an integer ("i": 64 bits), or as a number ("d", "f")."""
    if isinstance(v, Sym):
        if v.kind == kind:
            return v.e
        if v.kind == "f" and kind == "d":
            return ["f2d", v.e]
        if v.kind == "d" and kind == "f":
            return ["d2f", v.e]
        if v.kind == "i" and kind == "d":
            return ["i2d", v.e]
        raise Unsupported("conversion of %s to %s" % (v.kind, kind))
    if isinstance(v, SymBool):
        return cvt(bool(v), kind)
    if kind == "i":
        if int(v) != v:
            raise Unsupported("conversion")
        return int(v) & 0xffffffffffffffff
    if kind == "d":
        return rstruct.unpack("<Q", rstruct.pack("<d", float(v)))[0]
    return rstruct.unpack("<I", rstruct.pack("<f", float(v)))[0]


class Sym(object):
    """An integer ("i"), a double ("d"), or a single-precision value ("f")."""
    __array_priority__ = 1000

    def __init__(self, kind, e):
        self.kind, self.e = kind, e

    def _bin(self, op, o, rev=False):
        if isinstance(o, rnp.ndarray):
            return NotImplemented
        if not isinstance(o, (Sym, bool, int, float, rnp.integer, rnp.floating)):
            return NotImplemented
        if self.kind == "i" and (isinstance(o, (bool, int, rnp.integer)) or isinstance(o, Sym) and o.kind == "i"):
            if op == "div":
                raise Unsupported("division of integers")
            k, name = "i", {"add": "add", "sub": "sub", "mul": "mul", "lt": "slt", "le": "sle", "eq": "eq"}[op]
        else:
            k, name = "d", "f" + op
        a, b = cvt(self, k), cvt(o, k)
        if rev:
            a, b = b, a
        if op in ("lt", "le", "eq"):
            return SymBool([name, a, b])
        return Sym(k, [name, a, b])

    def _bit(self, op, o):
        if self.kind != "i" or not (isinstance(o, (bool, int, rnp.integer)) or isinstance(o, Sym) and o.kind == "i"):
            raise Unsupported(op)
        if op in ("shl", "ashr") and isinstance(o, Sym):
            raise Unsupported(op)
        return Sym("i", [op, self.e, cvt(o, "i")])

    def __add__(self, o): return self._bin("add", o)
    def __radd__(self, o): return self._bin("add", o, True)
    def __sub__(self, o): return self._bin("sub", o)
    def __rsub__(self, o): return self._bin("sub", o, True)
    def __mul__(self, o): return self._bin("mul", o)
    def __rmul__(self, o): return self._bin("mul", o, True)
    def __truediv__(self, o): return self._bin("div", o)
    def __rtruediv__(self, o): return self._bin("div", o, True)
    def __neg__(self): return (0 if self.kind == "i" else -0.0) - self
    def __pos__(self): return self
    def __and__(self, o): return self._bit("and", o)
    __rand__ = __and__
    def __or__(self, o): return self._bit("or", o)
    __ror__ = __or__
    def __xor__(self, o): return self._bit("xor", o)
    __rxor__ = __xor__
    def __lshift__(self, o): return self._bit("shl", o)
    def __rshift__(self, o): return self._bit("ashr", o)
    def __invert__(self): return self._bit("xor", -1)
    def __lt__(self, o): return self._bin("lt", o)
    def __le__(self, o): return self._bin("le", o)
    def __gt__(self, o): return self._bin("lt", o, True)
    def __ge__(self, o): return self._bin("le", o, True)

    def __eq__(self, o):
        r = self._bin("eq", o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin("eq", o)
        return True if r is NotImplemented else SymBool(["not", r.e])

    def __bool__(self): return bool(self != 0)
    def __hash__(self): raise Unsupported("hash")
    def __float__(self): raise Unsupported("float()")
    def __int__(self): raise Unsupported("int()")
    def __index__(self): raise Unsupported("index")
    def __format__(self, f): raise Unsupported("format")
    def __str__(self): raise Unsupported("str()")


class SymBytes(object):
    """Bytes of which at least one is unknown."""
    def __init__(self, b):
        self.b = list(b)

    def __len__(self): return len(self.b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.b[i])
        e = self.b[i]
        return e if isinstance(e, int) else Sym("i", ["zext", e])

    def __iter__(self):
        for i in range(len(self.b)):
            yield self[i]

    def __add__(self, o): return mkbytes(self.b + raw(o))
    def __radd__(self, o): return mkbytes(raw(o) + self.b)
    def __getattr__(self, n): raise Unsupported("bytes." + n)


def raw(s):
    if isinstance(s, SymBytes):
        return s.b
    if isinstance(s, (bytes, bytearray)):
        return list(s)
    if isinstance(s, memoryview):
        return list(bytes(s))
    raise TypeError("a bytes-like object is required, not %r" % type(s).__name__)


def mkbytes(b):
    if all(isinstance(x, int) for x in b):
        return bytes(b)
    return SymBytes(b)


SIZES = {"q": 8, "Q": 8, "d": 8, "i": 4, "I": 4, "l": 8, "L": 8, "f": 4, "h": 2, "H": 2, "b": 1, "B": 1, "?": 1, "x": 1, "c": 1, "s": 1, "n": 8, "N": 8}


def item(c, little, b):
    """Decodes one item."""
    if all(isinstance(x, int) for x in b):
        return rstruct.unpack(("<" if little else ">") + ({"l": "q", "L": "Q", "n": "q", "N": "Q"}.get(c, c) if len(b) == 8 else c), bytes(b))[0]
    e = ["cat"] + (b[::-1] if little else b)
    if c == "d":
        return Sym("d", e)
    if c == "f":
        return Sym("f", e)
    if c in "qQlLnN" and len(b) == 8:
        if c in "QLN":
            raise Unsupported("unsigned 64-bit values")
        return Sym("i", e)
    if c in "iIhHbBlL":
        return Sym("i", ["sext" if c.islower() else "zext", e])
    raise Unsupported("format " + c)


class Struct(object):
    error = rstruct.error

    @staticmethod
    def unpack_from(fmt, s, offset=0):
        n = rstruct.calcsize(fmt)
        b = raw(s)
        if offset < 0:
            offset += len(b)
        if len(b) - offset < n:
            raise rstruct.error("unpack_from requires a buffer of at least %d bytes" % (offset + n))
        return Struct.unpack(fmt, mkbytes(b[offset:offset + n]))

    @staticmethod
    def iter_unpack(fmt, s):
        n = rstruct.calcsize(fmt)
        b = raw(s)
        if n == 0 or len(b) % n:
            raise rstruct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
        return iter([Struct.unpack(fmt, mkbytes(b[i:i + n])) for i in range(0, len(b), n)])

    @staticmethod
    def unpack(fmt, s):
        b = raw(s)
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        if len(b) != rstruct.calcsize(fmt):
            raise rstruct.error("unpack requires a buffer of %d bytes" % rstruct.calcsize(fmt))
        f = "".join(fmt.split())
        order = "@"
        if f and f[0] in "@=<>!":
            order, f = f[0], f[1:]
        little = order == "<" or order in "@=" and sys.byteorder == "little"
        out, pos, num = [], 0, ""
        for c in f:
            if c.isdigit():
                num += c
                continue
            n = int(num) if num else 1
            num = ""
            w = SIZES[c] if order == "@" or c not in "lL" else 4
            if order == "@" and n >= 0:
                pos = (pos + w - 1) // w * w
            if c == "s":
                out.append(mkbytes(b[pos:pos + n]))
                pos += n
                continue
            for _ in range(n):
                if c == "c":
                    out.append(mkbytes(b[pos:pos + 1]))
                elif c != "x":
                    out.append(item(c, little, b[pos:pos + w]))
                pos += w
        return tuple(out)

    class Struct(object):
        def __init__(self, fmt):
            self.format, self.size = fmt, rstruct.calcsize(fmt)

        def unpack(self, s): return Struct.unpack(self.format, s)
        def unpack_from(self, s, offset=0): return Struct.unpack_from(self.format, s, offset)

    calcsize = staticmethod(rstruct.calcsize)
    pack = staticmethod(rstruct.pack)


class SymArray(list):
    """array.array"""
    def __init__(self, code, init=()):
        self.typecode, self.b = code, []
        self.itemsize = rstruct.calcsize(code)
        if isinstance(init, (bytes, bytearray, SymBytes)):
            self.frombytes(init)
        elif len(list(init)):
            raise Unsupported("array of values")

    def _fill(self):
        w = self.itemsize
        self[:] = [item(self.typecode, sys.byteorder == "little", self.b[i:i + w]) for i in range(0, len(self.b), w)]

    def frombytes(self, s):
        s = raw(s)
        if len(s) % self.itemsize:
            raise ValueError("bytes length not a multiple of item size")
        self.b += s
        self._fill()

    def fromfile(self, fp, n):
        if n < 0:
            n = 0
        s = raw(fp.read(int(n) * self.itemsize))
        self.frombytes(mkbytes(s[:len(s) // self.itemsize * self.itemsize]))
        if len(s) < n * self.itemsize:
            raise EOFError("read() didn't return enough bytes")

    def byteswap(self):
        w, o = self.itemsize, []
        for i in range(0, len(self.b), w):
            o += self.b[i:i + w][::-1]
        self.b = o
        self._fill()

    def tobytes(self): return mkbytes(self.b)


class Array(object):
    array = SymArray
    ArrayType = SymArray


class Numpy(object):
    def __getattr__(self, n): return getattr(rnp, n)

    @staticmethod
    def _items(b, dtype, count):
        d = rnp.dtype(plain(dtype))
        if d.fields is not None or d.subdtype is not None or d.kind not in "fiu":
            raise Unsupported("data type")
        little = d.byteorder == "<" or d.byteorder in "=|" and sys.byteorder == "little"
        w = d.itemsize
        code = {("f", 4): "f", ("f", 8): "d", ("i", 8): "q", ("i", 4): "i", ("u", 4): "I", ("u", 1): "B", ("i", 1): "b"}.get((d.kind, w))
        if code is None:
            raise Unsupported("data type")
        n = len(b) // w if count < 0 else count
        xs = [item(code, little, b[i * w:i * w + w]) for i in range(n)]
        if any(isinstance(x, Sym) for x in xs):
            a = rnp.empty(n, dtype=object)
            a[:] = xs
            return a
        return rnp.array(xs, dtype=d.newbyteorder("="))

    def fromfile(self, fp, dtype=float, count=-1, sep="", offset=0):
        if isinstance(fp, str):
            fp = sym_open(fp, "rb")
        fp.read(offset)
        w = rnp.dtype(plain(dtype)).itemsize
        b = raw(fp.read(-1 if count < 0 else int(count) * w))
        return self._items(b, dtype, len(b) // w)

    def frombuffer(self, s, dtype=float, count=-1, offset=0):
        b = raw(s)[offset:]
        w = rnp.dtype(plain(dtype)).itemsize
        if count < 0 and len(b) % w or count >= 0 and len(b) < count * w:
            raise ValueError("buffer size must be a multiple of element size")
        return self._items(b, dtype, count)

    def array(self, *a, **k):
        return symarray(rnp.array, *a, **k)

    def asarray(self, *a, **k):
        return symarray(rnp.asarray, *a, **k)


def plain(d):
    return getattr(d, "base", d) if isinstance(d, Meta) else d


def symarray(f, x, dtype=None, *a, **k):
    dtype = plain(dtype)
    if dtype is None:
        return f(x, *a, **k)
    o = rnp.asarray(x)
    if o.dtype != object:
        return f(x, dtype, *a, **k)
    d = rnp.dtype(dtype)
    kind = {("f", 4): "f", ("f", 8): "d", ("i", 8): "i"}.get((d.kind, d.itemsize))
    if kind is None:
        raise Unsupported("data type")
    out = rnp.empty(o.size, dtype=object)
    out[:] = [Sym(kind, cvt(v, kind)) for v in o.ravel()]
    return out.reshape(o.shape)


CONTENT = []


class SymFile(object):
    def __init__(self, mode):
        self.text, self.pos, self.closed = "b" not in mode, 0, False

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if n is None or n < 0:
            n = len(CONTENT)
        n = int(n)
        if self.text:
            for x in CONTENT:
                if not isinstance(x, int):
                    raise Unsupported("symbolic text")
                if x >= 128:
                    raise UnicodeDecodeError("utf-8", bytes([x]), 0, 1, "invalid start byte")
        s = mkbytes(CONTENT[self.pos:self.pos + n])
        self.pos = min(len(CONTENT), self.pos + n)
        return s.decode() if self.text else s

    def seek(self, off, whence=0):
        self.pos = int(off) + {0: 0, 1: self.pos, 2: len(CONTENT)}[whence]
        return self.pos

    def tell(self): return self.pos
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __getattr__(self, n): raise Unsupported("file." + n)


def sym_open(name, mode="r", *a, **k):
    if any(c in mode for c in "wax+"):
        raise Unsupported("writing")
    return SymFile(mode)


class Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.base) or isinstance(x, Sym) and (x.kind == "i") == (cls.base is int)


class Float(metaclass=Meta):
    base = float

    def __new__(cls, *a):
        if a and isinstance(a[0], Sym):
            return Sym("d", cvt(a[0], "d"))
        return float(*a)


class Int(metaclass=Meta):
    base = int
    from_bytes = int.from_bytes

    def __new__(cls, *a):
        if a and isinstance(a[0], Sym):
            return Sym("i", cvt(a[0], "i"))
        return int(*a)


# ---------- what is returned, as words

def iword(v): return cvt(v, "i")
def dword(v): return cvt(v, "d")


def fwords(a):
    a = a if isinstance(a, rnp.ndarray) else rnp.asarray(a)
    if a.dtype == object:
        return [cvt(v, "f") for v in a.ravel()]
    return [int(x) for x in rnp.ascontiguousarray(a, dtype="<f4").view("<u4").ravel()]


def grid_words(m, name):
    hd = m.read_header(name)
    w = [iword(hd.version), iword(hd.type.endianness_flag), iword(hd.type.header_size), iword(hd.type.grid_type), iword(hd.type.is_vector_grid)]
    c = hd.cosmo
    w += [dword(x) for x in (c.redshift, c.scale_factor, c.omega_m, c.omega_l, c.h0, c.rho_mean, c.rho_critical, c.box_width)]
    r = hd.render
    w += [iword(x) for x in (r.particles, r.total_pixels, r.subsample_length, r.min_projection_depth, r.projection_axis)]
    for v in (hd.loc.origin, hd.loc.span):
        w += [dword(v[i]) for i in range(3)]
    for v in (hd.loc.pixel_origin, hd.loc.pixel_span):
        w += [iword(v[i]) for i in range(3)]
    w += [dword(hd.loc.pixel_width)]
    w += [iword(hd.dim[i]) for i in range(3)] + [dword(hd.pw), iword(hd.axis)]
    kinds = [m.DENSITY, m.DENSITY_GRADIENT, m.VELOCITY, m.VELOCITY_DIVERGENCE, m.VELOCITY_CURL]
    w += [iword(k) for k in kinds]
    g = m.read_grid(name)
    g = g if isinstance(g, rnp.ndarray) else rnp.array(g)
    w += [g.ndim] + [int(n) for n in g.shape]
    return w + fwords(g)


def sheet_words(m, name):
    f = m.File(name)
    w = [dword(x) for x in (f.z, f.omega_m, f.h100, f.box_width)]
    w += [iword(x) for x in (f.count, f.count_width, f.x_width, f.xn_width, f.file_idx, f.file_cells)]
    for v in (f.x_origin, f.x_span, f.v_origin, f.v_span):
        w += [cvt(v[i], "f") for i in range(3)]
    for g in (f.xn, f.vn, f.x, f.v):
        w += [g.ndim] + [int(n) for n in g.shape] + fwords(g)
    return w


MODES = {"grid": grid_words, "sheet": sheet_words}


def load(path, ns):
    ns["__name__"] = "reader"
    ns["__file__"] = path
    with open(path) as fp:
        exec(compile(fp.read(), path, "exec"), ns)

    class M(object):
        def __getattr__(self, n):
            try:
                return ns[n]
            except KeyError:
                raise AttributeError(n)
    return M()


def main():
    mode, path, name = sys.argv[1:4]
    out, sys.stdout = sys.stdout, sys.stderr
    if name != "-":
        try:
            r = {"ok": True, "words": [int(x) for x in MODES[mode](load(path, {}), name)]}
        except (Exception, SystemExit) as e:
            r = {"ok": False, "words": [], "error": "%s: %s" % (type(e).__name__, e)}
        json.dump(r, out)
        return
    src = json.load(sys.stdin)
    CONTENT[:] = [["b", i] if x is None else x for i, x in enumerate(src)]
    sys.modules["struct"], sys.modules["array"], sys.modules["numpy"] = Struct, Array, Numpy()
    res = []
    while True:
        r = {"ok": True}
        try:
            r["words"] = MODES[mode](load(path, {"open": sym_open, "float": Float, "int": Int}), "file")
        except (Exception, SystemExit, Unsupported) as e:
            # Where the interpreter is at its limits the native replay tells failures from successes.
            r = {"ok": False, "words": [], "error": "%s: %s" % (type(e).__name__, e)}
        r["cond"] = PATHS.cond
        res.append(r)
        if len(res) > 200:
            sys.exit("too many outcomes")
        if not PATHS.next():
            break
    json.dump({"outcomes": res}, out)


main()
