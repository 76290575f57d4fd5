"""numpy arrays as functions of their index: an assumed contract on the numpy package.

An array is a strided window (offset, strides, shape) on a memory.  The memory starts as the bytes of a rope or as a
function of the element number; assignments are a log of (window, value at each index).  Reading an element at an
arbitrary index finds the last assignment that covers its address.  Sizes, strides and indices are symbolic.  Integer
elements wrap as their dtype does; float64 elements are real numbers (rounding is not modelled).  The dtype of a result
is asked of the real numpy.  Anything else is refused (Unsupported), never guessed.
"""
import builtins
import operator
import z3
import numpy as _np
import numpy.random as _npr
import math as _math
from numpy.lib import stride_tricks as _st
from . import core, rope, runtime
from .core import SInt, SBool, Unsupported, ctx, toint, tobool, mkint, mkbool, _conc, _isint
from .rope import known_eq

_int, _len, _isinstance, _range, _tuple, _slice = int, len, isinstance, range, tuple, slice
TRUSTED = "numpy: strided views, slicing, broadcasting, integer arithmetic of the dtype; float64 taken as real numbers (assumed contract)"


def known(e):
    """A condition the path condition settles, or the condition itself."""
    if _isinstance(e, SBool):
        if ctx().valid(e.e):
            return True
        if ctx().valid(z3.Not(e.e)):
            return False
    return e


def both(*es):
    out = []
    for e in es:
        if e is False:
            return False
        if e is not True:
            out.append(tobool(e))
    return True if not out else mkbool(z3.And(out))


def maximum0(n):
    n = _conc(n)
    if _isinstance(n, _int):
        return max(0, n)
    if (n.lo is not None and n.lo >= 0) or ctx().valid(n.e >= 0):
        return SInt(n.e, 0, n.hi)
    return mkint(z3.If(n.e >= 0, n.e, 0), 0, n.hi)


class Real(object):
    """An element of a float64 array."""
    __sym__ = True

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(x):
        if _isinstance(x, Real):
            return x.e
        if _isinstance(x, float):
            if x != x or x in (float("inf"), float("-inf")):
                raise Unsupported("non finite float")
            n, d = x.as_integer_ratio()
            return z3.Q(n, d)
        if _isinstance(x, _int):
            return z3.RealVal(x)
        if _isint(x):
            return z3.ToReal(toint(x))
        raise Unsupported("real of %r" % (x,))

    def __add__(self, o):
        return Real(self.e + Real.of(o))

    __radd__ = __add__

    def __sub__(self, o):
        return Real(self.e - Real.of(o))

    def __rsub__(self, o):
        return Real(Real.of(o) - self.e)

    def __mul__(self, o):
        return Real(self.e * Real.of(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Real(self.e / Real.of(o))

    def __neg__(self):
        return Real(-self.e)

    def __lt__(self, o):
        return mkbool(self.e < Real.of(o))

    def __le__(self, o):
        return mkbool(self.e <= Real.of(o))

    def __gt__(self, o):
        return mkbool(self.e > Real.of(o))

    def __ge__(self, o):
        return mkbool(self.e >= Real.of(o))

    def __eq__(self, o):
        return mkbool(self.e == Real.of(o))

    def __ne__(self, o):
        return core.notb(self == o)

    __hash__ = None

    def trunc(self):
        return SInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))


def limits(dt):
    bits = 8 * dt.itemsize
    return (0, (1 << bits) - 1) if dt.kind == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)


def cast(v, dt):
    """The value an element of dtype dt takes when v is assigned to it."""
    if dt.kind == "f":
        if dt.itemsize != 8:
            if _isinstance(v, (FloatBits,)):
                return v
            raise Unsupported("single precision arithmetic")
        return v if _isinstance(v, (Real, FloatBits)) else Real(Real.of(v))
    lo, hi = limits(dt)
    if _isinstance(v, FloatBits):
        raise Unsupported("float as integer")
    if _isinstance(v, (Real, float)):
        t = (v if _isinstance(v, Real) else Real(Real.of(v))).trunc()
        other = ctx().fresh_int("unspecified", lo, hi)       # C leaves conversions out of range undefined
        return mkint(z3.If(z3.And(t.e >= lo, t.e <= hi), t.e, toint(other)), lo, hi)
    a, b = core._rng(v)
    if a is not None and b is not None and lo <= a and b <= hi:
        return v
    m = v % (hi - lo + 1)
    if dt.kind == "i":
        m = core.ite(m > hi, m - (hi - lo + 1), m)
    return SInt(toint(m), lo, hi) if not _isinstance(m, _int) else m


class FloatBits(object):
    """An element of a float array read from memory, by its bits."""
    __sym__ = True

    def __init__(self, bits, size):
        self.bits, self.size = bits, size

    def __eq__(self, o):
        if _isinstance(o, FloatBits) and o.size == self.size:
            return self.bits == o.bits
        raise Unsupported("comparison of float bits")

    __hash__ = None


class Mem(object):
    def __init__(self, nbytes, data=None, fn=None, unit=1, writeable=True, owner=None):
        self.nbytes, self.data, self.fn, self.unit, self.writeable, self.owner = nbytes, data, fn, unit, writeable, owner
        self.log = ()


class Root(object):
    """A window the indices of which the arrays derived from it by slicing refer to."""

    def __init__(self, mem, dtype, off, shape, strides, packed=None):
        self.mem, self.dtype, self.off, self.shape, self.strides = mem, dtype, off, _tuple(shape), _tuple(strides)
        self.packed = packed        # (first element, elements between neighbours on each axis) of a window in order

    def number(self, ridx):
        """The element's place in the memory, counted in elements."""
        k = self.packed[0]
        for i, s in zip(ridx, self.packed[1]):
            k = k + i * s
        return k

    def address(self, ridx):
        a = self.off
        for i, s in zip(ridx, self.strides):
            a = a + i * s
        return a


def locate(w, root, ridx):
    """(condition, index in the array w) at which w holds the element ridx of root."""
    wr = w.root
    if wr is not root:
        if wr.dtype.itemsize != root.dtype.itemsize:
            raise Unsupported("overlapping arrays of different item sizes")
        cond, ridx = across(wr, root, ridx)
        if cond is False:
            return False, None
    else:
        cond = True
    for a, i in w.fixed.items():
        cond = both(cond, known(ridx[a] == i))
    widx = []
    for (a, start, step, n) in w.axes:
        d = ridx[a] - start
        if step != 1:
            cond = both(cond, known(d % step == 0))
            d = d // step
        cond = both(cond, known(d >= 0), known(d < n))
        if cond is False:
            return False, None
        widx.append(d)
    return cond, _tuple(widx)


def across(wr, root, ridx):
    """The index in the window wr of the element ridx of another window on the same memory."""
    c = ctx()
    size = root.dtype.itemsize
    if all(known_eq(a, b) for a, b in zip(wr.strides, root.strides)) and _len(wr.strides) == _len(root.strides) \
            and known_eq(wr.off, root.off):
        return True, ridx               # bounds are checked by the caller
    if wr.packed is not None and root.packed is not None:
        k = root.number(ridx) - wr.packed[0]
        if _len(wr.strides) == 1:
            return True, (k,)
        if _len(wr.strides) == 2:
            return True, rowcol(k, wr.packed[1][0])
    if _len(wr.strides) == 1 and known_eq(wr.strides[0], size):
        # a window of all the elements in order: the element's address tells
        d = root.address(ridx) - wr.off
        return (True if size == 1 else known(d % size == 0)), (d if size == 1 else d // size,)
    # apart: every element of one before every element of the other
    ends = []
    for r in (wr, root):
        last = r.off + size
        for s, n in zip(r.strides, r.shape):
            last = last + (n - 1) * s
        ends.append((r.off, last))
    (a, b), (p, q) = ends
    if c.valid(z3.Or(toint(b) <= toint(p), toint(q) <= toint(a))):
        return False, None
    if _len(wr.strides) == _len(root.strides) == 2 and known_eq(wr.strides[0], root.strides[0]):
        # rows of the same length: the rows are the same if what remains lies in one row of both
        s = wr.strides[0]
        base = wr.off if c.valid(toint(wr.off) <= toint(root.off)) else root.off
        ok = True
        for r in (wr, root):
            e = (r.off - base) + (r.shape[1] - 1) * r.strides[1]
            ok = ok and c.valid(z3.And(toint(r.off) >= toint(base), z3.Or(toint(r.shape[1]) <= 0, toint(e) < toint(s))))
        if ok:
            d = ridx[1] * root.strides[1] + (root.off - wr.off)
            cs = wr.strides[1]
            cond = True if _isinstance(cs, _int) and cs == 1 else known(d % cs == 0)
            return cond, (ridx[0], d // cs)
    if _len(wr.strides) == 2 and _len(root.strides) == 1:
        # one row after the other: the row and column are quotient and remainder of the address
        s, cs = wr.strides
        d = root.address(ridx) - wr.off
        e = (wr.shape[1] - 1) * cs
        if c.valid(z3.And(toint(s) > 0, toint(e) < toint(s))):
            y, x = rowcol(d, s)
            return both(known(x % cs == 0)), (y, x // cs)
    raise Unsupported("arrays that may overlap")


def place(y, x, s):
    """The position y * s + x of row y, column x in rows of s elements (0 <= x < s, which is checked)."""
    d = y * s + x
    if ctx().valid(z3.And(toint(x) >= 0, toint(x) < toint(s))):
        ctx().symbols[("rowcol", z3.simplify(toint(d)).sexpr(), z3.simplify(toint(s)).sexpr())] = (y, x)
    return d


def rowcol(d, s):
    """Quotient and remainder by a positive symbolic number (by their definition)."""
    c = ctx()
    if _isinstance(_conc(s), _int):
        return d // s, d % s
    key = ("rowcol", z3.simplify(toint(d)).sexpr(), z3.simplify(toint(s)).sexpr())
    if key not in c.symbols:
        y, x = c.fresh_int("row"), c.fresh_int("column")
        c.symbols[key] = (y, x)
        c.add(z3.And(toint(d) == y.e * toint(s) + x.e, x.e >= 0, x.e < toint(s)))
    return c.symbols[key]


def load(mem, log, root, ridx):
    if mem.fn is not None and mem.unit != root.dtype.itemsize:
        return recast(mem, log, root.address(ridx), root.dtype)
    for n in _range(_len(log) - 1, -1, -1):
        w, fn = log[n]
        cond, widx = locate(w, root, ridx)
        if cond is False:
            continue
        if cond is True:
            return cast(fn(widx), root.dtype)
        cond = known(cond)
        if cond is True:
            return cast(fn(widx), root.dtype)
        if cond is False:
            continue
        if bool(cond):                  # one case each
            return cast(fn(widx), root.dtype)
    a = root.address(ridx)
    dt = root.dtype
    if mem.fn is not None:
        return cast(mem.fn(a // mem.unit if mem.unit != 1 else a), dt)
    raw = rope._BytesCommon._getslice(mem.data, _slice(a, a + dt.itemsize))
    return number(raw, a, dt)


def number(raw, a, dt):
    v = rope.int_from_bytes(rope.mkbytes(raw), "little", dt.kind == "i")
    if dt.kind == "f":
        return FloatBits(v, dt.itemsize)
    at = rope.norm(raw)
    top = getattr(at[0].base, "top", None) if _len(at) == 1 and _isinstance(at[0], rope.Op) else None
    if top is not None and top[0] == dt.itemsize and not _isinstance(v, _int):
        # a precondition about every element: its instance at this one
        ctx().add(toint(v) <= top[1])
        v = SInt(v.e, 0, top[1])
    return v


def recast(mem, log, a, dt):
    """Bytes of computed elements read as wider integers."""
    if mem.unit != 1:
        raise Unsupported("array of another item size")
    r = Root(mem, _np.dtype(_np.uint8), 0, (mem.nbytes,), (1,), (0, (1,)))
    v = 0
    for i in _range(dt.itemsize):
        v = v + load(mem, log, r, (a + i,)) * (256 ** i)
    if dt.kind == "i":
        v = core.ite(v >= 1 << (8 * dt.itemsize - 1), v - (1 << (8 * dt.itemsize)), v)
    lo, hi = limits(dt)
    return SInt(toint(v), lo, hi) if not _isinstance(v, _int) else v


def total(shape):
    n = 1
    for k in shape:
        n = n * k
    return n


class Arr(object):
    __sym__ = True
    __hash__ = None

    def __init__(self, root, axes=None, fixed=None):
        ctx().trusted.add(TRUSTED)
        self.root = root
        self.axes = axes if axes is not None else [(a, 0, 1, n) for a, n in enumerate(root.shape)]
        self.fixed = fixed or {}

    # ------------------------------------------------------------ attributes
    @property
    def dtype(self):
        return self.root.dtype

    @property
    def itemsize(self):
        return self.root.dtype.itemsize

    @property
    def shape(self):
        return _tuple(ax[3] for ax in self.axes)

    @shape.setter
    def shape(self, value):
        r = self.reshape(value)
        self.root, self.axes, self.fixed = r.root, r.axes, r.fixed

    @property
    def strides(self):
        return _tuple(self.root.strides[a] * step for (a, _, step, _n) in self.axes)

    @property
    def ndim(self):
        return _len(self.axes)

    @property
    def size(self):
        return total(self.shape)

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def T(self):
        return self.transpose()

    @property
    def offset(self):
        return self.root.address(self.rindex(_tuple(0 for _ in self.axes)))

    def __symlen__(self):
        return _conc(self.shape[0])

    def __len__(self):
        n = self.__symlen__()
        if _isinstance(n, _int):
            return n
        raise Unsupported("machine len() of a symbolic array")

    def __bool__(self):
        raise Unsupported("truth of an array")

    # ------------------------------------------------------------ elements
    def rindex(self, idx):
        r = dict(self.fixed)
        for (a, start, step, _n), i in zip(self.axes, idx):
            r[a] = start + i * step
        return _tuple(r[a] for a in _range(_len(self.root.strides)))

    def at(self, idx, log=None):
        return load(self.root.mem, self.root.mem.log if log is None else log, self.root, self.rindex(idx))

    def reader(self):
        """The elements as they are now."""
        log, me = self.root.mem.log, Arr(self.root, list(self.axes), dict(self.fixed))
        return lambda idx: me.at(idx, log)

    def select(self, key):
        """(array, is element)"""
        key = key if _isinstance(key, _tuple) else (key,)
        if any(k is Ellipsis for k in key):
            n = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:n] + (_slice(None),) * (_len(self.axes) - _len(key) + 1) + key[n + 1:]
        if _len(key) > _len(self.axes):
            raise IndexError("too many indices for array")
        key = key + (_slice(None),) * (_len(self.axes) - _len(key))
        axes, fixed = [], dict(self.fixed)
        for k, (a, start, step, n) in zip(key, self.axes):
            if _isinstance(k, _slice):
                s, m, st = slicing(k, n)
                axes.append((a, start + s * step, step * st, m))
            elif _isint(k):
                if bool(k < 0):
                    k = k + n
                if not bool(both(known(k >= 0), known(k < n))):
                    raise IndexError("index is out of bounds")
                fixed[a] = start + k * step
            else:
                raise Unsupported("array index %r" % (k,))
        return Arr(self.root, axes, fixed)

    def __getitem__(self, key):
        r = self.select(key)
        return r.at(()) if not r.axes else r

    def __setitem__(self, key, value):
        r = self.select(key)
        r.assign(value)

    def assign(self, value):
        mem = self.root.mem
        if not mem.writeable:
            raise ValueError("assignment destination is read-only")
        v = array_of(value)
        if v is None:
            dt = self.dtype
            val = cast(value, dt)
            fn = lambda idx: val
        else:
            fit = broadcast_to(v.shape, self.shape)
            read = v.reader()
            fn = lambda idx: read(fit(idx))
        mem.log = mem.log + ((Arr(self.root, list(self.axes), dict(self.fixed)), fn),)
        if mem.owner is not None:
            mem.owner.atoms = [Lost(mem.nbytes)]

    def item(self, *a):
        if a or self.axes:
            raise Unsupported("item()")
        return self.at(())

    def fill(self, value):
        self.assign(value)

    # ------------------------------------------------------------ views
    def transpose(self, *perm):
        if perm and _isinstance(perm[0], (_tuple, list)):
            perm = _tuple(perm[0])
        order = perm or _tuple(_range(_len(self.axes) - 1, -1, -1))
        return Arr(self.root, [self.axes[i] for i in order], self.fixed)

    def contiguous(self):
        s = self.itemsize
        for n, st in reversed(_list(zip(self.shape, self.strides))):
            if not known_eq(st, s) and not known_eq(n, 1):
                return False
            s = s * n
        return True

    def reshape(self, *shape):
        if _len(shape) == 1 and _isinstance(shape[0], (_tuple, list)):
            shape = _tuple(shape[0])
        if not self.contiguous():
            return computed(self.size, self.flat(), self.dtype).reshape(shape)
        n = self.size
        if any(_isinstance(k, _int) and k == -1 for k in shape):
            rest = total([k for k in shape if not (_isinstance(k, _int) and k == -1)])
            if not bool(known(n % rest == 0)):
                raise ValueError("cannot reshape array")
            shape = _tuple(n // rest if _isinstance(k, _int) and k == -1 else k for k in shape)
        elif not bool(known(total(shape) == n)):
            raise ValueError("cannot reshape array")
        p = self.root.packed
        return window(self.root.mem, self.dtype, self.offset, shape,
                      None if p is None else self.root.number(self.rindex(_tuple(0 for _ in self.axes))))

    def flat(self):
        """The elements in order, as a function of the position."""
        read, shape = self.reader(), self.shape
        if _len(shape) == 1:
            return lambda k: read((k,))
        if _len(shape) == 2:
            def fn(k):
                y, x = rowcol(k, shape[1]) if not _isinstance(_conc(shape[1]), _int) else (k // shape[1], k % shape[1])
                return read((y, x))
            return fn
        raise Unsupported("order of the elements of an array of %d dimensions" % _len(shape))

    def ravel(self, order="C"):
        if self.contiguous():
            return self.reshape((self.size,))
        return self.flatten()

    def flatten(self, order="C"):
        return computed(self.size, self.flat(), self.dtype)

    def view(self, dtype=None, *a):
        dt = _np.dtype(dtype)
        if dt.itemsize == self.itemsize:
            if dt.kind == self.dtype.kind:
                return Arr(self.root, list(self.axes), self.fixed)
        if not self.contiguous():
            raise Unsupported("view of scattered elements")
        last = self.shape[-1] * self.itemsize
        if not bool(known(last % dt.itemsize == 0)):
            raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
        if self.root.mem.log and dt.itemsize != self.itemsize and not (self.root.mem.fn is not None and self.root.mem.unit == 1):
            raise Unsupported("view of assigned elements as another type")
        shape = self.shape[:-1] + (last // dt.itemsize,)
        strides = self.strides[:-1] + (dt.itemsize,)
        return Arr(Root(self.root.mem, dt, self.offset, shape, strides))

    # ------------------------------------------------------------ copies
    def astype(self, dtype, **k):
        dt, read = _np.dtype(dtype), self.reader()
        return lazy(self.shape, lambda idx: cast(read(idx), dt), dt)

    def copy(self, order="C"):
        return lazy(self.shape, self.reader(), self.dtype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __sym_bytes__(self):
        m = self.root.mem
        if m.data is None or m.log or not self.contiguous():
            raise Unsupported("bytes of a computed array")
        return rope.mkbytes(rope._BytesCommon._getslice(m.data, _slice(self.offset, self.offset + self.nbytes)))

    tobytes = __sym_bytes__

    def __array__(self, *a, **k):
        raise Unsupported("array of an array")

    # ------------------------------------------------------------ arithmetic
    def _op(self, o, f, name, rev=False, dtype=None):
        v = array_of(o)
        if v is None and not _isint(o) and not _isinstance(o, (float, Real)):
            return NotImplemented
        if v is None and _isinstance(o, SInt):
            raise Unsupported("array and a symbolic number")
        x = _np.ones((1,), self.dtype)
        y = o if v is None else _np.ones((1,), v.dtype)
        dt = dtype or (f(y, x) if rev else f(x, y)).dtype
        ra = self.reader()
        if v is None:
            shape, fa, rb, fb = self.shape, lambda i: i, None, None
        else:
            shape = result_shape(self.shape, v.shape)
            fa, fb, rb = broadcast_to(self.shape, shape), broadcast_to(v.shape, shape), v.reader()

        def fn(idx):
            p = cast(ra(fa(idx)), dt)
            q = o if v is None else cast(rb(fb(idx)), dt)
            if dt.kind == "f" and v is None:
                q = Real(Real.of(o))
            return cast(f(q, p) if rev else f(p, q), dt)
        return lazy(shape, fn, dt)

    def _iop(self, o, f, name):
        r = self._op(o, f, name)
        if not self.root.mem.writeable:
            raise ValueError("output array is read-only")
        if not _np.can_cast(r.dtype, self.dtype, "same_kind"):
            raise TypeError("Cannot cast ufunc output")
        self.assign(r)
        return self

    def __neg__(self):
        return 0 - self


for _n, _f in (("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("and", operator.and_),
               ("or", operator.or_), ("xor", operator.xor), ("lshift", operator.lshift), ("rshift", operator.rshift),
               ("floordiv", operator.floordiv), ("mod", operator.mod), ("truediv", operator.truediv)):
    def _mk(f, n):
        return (lambda self, o: self._op(o, f, n), lambda self, o: self._op(o, f, n, True), lambda self, o: self._iop(o, f, n))
    _a, _b, _c = _mk(_f, _n)
    setattr(Arr, "__%s__" % _n, _a)
    setattr(Arr, "__r%s__" % _n, _b)
    setattr(Arr, "__i%s__" % _n, _c)

_list = builtins.list


def slicing(k, n):
    """(start, count, step) of a slice of n elements."""
    st = 1 if k.step is None else _conc(k.step)
    if not _isinstance(st, _int) or st <= 0:
        raise Unsupported("slice step")

    def bound(i, default):
        if i is None:
            return default
        i = _conc(i)
        if known(i < 0) is True:
            i = i + n
            if known(i >= 0) is not True:
                i = maximum0(i)
        elif known(i >= 0) is not True:
            raise Unsupported("slice bound of unknown sign")
        r = known(i <= n)
        if r is True:
            return i
        if r is False:
            return n
        return mkint(z3.If(toint(i) <= toint(n), toint(i), toint(n)), 0)
    a, b = bound(k.start, 0), bound(k.stop, n)
    m = maximum0(b - a)
    if st != 1:
        m = (m + (st - 1)) // st
    return a, m, st


def result_shape(a, b):
    n = max(_len(a), _len(b))
    a, b = (1,) * (n - _len(a)) + _tuple(a), (1,) * (n - _len(b)) + _tuple(b)
    out = []
    for p, q in zip(a, b):
        if known_eq(p, q):
            out.append(p)
        elif bool(known(p == q)):
            out.append(p)
        elif bool(known(p == 1)):
            out.append(q)
        elif bool(known(q == 1)):
            out.append(p)
        else:
            raise ValueError("operands could not be broadcast together")
    return _tuple(out)


def broadcast_to(src, dst):
    """The index in an array of shape src for an index of the shape it is broadcast to."""
    if _len(src) > _len(dst):
        raise Unsupported("more dimensions")
    k = _len(dst) - _len(src)
    keep = []
    for p, q in zip(src, dst[k:]):
        if known_eq(p, q) or bool(known(p == q)):
            keep.append(True)
        elif bool(known(p == 1)):
            keep.append(False)
        else:
            raise ValueError("could not broadcast input array")
    return lambda idx: _tuple(i if f else 0 for i, f in zip(idx[k:], keep))


def array_of(x):
    if _isinstance(x, Arr):
        return x
    if _isinstance(x, _np.generic):
        return None
    if _isinstance(x, _np.ndarray):
        raise Unsupported("concrete array")
    return None


def computed(n, fn, dt):
    return window(Mem(n * dt.itemsize, fn=fn, unit=dt.itemsize), dt, 0, (n,), 0)


def window(mem, dt, off, shape, first):
    """The elements in order from the one at off, in this shape."""
    strides, s = [], 1
    for k in reversed(shape):
        strides.append(s)
        s = s * k
    strides.reverse()
    return Arr(Root(mem, dt, off, shape, [k * dt.itemsize for k in strides],
                    None if first is None else (first, _tuple(strides))))


def lazy(shape, fn, dt):
    """A fresh array whose element at idx is fn(idx)."""
    mem = Mem(total(shape) * dt.itemsize, unit=dt.itemsize)
    r = window(mem, dt, 0, shape, 0)
    mem.log = ((r, fn),)
    mem.fn = Unwritten()
    return Arr(r.root, r.axes)


class Unwritten(object):
    def __call__(self, k):
        raise Unsupported("element outside a fresh array")


class Lost(rope.Atom):
    def __init__(self, n):
        self.n = n


def _memory(buf):
    """The memory behind a buffer."""
    c = ctx()
    mems = c.symbols.setdefault(("numpy", "memories"), {})
    if id(buf) in mems:
        return mems[id(buf)][1]
    if _isinstance(buf, rope._BytesCommon):
        n = buf.__symlen__()
        w = _isinstance(buf, rope.SByteArray)
        m = Mem(n, data=rope.mkbytes(list(buf.atoms)), writeable=w, owner=buf if w else None)
    elif _isinstance(buf, (bytes, bytearray)):
        m = Mem(_len(buf), data=rope.SBytes([rope.Conc(bytes(buf))]), writeable=_isinstance(buf, bytearray))
    else:
        raise Unsupported("buffer of %s" % type(buf).__name__)
    mems[id(buf)] = (buf, m)
    return m


def frombuffer(buffer, dtype=float, count=-1, offset=0):
    dt = _np.dtype(dtype)
    if count != -1 or not (_isinstance(offset, _int) and offset == 0):
        raise Unsupported("part of a buffer")
    if _isinstance(buffer, Arr):
        if not buffer.contiguous():
            raise ValueError("ndarray is not C-contiguous")
        n, mem, off = buffer.nbytes, buffer.root.mem, buffer.offset
        if dt.itemsize != buffer.itemsize or dt.kind != buffer.dtype.kind:
            return buffer.reshape((buffer.size,)).view(dt)
        return buffer.reshape((buffer.size,))
    mem, off = _memory(buffer), 0
    n = mem.nbytes
    if not bool(known(n % dt.itemsize == 0)):
        raise ValueError("buffer size must be a multiple of element size")
    return window(mem, dt, off, (n // dt.itemsize,), 0)


def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
    shape = _tuple(x.shape if shape is None else shape)
    strides = _tuple(x.strides if strides is None else strides)
    off = x.offset
    last = off + x.itemsize
    empty = []
    for n, s in zip(shape, strides):
        last = last + (n - 1) * s
        empty.append(toint(n) <= 0)
    c = ctx()
    if getattr(c, "views_inside", True):
        c.prove(z3.Or(empty + [z3.And(toint(off) >= 0, toint(last) <= toint(x.root.mem.nbytes))]), "view-inside-its-memory",
                "as_strided to %s" % (shape,))
    return Arr(Root(x.root.mem, x.dtype, off, shape, strides))


def full(shape, dt, v):
    shape = _tuple(shape) if _isinstance(shape, (_tuple, list)) else (shape,)
    return lazy(shape, lambda idx: v, _np.dtype(dt))


class RANDOM(object):
    def __getattr__(self, name):
        raise Unsupported("numpy.random." + name)

    def random_sample(self, size=None):
        shape = _tuple(size) if _isinstance(size, (_tuple, list)) else (size,)
        k = ctx().symbols[("numpy", "random")] = ctx().symbols.get(("numpy", "random"), 0) + 1
        fn = z3.Function("random!%d" % k, *([z3.IntSort()] * _len(shape) + [z3.RealSort()]))

        def value(idx):
            e = fn(*[toint(i) for i in idx])
            ctx().add(z3.And(e >= 0, e < 1))
            return Real(e)
        return lazy(shape, value, _np.dtype(float))

    random = random_sample


class NUMPY(object):
    random = RANDOM()

    def __getattr__(self, name):
        v = getattr(_np, name)
        if callable(v) and not _isinstance(v, type):
            def f(*a, **k):
                if any(_isinstance(x, (Arr, SInt, Real)) for x in list(a) + list(k.values())):
                    raise Unsupported("numpy." + name)
                return v(*a, **k)
            return f
        return v

    frombuffer = staticmethod(frombuffer)

    def array(self, x, dtype=None, copy=True):
        if _isinstance(x, Arr):
            return x.copy() if dtype is None else x.astype(dtype)
        return _np.array(x, dtype=dtype)

    def asarray(self, x, dtype=None):
        if _isinstance(x, Arr):
            return x if dtype is None or _np.dtype(dtype) == x.dtype else x.astype(dtype)
        return _np.asarray(x, dtype=dtype)

    def zeros(self, shape, dtype=float, **k):
        return full(shape, dtype, 0 if _np.dtype(dtype).kind != "f" else Real(z3.RealVal(0)))

    def empty(self, shape, dtype=float, **k):
        return full(shape, dtype, ctx().fresh_int("uninitialised", *limits(_np.dtype(dtype))))

    def zeros_like(self, a, dtype=None):
        return self.zeros(a.shape, dtype or a.dtype)

    def ravel(self, a):
        return a.ravel()

    def transpose(self, a, axes=None):
        return a.transpose(*(axes or ()))

    def _out(self, r, out, casting):
        if out is None:
            return r
        if not _np.can_cast(r.dtype, out.dtype, casting):
            raise TypeError("Cannot cast ufunc output")
        out.assign(r)
        return out

    def clip(self, a, a_min, a_max, out=None, casting="same_kind", **k):
        if not _isinstance(a, Arr):
            return _np.clip(a, a_min, a_max)
        dt = _np.clip(_np.ones((1,), a.dtype), a_min, a_max).dtype
        read = a.reader()

        def fn(idx):
            v = cast(read(idx), dt)
            for bound, less in ((a_min, True), (a_max, False)):
                if bound is None:
                    continue
                if _isinstance(v, Real):
                    b = Real.of(bound)
                    v = Real(z3.If(v.e < b, b, v.e) if less else z3.If(v.e > b, b, v.e))
                else:
                    v = pick(v, bound, less)
            return v
        return self._out(lazy(a.shape, fn, dt), out, casting)

    def minimum(self, a, b, out=None, casting="same_kind", dtype=None):
        return self._minmax(a, b, False, out, casting)

    def maximum(self, a, b, out=None, casting="same_kind", dtype=None):
        return self._minmax(a, b, True, out, casting)

    def _minmax(self, a, b, larger, out, casting):
        if not _isinstance(a, Arr):
            a, b = b, a
        return self._out(a._op(b, lambda p, q: (_np.maximum if larger else _np.minimum)(p, q)
                               if _isinstance(p, _np.ndarray) or _isinstance(q, _np.ndarray) else pick(p, q, larger), "minmax"),
                         out, casting)

    def subtract(self, a, b, out=None, casting="same_kind", dtype=None):
        return self._out(a._op(b, operator.sub, "sub", dtype=None if dtype is None else _np.dtype(dtype)), out, casting)

    def add(self, a, b, out=None, casting="same_kind", dtype=None):
        return self._out(a._op(b, operator.add, "add", dtype=None if dtype is None else _np.dtype(dtype)), out, casting)

    def square(self, a):
        return a * a

    def right_shift(self, a, b, out=None, casting="same_kind"):
        return self._out(a >> b, out, casting)

    def left_shift(self, a, b, out=None, casting="same_kind"):
        return self._out(a << b, out, casting)

    def bitwise_and(self, a, b, out=None, casting="same_kind"):
        return self._out(a & b, out, casting)

    def bitwise_or(self, a, b, out=None, casting="same_kind"):
        return self._out(a | b, out, casting)


def pick(v, b, larger):
    if _isinstance(v, Real) or _isinstance(b, (Real, float)):
        x, y = Real.of(v), Real.of(b)
        return Real(z3.If(x < y, y, x) if larger else z3.If(x > y, y, x))
    (a, z), (p, q) = core._rng(v), core._rng(b)
    r = core.ite(v < b, b, v) if larger else core.ite(v > b, b, v)
    if _isinstance(r, SInt) and None not in (a, z, p, q):
        f = max if larger else min
        r = SInt(r.e, f(a, p), f(z, q))
    return r


def substitute():
    return {id(_np): NUMPY(), id(_npr): NUMPY.random, id(_st.as_strided): as_strided}
