"""Symbolic byte strings (ropes) and symbolic text."""
import builtins
import z3
from . import core
from .core import (SInt, SBool, Unsupported, ctx, toint, tobool, mkint, mkbool, unique_value, _conc, _isint)

_int, _len, _bytes, _isinstance, _range = int, len, bytes, isinstance, range


def _s(e):
    return z3.simplify(e)


def iszero(x):
    return _isinstance(x, _int) and x == 0


def known_eq(a, b):
    """Syntactic or proved equality of two lengths/positions."""
    if _isinstance(a, _int) and _isinstance(b, _int):
        return a == b
    e = _s(toint(a) == toint(b))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return ctx().valid(e)


# ---------------------------------------------------------------- atoms
class Atom(object):
    n = 0

    def split(self, rel):
        raise Unsupported("split of %s" % type(self).__name__)

    def byte(self, i):
        raise Unsupported("byte of %s" % type(self).__name__)


class Conc(Atom):
    def __init__(self, b):
        self.b = _bytes(b)
        self.n = _len(self.b)

    def uniform(self):
        return self.n > 0 and self.b.count(self.b[:1]) == self.n

    def split(self, rel):
        rel = _conc(rel)
        if not _isinstance(rel, _int) and self.uniform():
            return [Fill(self.b[0], rel)], [Fill(self.b[0], self.n - rel)]
        rel = small(rel, self.n)
        return [Conc(self.b[:rel])], [Conc(self.b[rel:])]

    def byte(self, i):
        i = _conc(i)
        if _isinstance(i, _int):
            return self.b[i]
        e = z3.IntVal(self.b[-1])
        for k in _range(self.n - 2, -1, -1):
            e = z3.If(toint(i) == k, z3.IntVal(self.b[k]), e)
        return SInt(e, 0, 255)

    def __repr__(self):
        return repr(self.b)


class Num(Atom):
    """n bytes holding the integer v, 0 <= v < 256**n, little or big endian."""

    def __init__(self, v, n, big=False):
        self.v, self.n, self.big = v, n, big

    def split(self, rel):
        rel = small(rel, self.n)
        if rel == 0:
            return [], [self]
        if rel == self.n:
            return [self], []
        ds = [Num(self.byte(i), 1) for i in _range(self.n)]
        return ds[:rel], ds[rel:]

    def byte(self, i):
        i = small(i, self.n - 1)
        if self.big:
            i = self.n - 1 - i
        if _isinstance(self.v, _int):
            return (self.v >> (8 * i)) & 255
        if self.n == 1:
            return SInt(toint(self.v), 0, 255)
        return core.byte_of(self.v, i, self.n)

    def __repr__(self):
        return "Num(%s,%d%s)" % (self.v if _isinstance(self.v, _int) else self.v.e, self.n, "b" if self.big else "")


class Base(object):
    """An opaque byte string constant of the contract (any content, any length)."""

    not_text = False
    known = None          # the content, where it is known

    def __init__(self, name, length, text=None):
        self.name, self.length, self.text = name, length, text
        self.code = z3.Int("content!" + name)
        self.fn = z3.Function("bytes!" + name, z3.IntSort(), z3.IntSort())

    def __repr__(self):
        return self.name


class Op(Atom):
    def __init__(self, base, start, n):
        self.base, self.start, self.n = base, start, n

    def whole(self):
        return known_eq(self.start, 0) and known_eq(self.n, self.base.length)

    def split(self, rel):
        return [Op(self.base, self.start, rel)], [Op(self.base, self.start + rel, self.n - rel)]

    def byte(self, i):
        e = self.base.fn(toint(self.start + i))
        ctx().add(z3.And(e >= 0, e <= 255))
        return SInt(e, 0, 255)

    def __repr__(self):
        return "Op(%s,%s,%s)" % (self.base, self.start, self.n)


class Fill(Atom):
    def __init__(self, b, n):
        self.b, self.n = b, n

    def split(self, rel):
        return [Fill(self.b, rel)], [Fill(self.b, self.n - rel)]

    def byte(self, i):
        return self.b

    def __repr__(self):
        return "Fill(%s,%s)" % (self.b, self.n)


class Rep(Atom):
    """Concatenation of elem(k) for 0 <= k < count (unbounded)."""

    def __init__(self, count, elem, lo=0, tag=""):
        self.count, self.elem, self.lo, self.tag = count, elem, lo, tag
        k = ctx().fresh_int("k")
        ln = rlen(elem(k))
        if not _isinstance(ln, _int):
            ln = unique_value(ln)
        if _isinstance(ln, _int):
            self.elen = ln
            self.n = (count - lo) * ln
        else:
            self.elen = None
            self.n = self.upto(count)
            if not iszero(lo):
                self.n = self.n - self.upto(lo)

    def upto(self, k):
        """Length of the elements before k (variable element length)."""
        from .seq import prefix_sum
        return prefix_sum(lambda j: rlen(self.elem(j)), k)

    def offset(self, k):
        if self.elen is not None:
            return (k - self.lo) * self.elen
        return self.upto(k) - (self.upto(self.lo) if not iszero(self.lo) else 0)

    def locate(self, rel):
        """(k, d): rel is d bytes into the element of the loop iteration k."""
        for k in reversed(getattr(ctx(), "loop_index", [])):
            d = _conc(rel - self.offset(k))
            if self.elen is None:
                if ctx().valid(z3.And(toint(d) >= 0, toint(d) <= toint(rlen(self.elem(k))),
                                      toint(k) >= toint(self.lo), toint(k) < toint(self.count))):
                    return k, d
                continue
            if _isinstance(d, _int) and 0 <= d <= self.elen and ctx().valid(
                    z3.And(toint(k) >= toint(self.lo), toint(k) < toint(self.count))):
                return k, d
        if self.elen is None:
            if ctx().valid(z3.And(toint(rel) > 0, toint(rel) <= toint(rlen(self.elem(self.lo))),
                                  tobool(self.count > self.lo))):
                return self.lo, rel
        elif _isinstance(rel, _int) and 0 < rel <= self.elen and ctx().valid(tobool(self.count > self.lo)):
            return self.lo, rel
        return None

    def split(self, rel):
        if known_eq(rel, 0):
            return [], [self]
        if known_eq(rel, self.n):
            return [self], []
        at = self.locate(rel)
        if at is not None:
            k, d = at
            head = [] if k is self.lo else [Rep(k, self.elem, self.lo)]
            a, b = split(self.elem(k), d)
            return head + a, b + [Rep(self.count, self.elem, k + 1)]
        raise Unsupported("position inside a repeated block: %s in %r" % (rel, self))

    def byte(self, i):
        raise Unsupported("byte of Rep")

    def __repr__(self):
        return "Rep(%s)" % (self.count,)


def small(i, hi, lo=0):
    """A concrete value for a small symbolic index (forks)."""
    i = _conc(i)
    if _isinstance(i, _int):
        return i
    if hi - lo > 64:
        u = unique_value(i)
        if u is not None:
            return u
        raise Unsupported("symbolic index into a long concrete string")
    for k in _range(lo, hi):
        if bool(i == k):
            return k
    ctx().assume(i == hi)
    return hi


def rlen(atoms):
    n = 0
    for a in atoms:
        n = n + a.n
    return n


def norm(atoms):
    out = []
    for a in atoms:
        if iszero(a.n):
            continue
        if _isinstance(a, Op) and a.base.known is not None and _isinstance(_conc(a.n), _int) and _isinstance(_conc(a.start), _int):
            a = Conc(a.base.known[_conc(a.start):_conc(a.start) + _conc(a.n)])
        if out and _isinstance(a, Conc) and _isinstance(out[-1], Conc):
            out[-1] = Conc(out[-1].b + a.b)
        elif out and _isinstance(a, Op) and _isinstance(out[-1], Op) and a.base is out[-1].base and \
                z3.is_true(_s(toint(out[-1].start + out[-1].n) == toint(a.start))):
            out[-1] = Op(a.base, out[-1].start, out[-1].n + a.n)
        elif _isinstance(a, Num) and _isinstance(a.v, _int):
            b = a.v.to_bytes(a.n, "big" if a.big else "little")
            if out and _isinstance(out[-1], Conc):
                out[-1] = Conc(out[-1].b + b)
            else:
                out.append(Conc(b))
        elif _isinstance(a, Fill) and _isinstance(a.n, _int) and _isinstance(a.b, _int) and a.n <= 65536:
            b = _bytes([a.b]) * max(a.n, 0)
            if out and _isinstance(out[-1], Conc):
                out[-1] = Conc(out[-1].b + b)
            else:
                out.append(Conc(b))
        elif _isinstance(a, Rep) and known_eq(a.n, 0):
            continue
        else:
            out.append(a)
    return out


def split(atoms, pos):
    """(left, right) at byte position pos, 0 <= pos <= len; forks when undetermined."""
    pos = _conc(pos)
    left = []
    atoms = list(atoms)
    off = 0
    while atoms:
        rel = pos - off
        if iszero(_conc(rel)):
            return left, atoms
        a = atoms[0]
        n = _conc(a.n)
        r = _conc(rel)
        if _isinstance(n, _int) and _isinstance(r, _int):
            if r >= n:
                left.append(a)
                atoms.pop(0)
                off = off + n
                continue
            x, y = a.split(r)
            return left + x, y + atoms[1:]
        c = ctx()
        ge = toint(rel) >= toint(n)
        if z3.is_true(_s(ge)) or c.valid(ge):
            left.append(a)
            atoms.pop(0)
            off = off + n
            continue
        if _isinstance(a, (Op, Fill)) or (_isinstance(a, Conc) and a.uniform()):
            # these split at any position, so no case distinction on the borders is needed
            if not c.valid(toint(rel) <= toint(n)) and bool(rel > n):
                left.append(a)
                atoms.pop(0)
                off = off + n
                continue
        elif _isinstance(a, Rep) and a.locate(rel) is not None:
            pass
        else:
            if bool(rel >= n):
                left.append(a)
                atoms.pop(0)
                off = off + n
                continue
            if bool(rel == 0):
                return left, atoms
        x, y = a.split(rel)
        return left + x, y + atoms[1:]
    return left, []


def atoms_of(x):
    if _isinstance(x, SBytes):
        return x.atoms
    if _isinstance(x, SByteArray):
        return x.atoms
    if _isinstance(x, (bytes, bytearray, memoryview)):
        return [Conc(_bytes(x))] if _len(x) else []
    if hasattr(x, "__sym_bytes__"):
        return atoms_of(x.__sym_bytes__())
    raise TypeError("a bytes-like object is required, not %r" % (type(x).__name__,))


def mkbytes(atoms):
    atoms = norm(atoms)
    if not atoms:
        return b""
    if _len(atoms) == 1 and _isinstance(atoms[0], Conc):
        return atoms[0].b
    return SBytes(atoms)


def int_to_bytes(v, length, byteorder="big", signed=False):
    length = _conc(length)
    if not _isinstance(length, _int):
        raise Unsupported("to_bytes with symbolic length")
    if signed:
        if bool(v < -(1 << (8 * length - 1))) or bool(v >= (1 << (8 * length - 1))):
            raise OverflowError("int too big to convert")
        v = core._mod(v, 1 << (8 * length))
    else:
        if bool(v < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if bool(v >= (1 << (8 * length))):
            raise OverflowError("int too big to convert")
    if not _isinstance(v, _int):
        v = SInt(toint(v), 0, (1 << (8 * length)) - 1)
    return mkbytes([Num(v, length, byteorder == "big")])


def int_from_bytes(b, byteorder="big", signed=False):
    atoms = norm(atoms_of(b))
    n = _conc(rlen(atoms))
    if not _isinstance(n, _int):
        raise Unsupported("from_bytes of symbolic length: %r" % (atoms,))
    big = byteorder == "big"
    if any(not _isinstance(a.n, _int) for a in atoms if not _isinstance(a, Rep)):
        atoms = [a for a in atoms if _isinstance(a, Rep) or _isinstance(a.n, _int) or not known_eq(a.n, 0)]
        for i, a in enumerate(atoms):
            if not _isinstance(_conc(a.n), _int) and _isinstance(a, (Op, Fill)) and n <= 16:
                k = small(a.n, n)         # one case for each length
                atoms[i] = Op(a.base, a.start, k) if _isinstance(a, Op) else Fill(a.b, k)
        atoms = norm(atoms)
    if _len(atoms) == 1 and _isinstance(atoms[0], Num) and atoms[0].big == big:
        v = atoms[0].v
    else:
        v = 0
        off = 0
        for a in atoms:
            if _isinstance(a, Num) and a.big == big:
                parts = [(a.v, a.n)]
            else:
                parts = [(a.byte(i), 1) for i in _range(a.n)]
            for (p, k) in parts:
                if big:
                    v = v * (256 ** k) + p
                else:
                    v = v + p * (256 ** off)
                off += k
    if not _isinstance(v, _int):
        v = SInt(toint(v), 0, 256 ** n - 1)
    if signed and n:
        v = core.ite(v >= (1 << (8 * n - 1)), v - (1 << (8 * n)), v)
    return v


def norm_slice(key, n):
    if key.step is not None and key.step != 1:
        raise Unsupported("slice step")
    a, b = key.start, key.stop
    a = 0 if a is None else clamp(a, n)
    b = n if b is None else clamp(b, n)
    if not (_isinstance(a, _int) and a == 0):
        if bool(b < a):
            b = a
    return a, b


def clamp(i, n):
    i = _conc(i)
    if bool(i < 0):
        i = i + n
        if bool(i < 0):
            return 0
        return i
    if known_le(i, n):
        return i
    if ctx().valid(toint(n) <= toint(i)):
        return n
    if bool(i > n):
        return n
    return i


def with_length(b, n):
    """b, whose length is known (from the path condition) to be the number n."""
    at = atoms_of(b)
    if _len(at) == 1 and _isinstance(at[0], Op) and not _isinstance(at[0].n, _int):
        return mkbytes([Op(at[0].base, at[0].start, n)])
    if _len(at) == 1 and _isinstance(at[0], Fill) and not _isinstance(at[0].n, _int):
        return mkbytes([Fill(at[0].b, n)])
    return b


def known_le(a, b):
    if _isinstance(a, _int) and _isinstance(b, _int):
        return a <= b
    return False


def eq_formula(x, y):
    """z3 formula for equality of two ropes (Unsupported if they cannot be aligned)."""
    a, b = norm(atoms_of(x)), norm(atoms_of(y))
    conj = []
    la, lb = rlen(a), rlen(b)
    le = _s(toint(la) == toint(lb))
    if z3.is_false(le):
        return z3.BoolVal(False)
    if not z3.is_true(le):
        if not ctx().valid(le):
            if not ctx()._check(le) == z3.sat:
                return z3.BoolVal(False)
            # lengths may differ: content only matters when they agree
            raise LengthMismatch(le)
    while a and b:
        p, q = a[0], b[0]
        if iszero(p.n) or known_eq(p.n, 0):
            a.pop(0)
            continue
        if iszero(q.n) or known_eq(q.n, 0):
            b.pop(0)
            continue
        if known_eq(p.n, q.n):
            conj.append(atom_eq(p, q))
            a.pop(0)
            b.pop(0)
            continue
        # align
        if _lt(p.n, q.n):
            l, r = q.split(p.n)
            b = l + r + b[1:]
            if known_eq(rlen(l), p.n) and _len(l) == 1:
                continue
            continue
        elif _lt(q.n, p.n):
            l, r = p.split(q.n)
            a = l + r + a[1:]
            continue
        if not getattr(ctx(), "rep_eq_depth", 0):
            # undetermined: one path for each order
            bool(p.n < q.n) or bool(q.n < p.n)
            continue
        raise Unsupported("cannot align byte strings %r / %r" % (p, q))
    rest = [t for t in a + b if not known_eq(t.n, 0)]
    if rest:
        raise Unsupported("cannot align byte strings (rest)")
    return z3.And(conj) if conj else z3.BoolVal(True)


class LengthMismatch(Exception):
    def __init__(self, e):
        self.e = e


def _lt(a, b):
    if _isinstance(a, _int) and _isinstance(b, _int):
        return a < b
    return ctx().valid(toint(a) < toint(b))


def approx(e=None):
    """Equality of arbitrary contents: an unconstrained truth value (implied by e)."""
    b = z3.Bool(ctx().name_fresh("same_content"))
    if e is not None:
        ctx().add(z3.Implies(e, b))
    return b


def atom_eq(p, q):
    if _isinstance(p, Conc) and _isinstance(q, Conc):
        return z3.BoolVal(p.b == q.b)
    if _isinstance(p, Num) and _isinstance(q, Num) and p.big == q.big:
        return toint(p.v) == toint(q.v)
    if _isinstance(p, Op) and _isinstance(q, Op):
        if p.base is q.base:
            e = _s(toint(p.start) == toint(q.start))
            if z3.is_true(e) or ctx().valid(e):
                return z3.BoolVal(True)
            if _isinstance(_conc(p.n), _int) and _conc(p.n) <= 32:
                return z3.And([toint(p.byte(i)) == toint(q.byte(i)) for i in _range(_conc(p.n))])
            return approx(e)
        if p.whole() and q.whole():
            return p.base.code == q.base.code
        if _isinstance(_conc(p.n), _int) and _conc(p.n) <= 32:
            return z3.And([toint(p.byte(i)) == toint(q.byte(i)) for i in _range(_conc(p.n))])
        return approx()
    if _isinstance(p, Fill) and _isinstance(q, Fill):
        return toint(p.b) == toint(q.b)
    if _isinstance(p, Rep) and _isinstance(q, Rep):
        if known_eq(p.lo, q.lo) and known_eq(p.count, q.count):
            k = ctx().fresh_int("kk")
            with_k = z3.And(k.e >= toint(p.lo), k.e < toint(p.count))
            ctx().rep_eq_depth = getattr(ctx(), "rep_eq_depth", 0) + 1
            try:
                f = eq_formula(SBytes(p.elem(k)), SBytes(q.elem(k)))
            finally:
                ctx().rep_eq_depth -= 1
            # skolemised: k is arbitrary, so proving the instance proves all elements
            return z3.Implies(with_k, f)
        raise Unsupported("cannot align repeated blocks")
    n = _conc(p.n)
    if not _isinstance(n, _int):
        n = _conc(q.n)
    if _isinstance(n, _int) and n <= 64 and not _isinstance(p, Rep) and not _isinstance(q, Rep):
        return z3.And([toint(p.byte(i)) == toint(q.byte(i)) for i in _range(n)])
    if (_isinstance(p, Op) and _isinstance(q, (Fill, Conc))) or (_isinstance(q, Op) and _isinstance(p, (Fill, Conc))):
        return approx()
    raise Unsupported("cannot compare %r with %r" % (p, q))


def prove_bytes_eq(x, y, name, detail=""):
    c = ctx()
    if c.dead:
        return
    try:
        f = eq_formula(x, y)
    except LengthMismatch as e:
        c.prove(e.e, name + ":length", detail + " lengths differ")
        return
    except TypeError as e:
        c.fail(name, detail + " not a byte string: %r" % (type(x),))
        return
    c.prove(f, name, detail or "%r vs %r" % (x, y))


class _BytesCommon(object):
    __sym__ = True

    def __symlen__(self):
        n = rlen(self.atoms)
        return _conc(n)

    def __len__(self):
        n = self.__symlen__()
        if _isinstance(n, _int):
            return n
        u = unique_value(n)
        if u is not None:
            return u
        raise Unsupported("machine len() of symbolic bytes")

    def __bool__(self):
        n = self.__symlen__()
        return bool(n != 0)

    def _getslice(self, key):
        n = self.__symlen__()
        a, b = norm_slice(key, n)
        _, r = split(self.atoms, a)
        l, _ = split(r, b - a)
        return l

    def _byte(self, i):
        i = _conc(i)
        n = self.__symlen__()
        if bool(i < 0):
            i = i + n
            if bool(i < 0):
                raise IndexError("index out of range")
        if bool(i >= n):
            raise IndexError("index out of range")
        off = 0
        for a in self.atoms:
            rel = _conc(i - off)
            m = _conc(a.n)
            if _isinstance(rel, _int) and _isinstance(m, _int):
                if rel < m:
                    return a.byte(rel)
            elif bool(rel < m):
                return a.byte(rel)
            off = off + m
        raise IndexError("index out of range")

    def __iter__(self):
        n = self.__symlen__()
        if not _isinstance(n, _int):
            u = unique_value(n)
            if u is None:
                raise Unsupported("iteration over symbolic-length bytes")
            n = u
        for i in _range(n):
            yield self._byte(i)

    def __eq__(self, o):
        try:
            f = eq_formula(self, o)
        except TypeError:
            return False
        except LengthMismatch as e:
            if not bool(SBool(e.e)):
                return False
            return self.__eq__(o)
        return mkbool(f)

    def __ne__(self, o):
        r = self.__eq__(o)
        return core.notb(r)

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __add__(self, o):
        try:
            b = atoms_of(o)
        except TypeError:
            return NotImplemented
        return self._mk(self.atoms + b)

    def __radd__(self, o):
        try:
            b = atoms_of(o)
        except TypeError:
            return NotImplemented
        return self._mk(b + self.atoms)

    def __mul__(self, k):
        k = _conc(k)
        if _isinstance(k, _int):
            return self._mk(self.atoms * max(0, k))
        if _len(self.atoms) == 1 and _isinstance(self.atoms[0], (Conc, Fill)) and _conc(self.atoms[0].n) == 1:
            return self._mk([Fill(self.atoms[0].byte(0), k)])
        raise Unsupported("repeat by symbolic count")

    __rmul__ = __mul__

    def __contains__(self, x):
        raise Unsupported("in on symbolic bytes")

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_text(self.atoms, encoding)

    def startswith(self, p):
        b = atoms_of(p)
        n = rlen(b)
        if bool(self.__symlen__() < n):
            return False
        l, _ = split(self.atoms, n)
        return mkbytes(l) == p

    def hex(self):
        raise Unsupported("hex")

    def ljust(self, width, fill=b" "):
        n = self.__symlen__()
        if bool(n >= width):
            return mkbytes(self.atoms)
        return self._mk(self.atoms + [Fill(fill[0], width - n)])

    def tobytes(self):
        return mkbytes(self.atoms)

    def join(self, items):
        raise Unsupported("join with symbolic separator")

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, "+".join(repr(a)[:60] for a in self.atoms[:12]))

    def __format__(self, spec):
        return "<sym bytes>"


class SBytes(_BytesCommon):
    def __init__(self, atoms):
        self.atoms = norm(atoms)

    def _mk(self, atoms):
        return mkbytes(atoms)

    def __bytes__(self):
        raise Unsupported("C-level bytes() of symbolic bytes")

    def __getitem__(self, key):
        if _isinstance(key, slice):
            return mkbytes(self._getslice(key))
        return self._byte(key)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SByteArray(_BytesCommon):
    """Mutable byte string."""

    def __init__(self, atoms=()):
        self.atoms = norm(atoms)

    def _mk(self, atoms):
        return SByteArray(atoms)

    def __sym_bytes__(self):
        return mkbytes(self.atoms)

    def __getitem__(self, key):
        if _isinstance(key, slice):
            return SByteArray(self._getslice(key))
        return self._byte(key)

    def __setitem__(self, key, value):
        n = self.__symlen__()
        if _isinstance(key, slice):
            a, b = norm_slice(key, n)
            l, r = split(self.atoms, a)
            _, r = split(r, b - a)
            self.atoms = norm(l + list(atoms_of(value)) + r)
            return
        i = _conc(key)
        if bool(i < 0):
            i = i + n
        if bool(i < 0) or bool(i >= n):
            raise IndexError("bytearray index out of range")
        if bool(value < 0) or bool(value > 255):
            raise ValueError("byte must be in range(0, 256)")
        l, r = split(self.atoms, i)
        _, r = split(r, 1)
        v = _conc(value)
        if not _isinstance(v, _int):
            v = SInt(toint(v), 0, 255)
        self.atoms = norm(l + [Num(v, 1)] + r)

    def __delitem__(self, key):
        if not _isinstance(key, slice):
            key = slice(key, key + 1)
        a, b = norm_slice(key, self.__symlen__())
        l, r = split(self.atoms, a)
        _, r = split(r, b - a)
        self.atoms = norm(l + r)

    def __iadd__(self, o):
        self.atoms = norm(self.atoms + list(atoms_of(o)))
        return self

    def extend(self, o):
        if _isinstance(o, (list, tuple)):
            for x in o:
                self.append(x)
            return
        self.__iadd__(o)

    def append(self, v):
        if bool(v < 0) or bool(v > 255):
            raise ValueError("byte must be in range(0, 256)")
        v = _conc(v)
        self.atoms = norm(self.atoms + ([Conc(_bytes([v]))] if _isinstance(v, _int) else
                                        [Num(SInt(toint(v), 0, 255), 1)]))

    def __copy__(self):
        return SByteArray(self.atoms)

    def __deepcopy__(self, memo):
        return SByteArray(self.atoms)

    def copy(self):
        return SByteArray(self.atoms)

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")


# ---------------------------------------------------------------- text
_StrSort = z3.DeclareSort("Text")
_str_consts = {}


def str_const(s):
    """Distinct constant of sort Text for a concrete string."""
    if s not in _str_consts:
        _str_consts[s] = z3.Const("txt!%d" % _len(_str_consts), _StrSort)
    return _str_consts[s]


class TextBase(object):
    """An arbitrary text of the contract; its UTF-8 encoding is an opaque byte string."""

    def __init__(self, name, nbytes, trailing_nul=False, leading_nul=False):
        self.name = name
        self.nbytes = nbytes
        self.trailing_nul = trailing_nul
        self.leading_nul = leading_nul
        self.const = z3.Const("text!" + name, _StrSort)
        self.enc = Base("utf8(" + name + ")", nbytes, text=self)
        self.enc.code = z3.Function("utf8code", _StrSort, z3.IntSort())(self.const)
        self.nchars = None


class Blur(str):
    """Text made of the text of symbolic objects, for messages: nothing can be decided about it."""
    __sym__ = True

    def __add__(self, o):
        return Blur("<sym>")

    __radd__ = __add__

    def _no(self, *a, **k):
        raise Unsupported("text of a symbolic object")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __contains__ = __getitem__ = __iter__ = __len__ = _no
    __mul__ = __mod__ = encode = split = strip = startswith = endswith = find = index = replace = partition = join = lower = upper = _no


class RepText(object):
    """prefix, then a character repeated symbolically many times (format strings of struct)."""
    __sym__ = True
    __sym_text__ = True

    def __init__(self, prefix, ch, n):
        self.prefix, self.ch, self.n = prefix, ch, n

    def __radd__(self, o):
        if not _isinstance(o, str):
            return NotImplemented
        return RepText(o + self.prefix, self.ch, self.n)

    def __eq__(self, o):
        raise Unsupported("comparison of repeated text")

    __hash__ = None


class SStr(object):
    """Concatenation of texts; parts are concrete str, TextBase or ('fill', ch, n)."""
    __sym__ = True

    def __init__(self, parts):
        out = []
        for p in parts:
            if _isinstance(p, str):
                if not p:
                    continue
                if out and _isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = out

    @staticmethod
    def mk(parts):
        if any(type(p) is Blur for p in parts):
            return Blur("<sym>")
        s = SStr(parts)
        if not s.parts:
            return ""
        if _len(s.parts) == 1 and _isinstance(s.parts[0], str):
            return s.parts[0]
        return s

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("-", "") not in ("utf8",):
            raise Unsupported("encode " + encoding)
        atoms = []
        for p in self.parts:
            if _isinstance(p, str):
                atoms.append(Conc(p.encode("utf-8")))
            elif _isinstance(p, TextBase):
                atoms.append(Op(p.enc, 0, p.nbytes))
            else:
                atoms.append(Fill(ord(p[1]), p[2]))
        return mkbytes(atoms)

    def _single(self):
        if _len(self.parts) == 1 and _isinstance(self.parts[0], TextBase):
            return self.parts[0]
        return None

    def _nonempty(self):
        n = 0
        for p in self.parts:
            n = n + (_len(p) if _isinstance(p, str) else p.nbytes if _isinstance(p, TextBase) else p[2])
        return n != 0

    def __bool__(self):
        return bool(self._nonempty())

    def __symlen__(self):
        s = self._single()
        if s is not None:
            if s.nchars is None:
                s.nchars = ctx().fresh_int("nchars", 0)
                ctx().add(z3.And(s.nchars.e <= toint(s.nbytes), toint(s.nbytes) <= 4 * s.nchars.e))
            return s.nchars
        raise Unsupported("len of text")

    def rstrip(self, chars=None):
        if chars != "\x00":
            raise Unsupported("rstrip")
        parts = list(self.parts)
        while parts:
            p = parts[-1]
            if _isinstance(p, tuple) and p[1] == "\x00":
                parts.pop()
                continue
            if _isinstance(p, str):
                q = p.rstrip("\x00")
                parts.pop()
                if q:
                    parts.append(q)
                    break
                continue
            if _isinstance(p, TextBase):
                if _len(parts) > 1 and bool(p.nbytes == 0):
                    parts.pop()
                    continue
                if p.trailing_nul:
                    raise Unsupported("text that may end with NUL")
                break
            raise Unsupported("rstrip")
        return SStr.mk(parts)

    def lstrip(self, chars=None):
        if chars != "\x00":
            raise Unsupported("lstrip")
        s = self._single()
        if s is not None and not s.leading_nul:
            return self
        raise Unsupported("lstrip")

    def strip(self, chars=None):
        r = self.rstrip(chars)
        if _isinstance(r, str):
            return r.strip(chars)
        return r.lstrip(chars)

    def __getitem__(self, key):
        if not _isinstance(key, slice) and key == 0 and self.parts:
            p = self.parts[0]
            if _isinstance(p, str):
                return p[0]
            if _isinstance(p, TextBase) and not p.leading_nul:
                return _FirstChar(p)
        raise Unsupported("indexing symbolic text")

    def __eq__(self, o):
        if _isinstance(o, SStr):
            a, b = self._single(), o._single()
            if a is not None and b is not None:
                return mkbool(a.const == b.const) if a is not b else True
            if self.parts == o.parts:
                return True
            raise Unsupported("text comparison")
        if _isinstance(o, str):
            a = self._single()
            if a is not None:
                m = _len(o.encode("utf-8"))
                e = a.const == str_const(o)
                ctx().add(z3.Implies(e, toint(a.nbytes) == m))
                if m == 0:
                    ctx().add(z3.Implies(toint(a.nbytes) == 0, e))
                for other, cst in _str_consts.items():
                    if other != o:
                        ctx().add(z3.Not(z3.And(e, a.const == cst)))
                return mkbool(e)
            raise Unsupported("text comparison")
        return False

    def __ne__(self, o):
        return core.notb(self.__eq__(o))

    def __hash__(self):
        return 0 if getattr(ctx(), "allow_hash", False) else _unsup("hash of text")

    def __add__(self, o):
        if _isinstance(o, str):
            return SStr.mk(self.parts + [o])
        if _isinstance(o, SStr):
            return SStr.mk(self.parts + o.parts)
        return NotImplemented

    def __radd__(self, o):
        if _isinstance(o, str):
            return SStr.mk([o] + self.parts)
        return NotImplemented

    def __format__(self, spec):
        return "<text>"

    def __repr__(self):
        return "SStr(%r)" % ([p if _isinstance(p, str) else getattr(p, "name", p) for p in self.parts],)

    def __deepcopy__(self, memo):
        return self


def _unsup(m):
    raise Unsupported(m)


class _FirstChar(object):
    __sym__ = True

    def __init__(self, base):
        self.base = base

    def __eq__(self, o):
        if o == "\x00":
            return False
        raise Unsupported("character comparison")

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


def decode_text(atoms, encoding="utf-8"):
    if encoding.lower().replace("-", "") != "utf8":
        raise Unsupported("decode " + encoding)
    parts = []
    conc = b""
    atoms = norm(atoms)
    for i, a in enumerate(atoms):
        if _isinstance(a, Op) and a.base.known is not None:
            k = small(a.n, _len(a.base.known))
            at = small(a.start, _len(a.base.known) - k)
            atoms[i] = Conc(a.base.known[at:at + k])
    for a in atoms:
        if _isinstance(a, Conc):
            conc += a.b
            continue
        if conc:
            parts.append(conc.decode("utf-8"))
            conc = b""
        if _isinstance(a, Op) and a.base.text is not None and a.whole():
            parts.append(a.base.text)
        elif _isinstance(a, Op) and a.base.not_text and a.whole():
            raise UnicodeDecodeError("utf-8", b"?", 0, 1, "not UTF-8")
        elif _isinstance(a, Op) and not _isinstance(a.n, _int) and known_eq(a.n, 0):
            continue
        elif _isinstance(a, Fill) and _isinstance(a.b, _int) and a.b < 128:
            parts.append(("fill", chr(a.b), a.n))
        elif (_isinstance(a, Op) and _isinstance(_conc(a.n), _int)) or _isinstance(a, Num):
            return decode_unknown(atoms)
        else:
            raise Unsupported("decode of %r" % (a,))
    if conc:
        parts.append(conc.decode("utf-8"))
    return SStr.mk(parts)


def decode_unknown(atoms):
    """Text of arbitrary bytes: either invalid UTF-8 or a fresh text (NULs possible)."""
    c = ctx()
    ok = c.boolean("utf8ok", register=False)
    if not bool(ok):
        raise UnicodeDecodeError("utf-8", b"?", 0, 1, "symbolic")
    hook = getattr(c, "decode_hook", None)
    if hook is not None:
        return hook(atoms)
    raise Unsupported("decode of arbitrary bytes")
