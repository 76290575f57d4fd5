"""bitstring.BitStream over symbolic byte strings: an assumed contract on the bitstring package.

A NAL unit of the contract is an opaque byte string (any length) of which is known: the syntax elements it starts with
(each written with a descriptor u(n), ue(v) or se(v)), the places of its emulation prevention bytes, that it holds no
start code, and that its last byte is not zero.  Reading with the descriptor an element was written with gives its value;
reading past the end of the data raises ReadError.  Anything else is refused (Unsupported), never guessed.
"""
import builtins
import re
import z3
from . import core, rope
from .core import SInt, Unsupported, ctx, toint, _conc
from .rope import Conc, Num, Op, atoms_of, known_eq, norm, rlen, split

_int, _len, _isinstance, _range, _list = builtins.int, builtins.len, builtins.isinstance, builtins.range, builtins.list
TRUSTED = "bitstring: BitStream.read/readlist/findall/slices/append as documented (assumed contract)"


class Nal(object):
    def __init__(self, fields, escapes):
        self.fields, self.escapes = fields, escapes      # escapes: raw positions of the 03 bytes, ascending


def joined(atoms):
    out = []
    for a in norm(_list(atoms)):
        if out and _isinstance(a, Op) and _isinstance(out[-1], Op) and a.base is out[-1].base \
                and known_eq(out[-1].start + out[-1].n, a.start):
            out[-1] = Op(a.base, out[-1].start, out[-1].n + a.n)
        elif not known_eq(a.n, 0):
            out.append(a)
    return out


class SBits(object):
    __sym__ = True

    def __init__(self, atoms):
        ctx().trusted.add(TRUSTED)
        self.atoms = joined(atoms)
        self._pos, self._items = 0, None

    # ------------------------------------------------------------ bytes
    @property
    def len(self):
        return rlen(self.atoms) * 8

    length = len

    def __symlen__(self):
        return _conc(self.len)

    def __len__(self):
        n = self.__symlen__()
        if _isinstance(n, _int):
            return n
        raise Unsupported("machine len() of symbolic bits")

    @property
    def pos(self):
        if self._pos is None:
            raise Unsupported("position after an element of unknown length")
        return self._pos

    @pos.setter
    def pos(self, v):
        v = _conc(v)
        if not _isinstance(v, _int) or v < 0:
            raise Unsupported("symbolic bit position")
        self._pos, self._items = 0, None
        while self._pos < v:
            self._uint(builtins.min(8, v - self._pos))

    bitpos = pos

    def _byte(self, bits):
        bits = _conc(bits)
        if _isinstance(bits, _int):
            if bits % 8:
                raise Unsupported("slice of bits not on a byte")
            return bits // 8
        if not ctx().valid(toint(bits) % 8 == 0):
            raise Unsupported("slice of bits not on a byte")
        return bits // 8

    def __getitem__(self, key):
        if not _isinstance(key, slice) or key.step not in (None, 1):
            raise Unsupported("bit %r" % (key,))
        n = rlen(self.atoms)
        a = 0 if key.start is None else self._byte(key.start)
        b = n if key.stop is None else self._byte(key.stop)
        if bool(a < 0) or bool(b < 0):
            raise Unsupported("negative bit position")
        if bool(b > n):
            b = n
        if bool(a >= b):
            return SBits([])
        _, r = split(self.atoms, a)
        if known_eq(b, n):
            return SBits(r)
        x, _ = split(r, b - a)
        return SBits(x)

    def append(self, o):
        if not _isinstance(o, SBits):
            raise Unsupported("append of %s" % type(o).__name__)
        self.atoms = joined(_list(self.atoms) + _list(o.atoms))
        self._items = None
        if self._pos != 0:
            p = self.pos
            self.pos = p

    def tobytes(self):
        return rope.mkbytes(self.atoms)

    bytes = property(tobytes)

    def __copy__(self):
        return SBits(self.atoms)

    def findall(self, pattern, start=None, end=None, count=None, bytealigned=None):
        if not _isinstance(pattern, str) or not pattern.startswith("0x") or not bytealigned \
                or (start, end, count) != (None, None, None):
            raise Unsupported("findall %r" % (pattern,))
        want = bytes.fromhex(pattern[2:])
        if want not in (b"\0\0\1", b"\0\0\3"):
            raise Unsupported("findall %r" % (pattern,))
        out, off, atoms = [], 0, [a for a in self.atoms if not known_eq(a.n, 0)]
        for i, a in enumerate(atoms):
            last = i + 1 == _len(atoms)
            if _isinstance(a, Conc):
                for k in _range(_len(a.b) - 2):
                    if a.b[k:k + 3] == want:
                        out.append((off + k) * 8)
                if not last and a.b[-1:] == b"\0":
                    raise Unsupported("search across the end of %r" % (a,))
            elif _isinstance(a, Op) and getattr(a.base, "nal", None) is not None:
                if not last and not known_eq(a.start + a.n, a.base.length):
                    # joined again where an emulation prevention byte was dropped: no start code arises by decoding
                    raise Unsupported("search in a joined unit")
                if want == b"\0\0\3":
                    for p in a.base.nal.escapes:
                        if bool(p - 2 < a.start):
                            if bool(p >= a.start):
                                raise Unsupported("unit cut inside an escape")
                            continue
                        if bool(p < a.start + a.n):
                            out.append((off + (p - 2 - a.start)) * 8)
            else:
                raise Unsupported("search in %r" % (a,))
            off = off + a.n
        return iter(out)

    # ------------------------------------------------------------ elements
    def _build(self):
        items, i, atoms = [], 0, self.atoms
        while i < _len(atoms):
            a = atoms[i]
            if _isinstance(a, Conc):
                items += [["u", 8, b, False] for b in a.b]
                i += 1
            elif _isinstance(a, Num) and _isinstance(a.n, _int):
                items += [["u", 8, a.byte(k), False] for k in _range(a.n)]
                i += 1
            elif _isinstance(a, Op) and getattr(a.base, "nal", None) is not None:
                run = []
                while i < _len(atoms) and _isinstance(atoms[i], Op) and atoms[i].base is a.base:
                    run.append(atoms[i])
                    i += 1
                items += self._unit(a.base, run)
            else:
                items.append(["other", 0, None, False])
                break
        return items

    def _unit(self, base, run):
        """The elements of a unit given as pieces of its bytes."""
        if not known_eq(run[0].start, 0):
            return [["other", 0, None, False]]
        end = run[-1].start + run[-1].n
        cut = not known_eq(end, base.length)
        if cut and not ctx().valid(toint(end) < toint(base.length)):
            cut = bool(end < base.length)
        if cut and base.nal.escapes:
            p = base.nal.escapes[-1]                       # an escape may be the last byte
            if bool(p == base.length - 1) and bool(end == p):
                cut = False
        dropped = [(run[j].start + run[j].n, run[j + 1].start) for j in _range(_len(run) - 1)]
        plain = True
        for p in base.nal.escapes:
            if dropped and known_eq(dropped[0][0], p) and known_eq(dropped[0][1], p + 1):
                dropped.pop(0)
            elif known_eq(p, end) or (cut and bool(p >= end)):
                continue
            else:
                plain = False                             # the emulation prevention byte is still there
        if dropped:
            plain = False
        bits, out = 0, []
        for f in base.nal.fields:
            if not plain and not (f[0] == "u" and _isinstance(f[1], _int) and bits + f[1] <= 8):
                return out + [["other", 0, None, False]]  # only the first byte is known as it is
            f = _list(f)
            if f[0] != "u":
                f = [f[0], None, f[1]]
            if not cut:
                flag = False
                if bits is not None and f[0] == "u" and _isinstance(f[1], _int):
                    bits += f[1]
            elif f[0] == "u" and _isinstance(f[1], _int) and bits is not None and bits + f[1] <= 8:
                flag = ("byte", end)                       # the first byte is there or not
                bits += f[1]
            else:
                flag, bits = True, None
            out.append(f + [flag])
        out.append(["rest", 0, None, cut])
        return out

    def _front(self):
        if self._items is None:
            self._items = self._build()
        if not self._items:
            raise self._error()
        f = self._items[0]
        if f[0] == "other":
            raise Unsupported("bits of unknown contents")
        if f[3] and f[3] is not True:
            if bool(f[3][1] < 1):
                raise self._error()
            f[3] = False
        elif f[3]:
            if ctx().choose(["there", "cut"]) == "cut":
                raise self._error()
            f[3] = False
        if f[0] == "rest":
            raise Unsupported("bits of a unit beyond its header")
        return f

    def _error(self):
        from bitstring import ReadError
        return ReadError("Reading off end of data")

    def _uint(self, n):
        v, got = 0, 0
        if _isinstance(n, _int) and n == 0:
            raise ValueError("Cannot interpret a zero length bitstring as an integer.")
        while True:
            if _isinstance(n, _int) and got == n:
                break
            f = self._front()
            if f[0] != "u":
                raise Unsupported("u(%s) read where %s(v) was written" % (n, f[0]))
            w = f[1]
            if not _isinstance(w, _int) or not _isinstance(n, _int):
                if got or not known_eq(w, n):
                    if ctx().choose(["same", "other"]) == "same":
                        ctx().assume(w == n)
                    else:
                        raise Unsupported("u(%s) read where u(%s) was written" % (n, w))
                self._items.pop(0)
                self._pos = None
                return f[2]
            m = builtins.min(w, n - got)
            if m == w:
                self._items.pop(0)
                x = f[2]
            else:
                x = f[2] // (1 << (w - m))
                self._items[0] = ["u", w - m, f[2] % (1 << (w - m)), False]
            v = x if not got else v * (1 << m) + x
            got += m
            if self._pos is not None:
                self._pos += m
        return v

    def _golomb(self, kind):
        f = self._front()
        if f[0] != kind:
            raise Unsupported("%s(v) read where %s was written" % (kind, f[0]))
        self._items.pop(0)
        self._pos = None
        return f[2]

    def _token(self, t):
        t = t.strip()
        if t in ("ue", "se"):
            return self._golomb(t)
        if t == "bool":
            return self._uint(1) == 1
        m = re.fullmatch(r"uint(?:be)?:?(\d+)|u:?(\d+)", t)
        if m:
            return self._uint(_int(m.group(1) or m.group(2)))
        m = re.fullmatch(r"(?:uint|u):?<sym:(\d+)>", t)
        if m:
            return self._uint(_conc(ctx().formats[_int(m.group(1))]))
        raise Unsupported("read(%r)" % (t,))

    def read(self, fmt):
        if not _isinstance(fmt, str):
            raise Unsupported("read(%r)" % (fmt,))
        return self._token(fmt)

    def readlist(self, fmt):
        if not _isinstance(fmt, str):
            fmt = ",".join(fmt)
        out = []
        for t in fmt.split(","):
            m = re.fullmatch(r"\s*(\d+)\s*\*\s*(.*)", t)
            for _ in _range(_int(m.group(1)) if m else 1):
                out.append(self._token(m.group(2) if m else t))
        return out

    def peek(self, fmt):
        keep = (self._pos, [_list(f) for f in self._items] if self._items is not None else None)
        v = self.read(fmt)
        self._pos, self._items = keep
        return v

    def __getattr__(self, name):
        raise Unsupported("BitStream." + name)


def substitute():
    import bitstring
    from .models import _Sub

    def make(cls):
        class Stream(metaclass=_Sub):
            _real, _model = cls, SBits

            @staticmethod
            def _make(auto=None, bytes=None, length=None, offset=None, **k):
                if bytes is None or auto is not None or length is not None or offset is not None or k:
                    raise Unsupported("BitStream of anything but bytes")
                return SBits(atoms_of(bytes))
        return Stream
    return {id(c): make(c) for c in (bitstring.BitStream, bitstring.ConstBitStream)}


# ---------------------------------------------------------------- units of the contract
def unit(name, fields, escapes=0, rest=True):
    """The bytes of a NAL unit (after its start code): header elements, then anything."""
    c = ctx()
    fixed = sum(f[1] if f[0] == "u" and _isinstance(f[1], _int) else 1 for f in fields)
    n = c.int(name + ".length", (fixed + 7) // 8)
    c.__dict__.setdefault("small", {})[name + ".length"] = n
    b = rope.Base(name, n)
    ps = []
    for i in _range(escapes):
        p = c.int("%s.escape%d" % (name, i), 3)
        c.assume(p >= (ps[-1] + 3 if ps else 3))
        ps.append(p)
    if ps:
        c.assume(n > ps[-1])
    b.nal = Nal(fields, ps)
    c.add(z3.And(b.fn(toint(n - 1)) >= 1, b.fn(toint(n - 1)) <= 255))
    return rope.mkbytes([Op(b, 0, n)])
