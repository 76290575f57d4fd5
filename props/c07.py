"""C07: lazily loaded bytes behave as the bytes of their window of the file, read once, without disturbing the file."""
import copy
import io as _io
from pyvc.prop import Harness
from .common import grain_fns

CONTRACTS = []
L = "mediagrains.utils.iobytes:LazyLoader."
I = "mediagrains.utils.iobytes:IOBytes."
FNS = (I + "__init__", I + "__bytes__", I + "__len__", I + "__repr__", L + "__init__", L + "__getattribute__",
       L + "__setattr__", L + "__eq__", L + "__ne__", L + "__getitem__", L + "__contains__", L + "__hash__", L + "__lt__",
       L + "__le__", L + "__gt__", L + "__ge__", L + "__str__")


class Watched(object):
    """A seekable file which counts reads and may fail the first of them."""

    def __init__(self, f, fail=0):
        self.f, self.reads, self.fail = f, [], fail

    def tell(self):
        return self.f.tell()

    def seek(self, *a):
        return self.f.seek(*a)

    def read(self, *a):
        self.reads.append((self.f.tell(),) + a)
        if self.fail:
            self.fail -= 1
            raise OSError("read failed")
        return self.f.read(*a)


def window(c, fail=0):
    from mediagrains.utils import IOBytes
    npre, n, npost = c.size("npre"), c.size("n"), c.size("npost")
    w = c.bytes("window", n)
    pos = c.size("pos")
    f = Watched(c.file(c.bytes("pre", npre) + w + c.bytes("post", npost), pos), fail)
    return f, IOBytes(f, npre, n), w, npre, n, pos


def same(c, got, want, name):
    if isinstance(want, (bytes, bytearray)) or hasattr(want, "atoms"):
        c.prove_bytes_eq(got, want, name)
    else:
        c.prove(got == want, name)


USES = {
    "bytes()": lambda c, x: bytes(x) if not c.symbolic else c.to_bytes(x),
    "slice": lambda c, x: x[c.size("a"):c.size("b")],
    "open slice": lambda c, x: x[c.size("a"):],
    "negative slice": lambda c, x: x[-c.size("a", 1):],
    "== equal": lambda c, x: x == c.bytes("window", c.size("n")),
    "== other": lambda c, x: x == c.bytes("other", c.size("nother")),
    "!= other": lambda c, x: x != c.bytes("other", c.size("nother")),
}


def use(name):
    def h(c):
        f, x, w, start, n, pos = window(c)
        c.prove(len(f.reads) == 0, "not read when made")
        c.prove((x.__len__() if c.symbolic else len(x)) == n, "length is known")
        repr(x)
        c.prove(len(f.reads) == 0, "not read for its length or representation")
        same(c, USES[name](c, x), USES[name](c, w), "result")
        c.cover("used")
        c.prove(f.tell() == pos, "file position is restored")
        c.prove(len(f.reads) == 1, "read once")
        c.prove(c.And(f.reads[0][0] == start, f.reads[0][1] == n), "exactly the window is read")
        same(c, USES[name](c, x), USES[name](c, w), "result again")
        same(c, USES["bytes()"](c, x), w, "bytes")
        c.prove((x.__len__() if c.symbolic else len(x)) == n, "length after use")
        c.prove(len(f.reads) == 1, "still read once")
        c.prove(f.tell() == pos, "file position untouched")
    return h


def index(c):
    f, x, w, start, n, pos = window(c)
    i = c.int("i")
    try:
        got = ("ok", x[i])
    except IndexError:
        got = ("IndexError", None)
    try:
        want = ("ok", w[i])
    except IndexError:
        want = ("IndexError", None)
    c.prove(got[0] == want[0], "outcome")
    if want[0] == "ok":
        c.cover("byte")
        c.prove(got[1] == want[1], "byte")
    c.prove(f.tell() == pos, "file position is restored")
    c.prove(len(f.reads) == 1, "read once")


def failing(c):
    """A failed read restores the position and the data can still be had later."""
    f, x, w, start, n, pos = window(c, 1)
    try:
        x[0:1]
    except OSError:
        pass
    else:
        c.fail("the error is passed on")
    c.prove(f.tell() == pos, "file position is restored after a failed read")
    f.seek(start)
    c.cover("failed")
    c.prove_bytes_eq(USES["bytes()"](c, x), w, "bytes after a failed read")
    c.prove(f.tell() == start, "file position is restored to where it was then")


def two_windows(c):
    """Windows of one file do not disturb each other, in whatever order they are used."""
    from mediagrains.utils import IOBytes
    n0, n1, gap = c.size("n0"), c.size("n1"), c.size("gap")
    a, g, b = c.bytes("a", n0), c.bytes("g", gap), c.bytes("b", n1)
    f = Watched(c.file(a + g + b, c.size("pos")))
    pos = f.tell()
    x, y = IOBytes(f, 0, n0), IOBytes(f, n0 + gap, n1)
    first, second = (x, a), (y, b)
    if c.boolean("swap"):
        first, second = second, first
    c.prove_bytes_eq(USES["bytes()"](c, first[0]), first[1], "first")
    f.seek(0)
    c.prove_bytes_eq(USES["bytes()"](c, second[0]), second[1], "second")
    c.prove_bytes_eq(USES["bytes()"](c, first[0]), first[1], "first again")
    c.cover("both")
    c.prove(f.tell() == 0, "file position")
    c.prove(len(f.reads) == 2, "each window is read once")


def grain(kind):
    """A grain holding lazy data knows its length without reading it."""
    def h(c):
        from mediagrains.grains import GrainFactory
        f, x, w, start, n, pos = window(c)
        g = GrainFactory({"grain": {"grain_type": kind}}, x)
        c.prove(g.length == n, "length")
        c.prove(len(f.reads) == 0, "not read for the length")
        c.prove_bytes_eq(c.to_bytes(g.data), w, "data")
        c.cover("data")
        c.prove(f.tell() == pos, "file position is restored")
    return h


# ------------------------------------------------------------ every other use of bytes: evaluated only
def attempt(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return (type(e).__name__, None)


def any_use(c):
    f, x, w, start, n, pos = window(c)
    other = c.bytes("other", c.size("nother", 0, 3))
    if c.boolean("member") and n:
        i = c.int("at", 0, n - 1)
        other = w[i:i + c.size("nother", 0, 3)]
    i, j = c.int("i", -50, 50), c.int("j", -50, 50)
    k = c.int("k", -1, 256)
    uses = [
        lambda v: v[i], lambda v: v[i:j], lambda v: v[::-1], lambda v: v[i::2], lambda v: v == other, lambda v: v != other,
        lambda v: v == w, lambda v: v != w,
        lambda v: v < other, lambda v: v <= other, lambda v: v > other, lambda v: v >= other, lambda v: other in v,
        lambda v: k in v, lambda v: hash(v), lambda v: str(v), lambda v: list(v), lambda v: list(reversed(v)),
        lambda v: v.hex(), lambda v: v.find(other), lambda v: v.index(other), lambda v: v.count(other),
        lambda v: v.startswith(other), lambda v: v.endswith(other), lambda v: v.split(b"\0"), lambda v: v.replace(b"\0", b"x"),
        lambda v: bytes(v), lambda v: bytearray(bytes(v)), lambda v: bool(v), lambda v: len(v), lambda v: sum(v),
        lambda v: b"".join([bytes(v), other]), lambda v: v.decode("latin-1"), lambda v: other == v, lambda v: other < v,
        lambda v: v.__getitem__(i), lambda v: v.strip(), lambda v: v.__eq__(other), lambda v: v.upper(),
        lambda v: v.no_such_attribute, lambda v: {v: 1}[w], lambda v: v[other], lambda v: int.from_bytes(v, "little"),
        lambda v: _io.BytesIO(bytes(v)).read(), lambda v: isinstance(v, (bytes, type(x))), lambda v: v.__contains__(k),
    ]
    u = c.int("use", 0, len(uses) - 1)
    c.prove(attempt(lambda: uses[u](x)) == attempt(lambda: uses[u](w)), "use %d" % u,
            "%r / %r" % (attempt(lambda: uses[u](x)), attempt(lambda: uses[u](w))))
    c.cover("used")
    c.prove(f.tell() == pos, "file position is restored")
    c.prove(len(f.reads) <= 1, "read at most once")
    c.prove(bytes(x) == w, "bytes")


HARNESSES = [Harness("use[%s]" % k, use(k), FNS, covers=("used",)) for k in USES]
HARNESSES += [Harness("index", index, FNS, covers=("byte",)), Harness("failing read", failing, FNS, covers=("failed",)),
              Harness("two windows", two_windows, FNS, covers=("both",))]
HARNESSES += [Harness("grain[%s]" % k, grain(k), FNS + grain_fns(k) + ("mediagrains.grains.Grain:Grain.length",),
                      covers=("data",)) for k in ("empty", "video", "audio", "coded_audio")]
HARNESSES += [Harness("any use", any_use, FNS, "bounded", weight=3.0)]
