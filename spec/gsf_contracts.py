"""Contracts of the primitive readers and writers of mediagrains.gsf."""
from pyvc import rope, models, core, runtime
from pyvc.core import SInt, toint
from pyvc.contracts import Contract, NotApplicable


def attempt(f):
    try:
        return ("ok", f())
    except EOFError:
        return ("EOFError", None)


# ----------------------------------------------------------------- specifications
def take(f, n):
    b = f.read(n)
    if runtime.sym_len(b) != n:
        raise EOFError("Unable to read enough bytes from source")
    return rope.with_length(b, n)


def sp_uint(f, n):
    return rope.int_from_bytes(take(f, n), "little")


def sp_sint(f, n):
    return rope.int_from_bytes(take(f, n), "little", True)


def sp_bool(f):
    return sp_uint(f, 1) != 0


def sp_timestamp(f):
    sign = core.ite(sp_uint(f, 1) != 0, 1, -1)
    return models.ts_make(sp_uint(f, 6), sp_uint(f, 4), sign)


def sp_timestamp_v7(f):
    return models.ts_make(sp_uint(f, 6), sp_uint(f, 4), 1)


def sp_rational(f):
    """The fraction in lowest terms, zero if either number is zero."""
    n, d = sp_uint(f, 4), sp_uint(f, 4)
    z = core.mkbool(core.z3.Or(toint(n) == 0, toint(d) == 0))
    r = models.reduced(n, d)
    return models.SFraction(core.ite(z, 0, r.numerator), core.ite(z, 1, r.denominator))


def sp_uuid(f):
    return models.UUID_._make(bytes=take(f, 16))


# ----------------------------------------------------------------- verification
def reader(call, spec, total, extra=()):
    def h(c):
        import mediagrains.gsf as G
        data = c.bytes("data", c.size("len", 0, 1 << 40))
        pos = c.size("pos", 0, 1 << 40)
        f1, f2 = c.file(data, pos), c.file(data, pos)
        r1 = attempt(lambda: call(G.SyncGSFBlock(f1)))
        r2 = attempt(lambda: spec(f2))
        c.prove(r1[0] == r2[0], "outcome", "%s / %s" % (r1[0], r2[0]))
        if r1[0] == "ok":
            c.cover("value")
            c.prove(r1[1] == r2[1], "result")
            c.prove(f1.tell() == f2.tell(), "position")
    return h


def enc_uint(n):
    def h(c):
        import mediagrains.gsf as G
        v = c.int("val")
        c.prove_bytes_eq(G._encode_uint(v, n), c.num(v % (1 << (8 * n)), n), "little endian")
    return h


def enc_sint(n):
    def h(c):
        import mediagrains.gsf as G
        v = c.int("val", -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
        c.prove_bytes_eq(G._encode_sint(v, n), c.num(v % (1 << (8 * n)), n), "two's complement, little endian")
    return h


def stub_encode_sint(val, size):
    size, val = core._conc(size), core._conc(val)
    if isinstance(size, SInt) or size not in (2, 4, 8) or not isinstance(val, (int, SInt)):
        return NotApplicable
    lo, hi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
    if not core.ctx().valid(core.z3.And(toint(val) >= lo, toint(val) <= hi)):
        return NotApplicable
    return rope.mkbytes([rope.Num(core.ite(core.mkbool(toint(val) < 0), val + (1 << (8 * size)), val), size)])


def stub_encode_uint(val, size):
    size = core._conc(size)
    if isinstance(size, SInt) or size not in (1, 2, 4, 6, 8):
        return NotApplicable
    val = core._conc(val)
    if isinstance(val, SInt):
        lo, hi = val.lo, val.hi
        if lo is None or hi is None or lo < 0 or hi >= 1 << (8 * size):
            if not core.ctx().valid(core.z3.And(toint(val) >= 0, toint(val) < (1 << (8 * size)))):
                val = core._mod(val, 1 << (8 * size))
    elif isinstance(val, int):
        val = val % (1 << (8 * size))
    else:
        return NotApplicable
    return rope.mkbytes([rope.Num(val, size)])


def sizes(f, allowed):
    def stub(self, length, *a):
        length = core._conc(length)
        if isinstance(length, SInt) or length not in allowed:
            return NotApplicable
        return f(self.file_data, length, *a)
    return stub


B = "mediagrains.gsf:SyncGSFBlock."
CONTRACTS = [
    Contract("mediagrains.gsf:_encode_uint", [enc_uint(n) for n in (1, 2, 4, 6, 8)], stub_encode_uint,
             "size bytes, little endian, of val mod 256**size"),
    Contract("mediagrains.gsf:_encode_sint", [enc_sint(n) for n in (2, 4, 8)], stub_encode_sint,
             "requires: val fits; size bytes, little endian, two's complement"),
    Contract(B + "read_uint", [reader(lambda b, n=n: b.read_uint(n), lambda f, n=n: sp_uint(f, n), n)
                               for n in (1, 2, 4, 6, 8)], sizes(sp_uint, (1, 2, 4, 6, 8)),
             "the little endian value of the next n bytes, EOFError if there are fewer"),
    Contract(B + "read_sint", [reader(lambda b, n=n: b.read_sint(n), lambda f, n=n: sp_sint(f, n), n)
                               for n in (2, 4, 8)], sizes(sp_sint, (2, 4, 8)), "two's complement"),
    Contract(B + "read_bool", reader(lambda b: b.read_bool(), sp_bool, 1), lambda self: sp_bool(self.file_data)),
    Contract(B + "read_uuid", reader(lambda b: b.read_uuid(), sp_uuid, 16), lambda self: sp_uuid(self.file_data)),
    Contract(B + "read_timestamp", reader(lambda b: b.read_timestamp(), sp_timestamp, 11),
             lambda self: sp_timestamp(self.file_data)),
    Contract(B + "read_timestamp_v7", reader(lambda b: b.read_timestamp_v7(), sp_timestamp_v7, 10),
             lambda self: sp_timestamp_v7(self.file_data)),
]


CONTRACTS.append(Contract(B + "read_rational", reader(lambda b: b.read_rational(), sp_rational, 8),
                          lambda self: sp_rational(self.file_data),
                          "the fraction held in the next 8 bytes in lowest terms, zero if either number is zero"))


def string_verify(n, padded=True):
    """n = None: any length."""
    def h(c):
        import mediagrains.gsf as G
        t = c.text("t", 65535 if n is None else n)
        b = c.utf8(t)
        want = c.blen(b) if not padded else (n if n is not None else c.size("n", 0, 65535))
        c.assume(want >= c.blen(b))
        npre = c.size("npre")
        f = c.file(c.bytes("pre", npre) + b + (c.fill(0, want - c.blen(b)) if padded else b"") +
                   c.bytes("post", c.size("npost")), npre)
        c.prove(G.SyncGSFBlock(f).read_string(want) == t, "result")
        c.prove(f.tell() == npre + want, "position")
    return h


def stub_string(self, length):
    f = self.file_data
    length = core._conc(length)
    if not isinstance(f, models.SymFile) or (not isinstance(length, SInt) and length not in (16, 64)):
        return NotApplicable
    pos = f.tell()
    b = f.read(length)
    at = rope.atoms_of(b)
    if rope.known_eq(rope.rlen(at), length) and len(at) in (1, 2) and isinstance(at[0], rope.Op) and \
            at[0].base.text is not None and at[0].whole() and \
            (len(at) == 1 or (isinstance(at[1], rope.Fill) and rope.known_eq(at[1].b, 0))) and \
            not at[0].base.text.trailing_nul and not at[0].base.text.leading_nul:
        return rope.SStr([at[0].base.text])
    f.seek(pos)
    return NotApplicable


CONTRACTS.append(Contract(B + "read_string", [string_verify(16), string_verify(64), string_verify(None, False)],
                          stub_string, "requires: the next n bytes are a text, NUL padded for n = 16 and 64; "
                          "returns that text"))
