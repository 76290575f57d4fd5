"""Dual-mode contract harnesses.

A harness is one python function h(c).  It builds the arguments of a function of
/repo from `c`, assumes the precondition, calls the real function and states the
postcondition with c.prove(...).  It is run

  * symbolically (Sym): every path of the transformed real source is executed
    with unconstrained symbolic inputs and each c.prove becomes a proof
    obligation for z3 / cvc5 (all inputs, no bound);
  * concretely (Conc): on the unmodified modules, with values from a solver
    counterexample (replay) or drawn at random (bounded run-time checking).
"""
import builtins
import datetime as _dt
import io
import os
import random
import uuid
from fractions import Fraction


class Skip(Exception):
    """The concrete values do not satisfy the precondition."""


class Violation(Exception):
    def __init__(self, name, detail=""):
        Exception.__init__(self, "%s: %s" % (name, detail))
        self.name, self.detail = name, detail


# --------------------------------------------------------------------------- concrete mode
class Conc(object):
    symbolic = False

    def __init__(self, vals=None, rng=None, mined=(), maxlen=40):
        self.vals = dict(vals or {})
        self.rng = rng or random.Random(0)
        self.mined = list(mined)
        self.used = {}
        self.maxlen = maxlen
        self.proved = 0
        self.covered = set()

    def _get(self, name, draw):
        if name in self.used:
            return self.used[name]
        if name in self.vals and self.vals[name] is not None:
            v = self.vals[name]
        else:
            v = draw()
        self.used[name] = v
        return v

    def _int(self, lo, hi):
        r = self.rng
        cands = []
        if lo is not None and hi is not None and hi - lo <= 16:
            return r.randint(lo, hi)
        k = r.random()
        if k < 0.30 and self.mined:
            m = [x + d for x in (r.choice(self.mined),) for d in (-1, 0, 1)]
            cands = [x for x in m if (lo is None or x >= lo) and (hi is None or x <= hi)]
        elif k < 0.5:
            m = [lo, hi, 0, 1, 2, 255, 256, 65535, 65536]
            cands = [x for x in m if x is not None and (lo is None or x >= lo) and (hi is None or x <= hi)]
        elif k < 0.75:
            a = lo if lo is not None else -70
            b = min(hi, a + 70) if hi is not None else a + 140
            return r.randint(a, b)
        if cands:
            return r.choice(cands)
        a = lo if lo is not None else -(1 << 40)
        b = hi if hi is not None else (1 << 40)
        # spread over magnitudes
        n = r.randint(0, max(1, (b - a).bit_length()))
        return min(b, max(a, a + r.getrandbits(n) if n else a))

    def int(self, name, lo=None, hi=None):
        v = self._get(name, lambda: self._int(lo, hi))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def size(self, name, lo=0, hi=None, cap=None):
        """A length: small in concrete mode."""
        cap = cap if cap is not None else self.maxlen
        h = lo + cap if hi is None else min(hi, lo + cap)
        v = self._get(name, lambda: self.rng.choice([lo, min(h, lo + 1), min(h, lo + 2), self.rng.randint(lo, h)]))
        if v < lo or (hi is not None and v > hi) or v > 1 << 20:
            raise Skip(name)
        return v

    def boolean(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    def bytes(self, name, n):
        def draw():
            return [self.rng.choice((0, 0, 255, 10, 71, 114, self.rng.randrange(256))) if self.rng.random() < 0.4
                    else self.rng.randrange(256) for _ in range(n)]
        key = name + "[]"
        v = self.used.get(key, self.vals.get(key))
        v = list(v) if v is not None else draw()
        while len(v) < n:
            v.append(self.rng.randrange(256))
        self.used[key] = v = v[:n]
        return builtins.bytes(v)

    ALPHA = "abXYZ09 _-:/.é€😀\x00"

    def text(self, name, maxbytes, minbytes=0, cap=24):
        """Text of at most maxbytes UTF-8 bytes, not starting or ending with NUL."""
        def draw():
            n = self.rng.choice([minbytes, min(maxbytes, 1), min(maxbytes, cap), self.rng.randint(0, min(maxbytes, cap)),
                                 maxbytes if maxbytes <= 80 else 3])
            s = ""
            while True:
                ch = self.rng.choice(self.ALPHA)
                if len((s + ch).encode("utf-8")) > max(n, minbytes):
                    break
                s += ch
            s = s.strip("\x00")
            while len(s.encode("utf-8")) < minbytes:
                s += "x"
            return s
        if name in self.used:
            return self.used[name]
        nb = self.vals.get(name + ".nbytes")
        if nb is not None and name not in self.vals:
            if nb > 1 << 20:
                raise Skip(name)
            v = ("t" + str(len(self.used)) + "x" * nb)[:nb]
        else:
            v = self._get(name, draw)
        b = len(v.encode("utf-8"))
        if b > maxbytes or b < minbytes or v != v.strip("\x00"):
            raise Skip(name)
        self.used[name] = v
        return v

    def uuid(self, name):
        return uuid.UUID(int=self.int(name, 0, (1 << 128) - 1))

    def fraction(self, name, lo=0, hi=(1 << 32) - 1, dhi=(1 << 32) - 1):
        n = self._get(name + ".n", lambda: self.rng.choice([lo if lo > 0 else 0, 1, 25, 30000, 48000,
                                                            self._int(lo, hi)]))
        d = self._get(name + ".d", lambda: self.rng.choice([1, 1, 1001, 2, self._int(1, dhi)]))
        f = Fraction(n, d)
        if f.numerator < lo or f.numerator > hi or f.denominator > dhi or d < 1:
            raise Skip(name)
        self.used[name + ".n"], self.used[name + ".d"] = f.numerator, f.denominator
        return f

    def member(self, name, vals):
        v = self._get(name, lambda: self.rng.choice(vals))
        if v not in vals:
            raise Skip(name)
        return v

    def lowest(self, n, d):
        """The fraction n/d in lowest terms; zero if either number is zero."""
        return Fraction(n, d) if n and d else Fraction(0)

    def timestamp(self, name, nonneg=False, maxsec=281474976710655):
        from mediatimestamp.immutable import Timestamp
        s = self.int(name + ".sec", 0, maxsec)
        n = self.int(name + ".ns", 0, 999999999)
        neg = self.boolean(name + ".neg")
        if neg and (nonneg or (s == 0 and n == 0)):
            neg = False
        return Timestamp(s, n, -1 if neg else 1)

    def tool(self, name, argv, files=None, stdin=b""):
        """Run a command line tool.  "@x" names a file.  The bytes and the text written to stdout, and the files left behind."""
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix="vctool")
        try:
            for k, v in (files or {}).items():
                with builtins.open(os.path.join(d, k), "wb") as f:
                    f.write(v)
            out = Stdout(io.BytesIO())
            with_stdio(name, [a.replace("@", d + "/") if a.startswith("@") else a for a in argv], io.BytesIO(stdin), out)
            left = {}
            for k in os.listdir(d):
                with builtins.open(os.path.join(d, k), "rb") as f:
                    left[k] = f.read()
            return out.buffer.getvalue(), "".join(out.text), left
        finally:
            shutil.rmtree(d)

    def instant(self, count, rate):
        """The Timestamp of a count at a rate."""
        from mediatimestamp.immutable import Timestamp
        return Timestamp.from_count(count, rate.numerator, rate.denominator)

    def time_class(self, name):
        """TimeValue, TimeValueRange, CountRange or TimeRange of mediatimestamp."""
        import mediatimestamp
        return getattr(mediatimestamp, name)

    def datetime(self, name):
        a = [self.int("%s.%s" % (name, k), lo, hi) for k, lo, hi in
             (("year", 1, 9999), ("month", 1, 12), ("day", 1, 31), ("hour", 0, 23), ("minute", 0, 59),
              ("second", 0, 59))]
        try:
            return _dt.datetime(*a, tzinfo=_dt.timezone.utc)
        except ValueError:
            raise Skip(name)

    def choose(self, name, options):
        options = list(options)
        i = self._get(name, lambda: self.rng.randrange(len(options)))
        if not 0 <= i < len(options):
            raise Skip(name)
        return options[i]

    def array(self, name, lo=None, hi=None):
        return lambda k: self.int("%s[%d]" % (name, k), lo, hi)

    def barray(self, name):
        return lambda k: self.boolean("%s[%d]" % (name, k))

    def tarray(self, name, maxbytes):
        return lambda k: self.text("%s[%d]" % (name, k), maxbytes)

    def json_value(self, name):
        vals = [1, -2.5, "text é", [1, [2]], {"a": {"b": None}}, True, False, 0, "", []]
        return self.choose(name, vals)

    def json_values(self, name):
        return lambda k: self.json_value("%s[%d]" % (name, k))

    def json_dumps(self, x):
        import json
        return json.dumps(x)

    def json_loads(self, x):
        import json
        return json.loads(x)

    def list(self, count, fn):
        return [fn(k) for k in range(count)]

    def at(self, k):
        return IndexedConc(self, k)

    def file(self, content, pos=0, seekable=True):
        f = (Recording if seekable else NonSeekable)(content)
        f.reads = []
        f.pos0 = pos if not seekable else None
        io.BytesIO.seek(f, pos)
        return f

    def was_read(self, f, start, n):
        """Has any byte of [start, start+n) of the file been read?"""
        return any(a < start + n and start < a + m for a, m in f.reads)

    def to_bytes(self, x):
        return builtins.bytes(x)

    def bytearray(self, x):
        return bytearray(x)

    def content(self, f):
        return f.getvalue()

    def not_text(self, name, n):
        """n bytes that are not the UTF-8 encoding of any text."""
        b = bytearray(self.bytes(name, n))
        b[self.int(name + " wrong at", 0, n - 1)] = 255
        return builtins.bytes(b)

    def cut(self, b, name="cut"):
        """A proper beginning of the byte string b, of any length."""
        return b[:self.int(name, 0, builtins.len(b) - 1)]

    # byte strings of the specification
    def num(self, v, n, big=False):
        return int(v).to_bytes(n, "big" if big else "little")

    def unit(self, name, fields, escapes=0, rest=True):
        """A NAL unit without its start code: the syntax elements given, then anything, escaped."""
        from spec.h264 import encode
        if not rest:
            return encode(fields, b"", False)
        want = self.vals.get(name + ".length")
        if want is not None:
            n = min(max(0, int(want) - len(encode(fields, b"")) - escapes), 1 << 20)
            r = builtins.bytes([0, 0, 0] * escapes + [170] * n)
        else:
            n = self.rng.choice([0, 0, 1, 2, 5, 20, 200])
            r = self._get(name, lambda: builtins.bytes(self.rng.choice([0, 0, 0, 1, 2, 3, 255, self.rng.randrange(256)])
                                                       for _ in range(n)))
        return encode(fields, r)

    def fill(self, b, n):
        return builtins.bytes([b]) * n

    def rep(self, count, elem):
        return b"".join(elem(k) for k in range(count))

    def prefix(self, term):
        """k -> the sum of term(j) for j < k."""
        return lambda k: sum(term(j) for j in range(k))

    def blen(self, x):
        return len(x)

    def utf8(self, t):
        return t.encode("utf-8")

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return bool(a == b)

    def len(self, x):
        return builtins.len(x)

    def alike(self, name, a, b):
        """b; in random runs mostly a (any value, either way)."""
        if self._get(name + ".alike", lambda: not self.vals and self.rng.random() < 0.85):
            return a
        return b

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or b

    def assume(self, e):
        if not e:
            raise Skip("assume")

    def prove(self, e, name, detail=""):
        self.proved += 1
        if not e:
            raise Violation(name, detail)

    def prove_bytes_eq(self, x, y, name, detail=""):
        self.proved += 1
        if not isinstance(x, (bytes, bytearray, memoryview)) or builtins.bytes(x) != builtins.bytes(y):
            raise Violation(name, detail + " got %s want %s" % (
                builtins.bytes(x).hex()[:400] if isinstance(x, (bytes, bytearray)) else repr(x)[:200], builtins.bytes(y).hex()[:400]))

    def prove_list(self, lst, count, fn, name):
        """lst has `count` elements and fn(element, k, name) proves each of them correct."""
        got = len(lst)
        self.prove(got == count, name + ":count", "%r elements, expected %r" % (got, count))
        for k in range(count):
            fn(lst[k], k, name)

    def fail(self, name, detail=""):
        raise Violation(name, detail)

    def cover(self, name):
        self.covered.add(name)

    def element(self, v):
        """An element of a numpy array, as a number."""
        return v.item()

    def number_at(self, data, at, size, signed=False):
        """The little endian number in `size` bytes of the data."""
        return int.from_bytes(builtins.bytes(data[at:at + size]), "little", signed=signed)

    def same_float(self, v, data, at, size):
        """The element v of a float array is the number in `size` bytes of the data (bit for bit)."""
        return v.tobytes() == builtins.bytes(data[at:at + size])

    def place(self, y, x, s):
        """Position of row y, column x in rows of s elements."""
        return y * s + x

    def samples(self, name, n, size, top):
        """n bytes that hold little endian samples of `size` bytes, none above `top`."""
        data = self.bytes(name, n)
        out = b""
        for i in range(0, n, size):
            v = int.from_bytes(data[i:i + size], "little")
            if v % 7 or name + "[]" in self.vals:
                v %= top + 1
            else:       # now and then the extremes
                v = top - v // 7 % 2 if v // 14 % 2 else v // 28 % 2
            out += v.to_bytes(size, "little")
        return out

    def zeros(self, n):
        return bytearray(n)

    def str(self, x):
        return builtins.str(x)

    def enum(self, cls, name):
        """Any member of an enumeration of mediagrains.cogenums."""
        import mediagrains.cogenums as E
        cls = getattr(E, cls)
        return cls(self.member(name, [builtins.int(m) for m in cls]))

    def stream_reader(self, content):
        """Only inside a coroutine."""
        import asyncio
        r = asyncio.StreamReader()
        k = self.int("sent in pieces of", 1, 9)
        loop = asyncio.get_running_loop()

        def feed(i):
            if i < builtins.len(content):
                r.feed_data(builtins.bytes(content[i:i + k]))
                loop.call_soon(feed, i + k)
            else:
                r.feed_eof()
        feed(0)
        return r

    def run_coro(self, c):
        import asyncio
        return asyncio.run(c)

    def now(self, t):
        pass


class Stdout(object):
    def __init__(self, buffer):
        self.buffer, self.text = buffer, []

    def write(self, t):
        self.text.append(t)

    def flush(self):
        pass


class Stdin(object):
    def __init__(self, buffer):
        self.buffer = buffer


def with_stdio(name, argv, stdin, stdout):
    """Call mediagrains.tools.<name> with these arguments and standard streams."""
    import importlib
    import sys
    keep = sys.argv, sys.stdin, sys.stdout, sys.stderr
    f = getattr(importlib.import_module("mediagrains.tools"), name)
    try:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = [name] + argv, Stdin(stdin), stdout, Stdout(None)
        f()
    except SystemExit as e:
        raise RuntimeError("the tool exited with %r: %s" % (e.code, "".join(sys.stderr.text)[-300:]))
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = keep


class Recording(io.BytesIO):
    """An ordinary file that remembers which bytes were read."""

    def read(self, n=-1):
        a = io.BytesIO.tell(self)
        r = io.BytesIO.read(self, n)
        self.reads.append((a, builtins.len(r)))
        return r


class NonSeekable(Recording):
    """A pipe-like binary file."""

    def seekable(self):
        return False

    def seek(self, *a):
        raise io.UnsupportedOperation("seek")

    def tell(self):
        return io.BytesIO.tell(self)


class IndexedConc(object):
    """The k-th member of a family of inputs (see Sym.at)."""

    def __init__(self, c, k):
        self._c, self._k = c, k

    def __getattr__(self, n):
        f = getattr(self._c, n)
        if n not in ("int", "size", "boolean", "bytes", "text"):
            return f
        return lambda name, *a, **kw: f("%s[%d]" % (name, self._k), *a, **kw)

    def uuid(self, name):
        return Conc.uuid(self, name)

    def member(self, name, vals):
        return self._c.member("%s[%d]" % (name, self._k), vals)

    def timestamp(self, name, *a, **kw):
        return Conc.timestamp(self, name, *a, **kw)

    def fraction(self, name, lo=0, hi=(1 << 32) - 1, dhi=(1 << 32) - 1):
        c, n, d = self._c, "%s.n[%d]" % (name, self._k), "%s.d[%d]" % (name, self._k)
        f = Fraction(c._get(n, lambda: c.rng.choice([lo if lo > 0 else 0, 1, 25, 48000, c._int(lo, hi)])),
                     c._get(d, lambda: c.rng.choice([1, 1, 1001, c._int(1, dhi)])))
        c.used[n], c.used[d] = f.numerator, f.denominator
        return f


class IndexedSym(object):
    """The k-th member of a family of inputs: every draw is a function of k."""

    def __init__(self, c, k):
        self._c, self._k = c, k

    def __getattr__(self, n):
        return getattr(self._c, n)

    def int(self, name, lo=None, hi=None):
        return self._c.array(name, lo, hi)(self._k)

    def size(self, name, lo=0, hi=None, cap=None):
        ex = self._c.ex
        v = self._c.array(name, lo, hi)(self._k)
        return v

    def boolean(self, name):
        return self._c.barray(name)(self._k)

    def bytes(self, name, n):
        import z3
        from .core import toint, mkint, SInt, _conc
        k0 = self._k
        n0 = _conc(n)

        def length(k):
            if not isinstance(n0, SInt) or not isinstance(_conc(k0), SInt):
                return n0
            return SInt(z3.substitute(n0.e, (toint(k0), toint(k))), n0.lo, n0.hi)
        return self._c.bytes_array(name, length)(self._k)

    def text(self, name, maxbytes, minbytes=0, cap=None):
        return self._c.tarray(name, maxbytes)(self._k)

    def uuid(self, name):
        from . import models
        return models.SUUID(self.int(name, 0, (1 << 128) - 1))

    def fraction(self, name, lo=0, hi=(1 << 32) - 1, dhi=(1 << 32) - 1):
        from . import models
        return models.fraction_from(self.int(name + ".n", lo, hi), self.int(name + ".d", 1, dhi))

    def timestamp(self, name, nonneg=False, maxsec=281474976710655):
        from . import models
        return models.ts_from(self.int(name + ".sec", 0, maxsec), self.int(name + ".ns", 0, 999999999),
                              self.boolean(name + ".neg"), 0 if nonneg else None)

    def member(self, name, vals):
        return self._c._member(self.int(name, vals[0], vals[-1]), vals)

    def choose(self, name, options):
        # one choice for the whole family
        options = list(options)
        i = self._c.ex.inputs.get(name)
        return options[i] if i is not None else self._c.choose(name, options)


# --------------------------------------------------------------------------- symbolic mode
class Sym(object):
    symbolic = True

    def __init__(self, ex):
        self.ex = ex
        self.maxlen = 1 << 30

    def _reg(self, name, term, small=False):
        self.ex.inputs[name] = term
        if small:
            self.ex.__dict__.setdefault("small", {})[name] = term

    def int(self, name, lo=None, hi=None):
        return self.ex.int(name, lo, hi)

    def size(self, name, lo=0, hi=None, cap=None):
        v = self.ex.int(name, lo, hi)
        self._reg(name, v, True)
        return v

    def boolean(self, name):
        return self.ex.boolean(name)

    def bytes(self, name, n):
        from . import rope
        from .core import _conc
        b = rope.Base(name, n)
        self.ex.__dict__.setdefault("bases", {})[name] = b
        return rope.mkbytes([rope.Op(b, 0, n)])

    def text(self, name, maxbytes, minbytes=0, cap=None):
        from . import rope
        n = self.ex.int(name + ".nbytes", minbytes, maxbytes)
        self._reg(name + ".nbytes", n, True)
        t = rope.TextBase(name, n)
        return rope.SStr([t])

    def uuid(self, name):
        from . import models
        return models.SUUID(self.ex.int(name, 0, (1 << 128) - 1))

    def fraction(self, name, lo=0, hi=(1 << 32) - 1, dhi=(1 << 32) - 1):
        from . import models
        return models.fraction_input(name, lo, hi, dhi)

    def lowest(self, n, d):
        import z3
        from . import models, core
        z = core.mkbool(z3.Or(core.toint(n) == 0, core.toint(d) == 0))
        r = models.reduced(n, d)
        return models.SFraction(core.ite(z, 0, r.numerator), core.ite(z, 1, r.denominator))

    def timestamp(self, name, nonneg=False, maxsec=281474976710655):
        from . import models
        t = models.ts_input(name, 0 if nonneg else None)
        if maxsec < 281474976710655:
            self.ex.assume(t.sec <= maxsec)
        return t

    def tool(self, name, argv, files=None, stdin=b""):
        from . import models
        self.ex.fs = dict(("/vc/" + k, models.SymFile(v)) for k, v in (files or {}).items())
        out = Stdout(models.SymFile(b""))
        with_stdio(name, ["/vc/" + a[1:] if a.startswith("@") else a for a in argv], models.SymFile(stdin), out)
        return out.buffer.content, "".join(out.text), dict((k[4:], v.content) for k, v in self.ex.fs.items())

    def time_class(self, name):
        from . import env, models
        if name == "TimeRange":
            return models.make_timerange_sub()
        return getattr(env.DEPS[{"TimeValue": "time_value", "TimeValueRange": "time_value_range",
                                 "CountRange": "count_range"}[name]], name)

    def instant(self, count, rate):
        from . import models
        return models.ts_from_count(count, rate.numerator, rate.denominator)

    def datetime(self, name):
        from . import models
        return models.datetime_input(name)

    def choose(self, name, options):
        options = list(options)
        i = self.ex.choose(list(range(len(options))))
        self.ex.inputs[name] = i
        return options[i]

    def array(self, name, lo=None, hi=None):
        import z3
        from .core import SInt, toint
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.ex.__dict__.setdefault("arrays", {})[name] = ("int", f)

        from . import runtime
        x = z3.Int("x$fam")
        if name not in self.ex.uf_facts:
            fact = z3.And(*([f(x) >= lo] if lo is not None else []) + ([f(x) <= hi] if hi is not None else []))
            self.ex.uf_facts[name] = [lambda i: z3.substitute(fact, (x, i))]

        def at(k):
            t = f(toint(k))
            if lo is not None:
                self.ex.add(t >= lo)
            if hi is not None:
                self.ex.add(t <= hi)
            return SInt(t, lo, hi)
        return at

    def barray(self, name):
        import z3
        from .core import SBool, toint
        f = z3.Function(name, z3.IntSort(), z3.BoolSort())
        self.ex.__dict__.setdefault("arrays", {})[name] = ("bool", f)
        return lambda k: SBool(f(toint(k)))

    def tarray(self, name, maxbytes):
        import z3
        from . import rope
        from .core import SInt, toint
        f = z3.Function(name + ".nbytes", z3.IntSort(), z3.IntSort())
        cst = z3.Function("text!" + name, z3.IntSort(), rope._StrSort)
        cache = {}
        self.ex.__dict__.setdefault("arrays", {})[name + ".nbytes"] = ("text", f)

        def base(k):
            key = z3.simplify(toint(k)).sexpr()
            n = f(toint(k))
            self.ex.add(z3.And(n >= 0, n <= maxbytes))     # each time: the fact may be needed in another solver scope
            if key not in cache:
                t = rope.TextBase("%s[%s]" % (name, key), SInt(n, 0, maxbytes))
                t.const = cst(toint(k))
                t.enc.code = z3.Function("utf8code", rope._StrSort, z3.IntSort())(t.const)
                t.index, t.family = k, base
                cache[key] = t
            return cache[key]
        return lambda k: rope.SStr([base(k)])

    def bytes_array(self, name, length):
        """A family of byte strings, the k-th of length(k)."""
        import z3
        from . import rope
        from .core import toint, _conc
        cst = z3.Function("content!" + name, z3.IntSort(), z3.IntSort())
        fn2 = z3.Function("bytes!" + name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        cache = self.ex.symbols.setdefault("bytes_array!" + name, {})
        self.ex.symbols["bytes_array_len!" + name] = length

        def base(k):
            key = z3.simplify(toint(k)).sexpr()
            if key not in cache:
                n = length(k)
                b = rope.Base("%s[%s]" % (name, key), n)
                b.code = cst(toint(k))
                b.fn = lambda i: fn2(toint(k), i)
                b.index, b.family = k, base
                cache[key] = b
            return cache[key]

        def at(k):
            b = base(k)
            return rope.mkbytes([rope.Op(b, 0, b.length)])
        return at

    def at(self, k):
        return IndexedSym(self, k)

    def json_value(self, name):
        from . import models
        return models.json_const(name)

    def json_values(self, name):
        from . import models
        return models.json_array(name)

    def json_dumps(self, x):
        from . import models
        return models.JSON().dumps(x)

    def json_loads(self, x):
        from . import models
        return models.JSON().loads(x)

    def list(self, count, fn):
        from .seq import SymList
        from .core import SInt, _conc
        if not isinstance(_conc(count), SInt):
            return [fn(k) for k in range(_conc(count))]
        return SymList.of(count, fn)

    def file(self, content, pos=0, seekable=True):
        from . import models
        f = models.SymFile(content, pos, seekable)
        self.ex.tracked.append(f)
        return f

    def was_read(self, f, start, n):
        from .core import ctx  # noqa
        hits = [self.And(a < start + n, start < a + m) for k, a, m in (x for x in f.log if x[0] == "read")]
        return self.Or(*hits) if hits else False

    def to_bytes(self, x):
        from . import runtime
        return runtime._to_bytes(x)

    def bytearray(self, x):
        from . import runtime
        return runtime.bytearray_(x)

    def content(self, f):
        return f.content

    def not_text(self, name, n):
        from . import rope
        b = rope.Base(name, n)
        b.not_text = True
        return rope.mkbytes([rope.Op(b, 0, n)])

    def cut(self, b, name="cut"):
        # a number cut in two is any bytes of that length (an over-approximation)
        from . import rope
        atoms = rope.norm(rope.atoms_of(b))
        i = self.ex.choose(list(range(len(atoms))))
        a = atoms[i]
        r = self.ex.fresh_int("r", 0)
        self.ex.assume(r < a.n)
        if isinstance(a, (rope.Op, rope.Fill)):
            part = a.split(r)[0]
        elif isinstance(a.n, int):
            base = rope.Base(self.ex.name_fresh("cut!" + name), r)
            base.known = a.b if isinstance(a, rope.Conc) else None
            part = [rope.Op(base, 0, r)]
        else:
            from .core import Unsupported
            raise Unsupported("cut in %r" % (a,))
        out = atoms[:i] + part
        self._reg(name, rope.rlen(out))
        return rope.mkbytes(out)

    def num(self, v, n, big=False):
        from . import rope
        return rope.mkbytes([rope.Num(v, n, big)])

    def unit(self, name, fields, escapes=0, rest=True):
        from . import bitmodel
        return bitmodel.unit(name, fields, escapes, rest)

    def fill(self, b, n):
        from . import rope
        return rope.mkbytes([rope.Fill(b, n)])

    def rep(self, count, elem):
        from . import rope
        from .core import SInt, _conc
        if not isinstance(_conc(count), SInt):
            out = []
            for k in range(_conc(count)):
                out += rope.atoms_of(elem(k))
            return rope.mkbytes(out)
        return rope.mkbytes([rope.Rep(count, lambda k: rope.norm(rope.atoms_of(elem(k))))])

    def prefix(self, term):
        from . import seq
        return lambda k: seq.prefix_sum(term, k)

    def blen(self, x):
        from . import runtime
        return runtime.sym_len(x)

    def utf8(self, t):
        return t.encode("utf-8")

    def ite(self, c, a, b):
        from . import core
        r = core.ite(c if not hasattr(c, "__bool__") or isinstance(c, (bool, core.SBool)) else bool(c), a, b)
        if r is None:
            return a if c else b
        return r

    def _bools(self, a):
        from .core import tobool
        return [tobool(x) for x in a]

    def eq(self, a, b):
        from .core import SBool
        r = a == b
        return r if isinstance(r, SBool) else bool(r)

    def len(self, x):
        from . import runtime
        return runtime.sym_len(x)

    def alike(self, name, a, b):
        return b

    def And(self, *a):
        import z3
        from .core import mkbool
        return mkbool(z3.And(self._bools(a)))

    def Or(self, *a):
        import z3
        from .core import mkbool
        return mkbool(z3.Or(self._bools(a)))

    def Not(self, a):
        from .core import notb
        return notb(a)

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def assume(self, e):
        self.ex.assume(e)

    def member(self, name, vals):
        """An integer among vals."""
        return self._member(self.int(name, vals[0], vals[-1]), vals)

    def _member(self, v, vals):
        import z3
        from . import runtime
        fact = z3.Or([v.e == x for x in vals])
        self.ex.add(fact)
        runtime.family_fact(v, fact)
        return v

    def prove(self, e, name, detail=""):
        self.ex.prove(e, name, detail if isinstance(detail, str) else "")

    def prove_bytes_eq(self, x, y, name, detail=""):
        from . import rope
        rope.prove_bytes_eq(x, y, name, detail)

    def prove_list(self, lst, count, fn, name):
        from . import runtime
        from .core import toint, SInt, _conc
        n = runtime.sym_len(lst)
        self.prove(n == count, name + ":count", "length")
        if not isinstance(_conc(count), SInt) and not isinstance(_conc(n), SInt):
            for k in range(min(_conc(count), _conc(n))):
                fn(lst[k], k, name)
            return
        if bool(count <= 0):
            return
        k = self.ex.fresh_int("idx", 0)
        self.ex.add(k.e < toint(count))
        self.ex.loop_index = getattr(self.ex, "loop_index", []) + [k]
        fn(lst[k], k, name)

    def fail(self, name, detail=""):
        self.ex.fail(name, detail)

    def cover(self, name):
        self.ex.cover(name)

    def str(self, x):
        return x.__sym_str__() if hasattr(x, "__sym_str__") else builtins.str(x)

    def enum(self, cls, name):
        import mediagrains.cogenums as E
        cls = getattr(E, cls)
        return cls(self.member(name, [builtins.int(m) for m in cls]))

    def now(self, t):
        self.ex.symbols["now"] = t

    def element(self, v):
        return v

    def number_at(self, data, at, size, signed=False):
        from . import npmodel, rope
        import numpy
        raw = rope.mkbytes(list(data.atoms) if hasattr(data, "atoms") else rope.atoms_of(data))._getslice(slice(at, at + size))
        if size == 3:
            return rope.int_from_bytes(rope.mkbytes(raw), "little", signed)
        return npmodel.number(raw, at, numpy.dtype("%s%d" % ("i" if signed else "u", size)))

    def same_float(self, v, data, at, size):
        return v.bits == self.number_at(data, at, size)

    def place(self, y, x, s):
        from . import npmodel
        return npmodel.place(y, x, s)

    def samples(self, name, n, size, top):
        b = self.bytes(name, n)
        b.atoms[0].base.top = (size, top)
        return b

    def zeros(self, n):
        from . import runtime
        return runtime.bytearray_(n)

    def stream_reader(self, content):
        from . import models
        return models.SymStream(content)

    def run_coro(self, c):
        from . import models
        return models.run_coro(c)


def small_models(ex, e):
    """Prefer counterexamples with short sequences (so that they can be replayed)."""
    import z3
    from .core import toint
    small = getattr(ex, "small", {})
    if not small:
        return None
    for lim in (3, 40, 4096):
        ex.solver.push()
        try:
            for t in small.values():
                ex.solver.add(toint(t) <= lim)
            if ex._check(e) == z3.sat:
                return ex.solver.model()
        finally:
            ex.solver.pop()
    return None


def concretize(ex, m):
    """Named input values of a solver model."""
    import z3
    from .core import SInt, SBool, model_int, model_bool, toint
    out = {}
    for name, t in ex.inputs.items():
        if isinstance(t, SBool):
            out[name] = model_bool(m, t)
        elif isinstance(t, SInt):
            out[name] = model_int(m, t)
        elif isinstance(t, (int, bool)):
            out[name] = t
    for name, (kind, f) in getattr(ex, "arrays", {}).items():
        for k in range(8):
            v = m.eval(f(z3.IntVal(k)), model_completion=False)
            if kind == "bool":
                if z3.is_true(v) or z3.is_false(v):
                    out["%s[%d]" % (name, k)] = z3.is_true(v)
            elif z3.is_int_value(v):
                if kind == "text":
                    out["%s[%d].nbytes" % (name[:-7], k)] = v.as_long()
                else:
                    out["%s[%d]" % (name, k)] = v.as_long()
    for name, b in getattr(ex, "bases", {}).items():
        n = model_int(m, b.length) if not isinstance(b.length, int) else b.length
        if n > 1 << 16:
            continue
        fi = m[b.fn]
        if fi is None:
            continue
        vals = [m.eval(b.fn(z3.IntVal(i)), model_completion=True) for i in range(n)]
        out[name + "[]"] = [v.as_long() & 255 if z3.is_int_value(v) else 0 for v in vals]
    return out
