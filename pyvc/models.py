"""Models of the libraries the code under contract depends on.

Each class states the assumed contract of one external type: uuid.UUID,
fractions.Fraction, datetime.datetime, mediatimestamp.Timestamp, io.BytesIO and
the default asyncio executor.  Every class listed in TRUSTED is named in the
evidence as an assumption; `selfcheck()` compares the executable models with the
real libraries on concrete values.
"""
import builtins
import datetime as _dt
import difflib
import fractions
import io
import struct as _struct
import sys
import uuid
import z3
from . import core, rope, runtime, seq
from .core import SInt, SBool, Unsupported, ctx, toint, tobool, mkint, mkbool, _conc
from .rope import SBytes, SByteArray, Num, mkbytes, atoms_of
from .seq import SymList, SymSeg

_isinstance, _int, _len = isinstance, int, len

TRUSTED = {
    "json": "json.dumps/json.loads: dumps is a function of the tree, loads its inverse on JSON trees (stdlib)",
    "UUID": "uuid.UUID: UUID(bytes=u.bytes) == u and UUID(str(u)) == u (stdlib)",
    "Fraction": "fractions.Fraction normalises to lowest terms with positive denominator (stdlib)",
    "Timestamp": "mediatimestamp.immutable.Timestamp arithmetic, and from_sec_nsec(to_sec_nsec(t)) == t (dependency)",
    "TimeRange": "mediatimestamp.immutable.TimeRange keeps its ends, and is empty when they are reversed (dependency)",
    "datetime": "datetime.datetime field storage and range checks (stdlib)",
    "BytesIO": "io.BytesIO / buffered files: read, write, seek, tell, truncate semantics (stdlib)",
    "StreamReader": "asyncio.StreamReader.read/readexactly/at_eof deliver the bytes the peer sent, in order, then end",
    "executor": "the asyncio default executor runs the submitted callable exactly once and returns its result",
    "struct": "struct.unpack of n equal items gives the n values held in the bytes (stdlib; compared with the real one on concrete data)",
    "difflib": "difflib.SequenceMatcher.ratio() is 1.0 for equal sequences and lower for all others (stdlib)",
    "utf8": "bytes.decode('utf-8') inverts str.encode('utf-8') (interpreter)",
}


def use(name):
    if core.CTX is not None:
        core.CTX.trusted.add(TRUSTED[name])


class _Sub(type):
    """Stand-in for a library class: instance checks accept the real class and the model."""

    def __instancecheck__(cls, o):
        return _isinstance(o, cls._real) or _isinstance(o, cls._model)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._real)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


# ------------------------------------------------------------------ text produced by str()
class ObjText(object):
    """str(obj) for a model object whose textual form is parsed back by the same library."""
    __sym__ = True
    __sym_text__ = True

    def __init__(self, obj):
        self.obj = obj

    def __eq__(self, o):
        if _isinstance(o, ObjText):
            return self.obj == o.obj
        if _isinstance(o, str):
            return self.obj == type(self.obj).parse(o) if hasattr(type(self.obj), "parse") else False
        return False

    def __ne__(self, o):
        return core.notb(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __add__(self, o):
        return rope.Blur("<sym>") if _isinstance(o, (str, ObjText)) or getattr(o, "__sym_text__", False) else NotImplemented

    __radd__ = __add__

    def __repr__(self):
        return "ObjText(%r)" % (self.obj,)

    def __deepcopy__(self, memo):
        return self

    def __format__(self, s):
        return "<sym>"


# ------------------------------------------------------------------ uuid
class SUUID(object):
    __sym__ = True

    def __init__(self, v):
        use("UUID")
        self.v = v

    @property
    def bytes(self):
        return mkbytes([Num(self.v, 16, True)])

    @property
    def int(self):
        return self.v

    def __sym_str__(self):
        return ObjText(self)

    @classmethod
    def parse(cls, s):
        return SUUID(uuid.UUID(s).int)

    def __eq__(self, o):
        if _isinstance(o, SUUID):
            return mkbool(toint(self.v) == toint(o.v))
        if _isinstance(o, uuid.UUID):
            return mkbool(toint(self.v) == o.int)
        return False

    def __ne__(self, o):
        return core.notb(self.__eq__(o))

    def __hash__(self):
        if getattr(core.CTX, "allow_hash", False):
            return 0
        raise Unsupported("hash of symbolic UUID")

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "SUUID(%r)" % (self.v,)


class UUID_(metaclass=_Sub):
    _real, _model = uuid.UUID, SUUID

    @staticmethod
    def _make(*a, **k):
        if a and _isinstance(a[0], ObjText):
            if _isinstance(a[0].obj, SUUID):
                return a[0].obj
            raise ValueError("badly formed hexadecimal UUID string")
        b = k.get("bytes")
        if _isinstance(b, (SBytes, SByteArray)):
            if bool(b.__symlen__() != 16):
                raise ValueError("bytes is not a 16-char string")
            return SUUID(rope.int_from_bytes(b, "big"))
        if _isinstance(k.get("int"), SInt):
            return SUUID(k["int"])
        return uuid.UUID(*a, **k)


# ------------------------------------------------------------------ fractions
class SFraction(object):
    """Fraction in lowest terms."""
    __sym__ = True

    def __init__(self, n, d):
        self.numerator, self.denominator = n, d

    def __eq__(self, o):
        if _isinstance(o, (SFraction, fractions.Fraction)):
            return mkbool(z3.And(toint(self.numerator) == toint(o.numerator),
                                 toint(self.denominator) == toint(o.denominator)))
        if _isinstance(o, (int, SInt)):
            return mkbool(z3.And(toint(self.numerator) == toint(o), toint(self.denominator) == 1))
        return False

    def __ne__(self, o):
        return core.notb(self.__eq__(o))

    def __bool__(self):
        return bool(self.numerator != 0)

    def _cmp(self, o, f):
        if _isinstance(o, (SFraction, fractions.Fraction, int, SInt)):
            return mkbool(f(toint(self.numerator) * toint(o.denominator), toint(o.numerator) * toint(self.denominator)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __mul__(self, o):
        if _isinstance(o, (SFraction, fractions.Fraction, int, SInt)):
            return Fraction_._make(self.numerator * o.numerator, self.denominator * o.denominator)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Fraction_._make(self.numerator * o.denominator, self.denominator * o.numerator)

    def __rtruediv__(self, o):
        return Fraction_._make(o.numerator * self.denominator, o.denominator * self.numerator)

    def __hash__(self):
        raise Unsupported("hash of symbolic Fraction")

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "SFraction(%r/%r)" % (self.numerator, self.denominator)


_redn = z3.Function("lowest_n", z3.IntSort(), z3.IntSort(), z3.IntSort())
_redd = z3.Function("lowest_d", z3.IntSort(), z3.IntSort(), z3.IntSort())


def reduced(n, d):
    """n/d in lowest terms; meaningful for d != 0."""
    use("Fraction")
    c = ctx()
    ne, de = z3.simplify(toint(n)), z3.simplify(toint(d))
    rn, rd = _redn(ne, de), _redd(ne, de)
    key = ("lowest", ne.sexpr(), de.sexpr())
    if key not in c.symbols:
        c.symbols[key] = True
        ok = de != 0
        c.add(z3.And(rd >= 1,
                     z3.Implies(ne == 0, z3.And(rn == 0, rd == 1)),
                     z3.Implies(z3.And(ne > 0, de > 0), z3.And(rn >= 1, rn <= ne, rd <= de)),
                     z3.Implies(z3.And(ne < 0, de > 0), z3.And(rn <= -1, rn >= ne, rd <= de)),
                     z3.Implies(de == 1, z3.And(rn == ne, rd == 1))))
        if z3.is_int_value(ne) or z3.is_int_value(de) or getattr(c, "nonlinear_fractions", False):
            c.add(z3.Implies(ok, rn * de == ne * rd))
    return SFraction(SInt(rn), SInt(rd, 1))


def fraction_input(name, lo=0, hi=(1 << 32) - 1, dhi=(1 << 32) - 1):
    """An arbitrary Fraction (lowest terms) as a contract input."""
    c = ctx()
    return fraction_from(c.int(name + ".n", lo, hi), c.int(name + ".d", 1, dhi))


def fraction_from(n, d):
    c = ctx()
    fact = z3.And(z3.Implies(n.e == 0, d.e == 1), z3.And(_redn(n.e, d.e) == n.e, _redd(n.e, d.e) == d.e))
    c.add(fact)
    runtime.family_fact(d, fact)
    return SFraction(n, d)


class Fraction_(metaclass=_Sub):
    _real, _model = fractions.Fraction, SFraction

    @staticmethod
    def _make(n=0, d=None):
        if _isinstance(n, SFraction) and d is None:
            return n
        if _isinstance(n, fractions.Fraction) and d is None:
            return n
        if d is None:
            if _isinstance(n, (SInt, SBool)):
                use("Fraction")
                return SFraction(n if _isinstance(n, SInt) else n._i(), 1)
            return fractions.Fraction(n)
        if not (_isinstance(n, SInt) or _isinstance(d, SInt)):
            if _isinstance(n, SFraction) or _isinstance(d, SFraction):
                return Fraction_._make(n.numerator * d.denominator, n.denominator * d.numerator)
            return fractions.Fraction(n, d)
        use("Fraction")
        if bool(d == 0):
            raise ZeroDivisionError("Fraction(%s, 0)" % n)
        if _isinstance(_conc(d), int) and _conc(d) == 1:
            return SFraction(n, 1)
        return reduced(n, d)


# ------------------------------------------------------------------ timestamps
NS = 1000000000
MAXSEC = 281474976710656


class STimestamp(object):
    """mediatimestamp.immutable.Timestamp (value in nanoseconds, clamped)."""
    __sym__ = True

    def __init__(self, value, parts=None):
        use("Timestamp")
        self._value = value
        self._parts = parts
        self._at = None         # (count, rate): this is the instant of that count at that rate

    @property
    def sec(self):
        return self._parts[0] if self._parts else core._floordiv(runtime.sym_abs(self._value), NS)

    @property
    def ns(self):
        return self._parts[1] if self._parts else runtime.sym_abs(self._value) - self.sec * NS

    @property
    def sign(self):
        if self._parts:
            return core.ite(self._parts[2], -1, 1)
        return core.ite(self._value < 0, -1, 1)

    def __mediatimestamp__(self):
        return self

    def __sym_str__(self):
        return ObjText(self)

    def to_sec_nsec(self):
        return ObjText(self)

    to_tai_sec_nsec = to_sec_nsec

    def to_nanosec(self):
        return self._value

    @classmethod
    def parse(cls, s):
        import mediatimestamp.immutable as m
        return m.Timestamp.from_tai_sec_nsec(s)

    def __eq__(self, o):
        v = getattr(o, "_value", None)
        if v is None:
            return False
        a, b = _counts(self, o)
        if a is not None:
            return a == b
        return mkbool(toint(self._value) == toint(v))

    def __ne__(self, o):
        return core.notb(self.__eq__(o))

    def _cmp(self, o, f):
        o = ts_of(o)
        a, b = _counts(self, o)
        return f(self._value, o._value) if a is None else f(a, b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        raise Unsupported("hash of symbolic Timestamp")

    def __add__(self, o):
        v = ts_of(o)._value
        if not _isinstance(v, SInt) and v == 0:
            return self
        return ts_make(ns=self._value + v)

    def __sub__(self, o):
        v = ts_of(o)._value
        if not _isinstance(v, SInt) and v == 0:
            return self
        return ts_make(ns=self._value - v)

    def __radd__(self, o):
        return ts_make(ns=self._value + ts_of(o)._value)

    def __rsub__(self, o):
        return ts_make(ns=ts_of(o)._value - self._value)

    def to_count(self, rn, rd=1, rounding=1):
        if bool(rn <= 0) or bool(rd <= 0):
            raise _tserr("invalid rate")
        rate = Fraction_._make(rn, rd)
        num, den = rate.numerator, rate.denominator
        r = _int(rounding)
        if r == 1 and self._at is not None and _isinstance(rate, fractions.Fraction):
            n = _at_rate(self, rate)
            if n is not None:
                return n
        a = runtime.sym_abs(self._value)
        neg = self._value < 0
        if r == 1:
            rnd = core._floordiv(core._floordiv(NS * den, num), 2) if False else _interval(rate, 2)
        else:
            up = _interval(rate, 1) - 1
            rnd = core.ite(neg, 0, up) if r == 2 else core.ite(neg, up, 0)
        q = core._floordiv((a + rnd) * num, NS * den)
        return core.ite(neg, -q, q)

    def normalise(self, rn, rd=1, rounding=1):
        if self._at is not None and _int(rounding) == 1 and not _any_sym(rn, rd):
            rate = fractions.Fraction(rn, rd)
            if rate > 0 and _at_rate(self, rate) is not None:
                return self
        return ts_from_count(self.to_count(rn, rd, rounding), rn, rd)

    def compare(self, o):
        return core.ite(self > o, 1, core.ite(self < o, -1, 0))

    def __mul__(self, n):
        return ts_make(ns=self._value * n)

    __rmul__ = __mul__

    def __floordiv__(self, n):
        return ts_make(ns=core._floordiv(self._value, n))

    __truediv__ = __floordiv__

    def __abs__(self):
        return STimestamp(runtime.sym_abs(self._value))

    def __neg__(self):
        return STimestamp(-self._value)

    def is_null(self):
        return self._value == 0

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Timestamp.%s" % name)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "STimestamp(%r)" % (self._value,)


def _interval(rate, factor):
    return core._floordiv(NS * rate.denominator, rate.numerator * factor)


def _tserr(m):
    from mediatimestamp.exceptions import TsValueError
    return TsValueError(m)


def ts_of(x):
    if hasattr(x, "_value"):
        return x
    if _isinstance(x, (int, SInt)):
        return ts_make(sec=x)
    return x.__mediatimestamp__()


def ts_make(sec=0, ns=0, sign=1):
    lim = MAXSEC * NS - 1
    neg = sign < 0
    v = sec * NS + ns
    v = core.ite(neg, -v, v)
    if _isinstance(v, SInt) and v.lo is not None and v.hi is not None and -lim <= v.lo and v.hi <= lim:
        return STimestamp(v)
    if _isinstance(v, _int) and not _isinstance(v, SInt):
        v = max(-lim, min(lim, v))
    else:
        e = toint(v)
        v = mkint(z3.If(e > lim, z3.IntVal(lim), z3.If(e < -lim, z3.IntVal(-lim), e)), -lim, lim)
    return STimestamp(v)


def ts_from_count(count, rn, rd=1):
    if bool(rn <= 0) or bool(rd <= 0):
        raise _tserr("invalid rate")
    rate = Fraction_._make(rn, rd)
    ns = core._floordiv(runtime.sym_abs(count) * NS * rate.denominator, rate.numerator)
    t = ts_make(ns=ns, sign=core.ite(count < 0, -1, 1))
    if _isinstance(count, SInt) and _isinstance(rate, fractions.Fraction):
        lim = mkint(toint(rate.numerator * (MAXSEC - 1)) / rate.denominator)
        if ctx().valid(z3.And(count.e <= lim, count.e >= -lim)):
            t._at = (count, rate)
    return t


_INV = {}


def invertible(rate):
    """Lemma, proved here for each rate met: counting inverts from_count, and from_count is strictly increasing."""
    if rate not in _INV:
        def ns(m):
            return z3.If(m >= 0, m * NS * rate.denominator / rate.numerator, -((-m) * NS * rate.denominator / rate.numerator))
        m, j = z3.Ints("m j")
        half = NS * rate.denominator // (rate.numerator * 2)
        v = ns(m)
        q = (z3.If(v >= 0, v, -v) + half) * rate.numerator / (NS * rate.denominator)
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Or(z3.If(v < 0, -q, q) != m, z3.And(m < j, ns(m) >= ns(j))))
        _INV[rate] = s.check() == z3.unsat
    return _INV[rate]


def _at_rate(t, rate):
    """The count at a rate of an instant that is one of its counts."""
    n, k = t._at[0], rate / t._at[1]
    if k.denominator != 1 and not core.ctx().valid(tobool(n % k.denominator == 0)):
        return None
    if not invertible(rate):
        return None
    return core._floordiv(n, k.denominator) * k.numerator


def _counts(a, b):
    """Two instants as counts of one rate, where that is exact."""
    x, y = getattr(a, "_at", None), getattr(b, "_at", None)
    if x is None or y is None:
        return None, None
    n, d = x[1].numerator * y[1].denominator, x[1].denominator * y[1].numerator
    if n % d == 0:
        rate, i, j = x[1], 1, n // d
    elif d % n == 0:
        rate, i, j = y[1], d // n, 1
    else:
        return None, None
    if not invertible(rate):
        return None, None
    return x[0] * i, y[0] * j


def ts_input(name, lo=None):
    """An arbitrary Timestamp: sign, whole seconds, nanoseconds."""
    c = ctx()
    return ts_from(c.int(name + ".sec", 0, MAXSEC - 1), c.int(name + ".ns", 0, NS - 1), c.boolean(name + ".neg"), lo)


def ts_from(sec, ns, neg, lo=None):
    c = ctx()
    fact = z3.And(z3.Implies(neg.e, z3.Or(sec.e > 0, ns.e > 0)), z3.Not(neg.e) if lo == 0 else True)
    c.add(fact)
    runtime.family_fact(neg, fact)
    v = sec * NS + ns
    return STimestamp(core.ite(neg, -v, v), (sec, ns, neg))


def _any_sym(*xs):
    return any(core.is_sym(x) for x in xs)


def _reflect(cls, names, model):
    """The real class leaves operations with a model to the model (its own methods would answer False)."""
    import operator
    swap = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__", "__add__": "__radd__", "__sub__": "__rsub__"}
    if getattr(cls, "_vc_reflect", False):
        return

    def wrap(n):
        real = getattr(cls, n)

        def f(self, o):
            if _isinstance(o, model):
                return getattr(o, swap.get(n, n))(self)
            return real(self, o)
        f.__name__ = n
        return f
    for n in names:
        setattr(cls, n, wrap(n))
    cls._vc_reflect = True


def make_timestamp_sub():
    import mediatimestamp.immutable as m
    _reflect(m.Timestamp, ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__add__", "__sub__"), STimestamp)

    class Timestamp_(metaclass=_Sub):
        _real, _model = m.Timestamp, STimestamp

        @staticmethod
        def _make(sec=0, ns=0, sign=1):
            if _any_sym(sec, ns, sign):
                return ts_make(sec, ns, sign)
            return m.Timestamp(sec, ns, sign)

        @staticmethod
        def from_sec_nsec(s):
            if _isinstance(s, ObjText):
                if not hasattr(s.obj, "_value"):
                    raise _tserr("bad timestamp")
                return s.obj
            return m.Timestamp.from_sec_nsec(s)

        from_tai_sec_nsec = from_sec_nsec

        @staticmethod
        def from_count(count, rn, rd=1):
            if _any_sym(count, rn, rd):
                return ts_from_count(count, rn, rd)
            return m.Timestamp.from_count(count, rn, rd)

        @staticmethod
        def get_time():
            if core.CTX is None:
                return m.Timestamp.get_time()
            if "now" not in core.CTX.symbols:
                core.CTX.symbols["now"] = ts_input("now", 0)
            return core.CTX.symbols["now"]
    return Timestamp_


class STimeRange(object):
    """mediatimestamp.immutable.TimeRange with both ends given."""
    __sym__ = True

    def __init__(self, start, end, inclusivity=None):
        import mediatimestamp.immutable as m
        use("TimeRange")
        inclusivity = m.TimeRange.INCLUSIVE if inclusivity is None else inclusivity
        if start is not None and end is not None and (
                bool(start > end) or (inclusivity != m.TimeRange.INCLUSIVE and bool(start == end))):
            start, end, inclusivity = m.Timestamp(), m.Timestamp(), m.TimeRange.EXCLUSIVE
        self.start, self.end, self.inclusivity = start, end, inclusivity

    def __eq__(self, o):
        if not hasattr(o, "inclusivity"):
            return False
        if self.inclusivity != o.inclusivity or (self.start is None) != (o.start is None) or (
                self.end is None) != (o.end is None):
            return False
        return bool(self.start is None or self.start == o.start) and bool(self.end is None or self.end == o.end)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __mediatimerange__(self):
        return self

    def bounded_before(self):
        return self.start is not None

    def bounded_after(self):
        return self.end is not None

    def includes_start(self):
        return (self.inclusivity & 1) != 0

    def includes_end(self):
        return (self.inclusivity & 2) != 0

    def at_rate(self, num, den=1, phase_offset=None):
        """As the library: from the start on, the instants at the given rate."""
        rate = Fraction_._make(num, den)
        phase = ts_of(phase_offset) if phase_offset is not None else ts_make()
        if bool(phase >= ts_from_count(1, rate)):
            raise ValueError("phase_offset of %r is too large for rate %r" % (phase, rate))
        if self.start is None:
            raise ValueError("Cannot iterate over a timerange with no start")
        count = ts_of(self.start - phase).to_count(rate)
        while True:
            ts = ts_from_count(count, rate) + phase
            count = count + 1
            if bool(ts < self.start) or (not self.includes_start() and bool(ts == self.start)):
                continue
            elif self.end is not None and (bool(ts > self.end) or (not self.includes_end() and bool(ts == self.end))):
                break
            else:
                yield ts

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("TimeRange.%s" % name)


def make_timerange_sub():
    import mediatimestamp.immutable as m

    class TimeRange_(metaclass=_Sub):
        _real, _model = m.TimeRange, STimeRange

        @staticmethod
        def _make(start, end, inclusivity=None):
            if _any_sym(start, end):
                return STimeRange(start, end, inclusivity)
            return m.TimeRange(start, end, m.TimeRange.INCLUSIVE if inclusivity is None else inclusivity)

        @classmethod
        def from_start(cls, start, inclusivity=None):
            return cls._make(start, None, inclusivity)

        @classmethod
        def from_end(cls, end, inclusivity=None):
            return cls._make(None, end, inclusivity)

        @classmethod
        def from_single_timestamp(cls, ts):
            return cls._make(ts, ts)

        @classmethod
        def from_start_length(cls, start, length, inclusivity=None):
            if bool(length < m.Timestamp()):
                raise _tserr("Length must be non-negative")
            return cls._make(start, start + length, inclusivity)
    return TimeRange_


# ------------------------------------------------------------------ datetime
class STz(_dt.tzinfo):
    """A fixed-offset timezone asked about a symbolic datetime."""

    def __init__(self, real):
        self.real = real

    def utcoffset(self, dt):
        return self.real.utcoffset(None)

    def __eq__(self, o):
        return o is self or o == self.real

    __hash__ = None


class SDateTime(object):
    __sym__ = True

    def __init__(self, *f, tzinfo=None):
        use("datetime")
        self.f = tuple(f) + (0,) * (7 - _len(f))
        self.tzinfo = STz(tzinfo) if _isinstance(tzinfo, _dt.timezone) else tzinfo

    year = property(lambda s: s.f[0])
    month = property(lambda s: s.f[1])
    day = property(lambda s: s.f[2])
    hour = property(lambda s: s.f[3])
    minute = property(lambda s: s.f[4])
    second = property(lambda s: s.f[5])
    microsecond = property(lambda s: s.f[6])

    def __eq__(self, o):
        if _isinstance(o, (SDateTime, _dt.datetime)):
            g = (o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond)
            return mkbool(z3.And([toint(a) == toint(b) for a, b in zip(self.f, g)]))
        return False

    def __ne__(self, o):
        return core.notb(self.__eq__(o))

    __hash__ = None

    def __sub__(self, o):
        if _isinstance(o, _dt.timedelta) and o == _dt.timedelta(0):
            return self
        raise Unsupported("datetime arithmetic")

    __add__ = __sub__

    def utcoffset(self):
        return self.tzinfo.utcoffset(None) if self.tzinfo is not None else None

    def __repr__(self):
        return "SDateTime%r" % (self.f,)


def valid_date(y, mo, d, h, mi, s):
    y, mo, d, h, mi, s = [toint(x) for x in (y, mo, d, h, mi, s)]
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    dim = z3.If(mo == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)),
                z3.If(z3.Or(mo == 4, mo == 6, mo == 9, mo == 11), z3.IntVal(30), z3.IntVal(31)))
    return z3.And(y >= 1, y <= 9999, mo >= 1, mo <= 12, d >= 1, d <= dim, h >= 0, h < 24, mi >= 0, mi < 60,
                  s >= 0, s < 60)


def datetime_input(name):
    c = ctx()
    f = [c.int("%s.%s" % (name, a), lo, hi) for a, lo, hi in
         (("year", 1, 9999), ("month", 1, 12), ("day", 1, 31), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 59))]
    c.add(valid_date(*f))
    return SDateTime(*f, 0, tzinfo=_dt.timezone.utc)


class datetime_(metaclass=_Sub):
    _real, _model = _dt.datetime, SDateTime

    @staticmethod
    def _make(*a, tzinfo=None, **k):
        if k:
            a = tuple(a) + tuple(k.pop(n) for n in ("year", "month", "day", "hour", "minute", "second",
                                                    "microsecond")[_len(a):] if n in k)
            if k:
                raise Unsupported("datetime keywords")
        if not _any_sym(*a):
            return _dt.datetime(*a, tzinfo=tzinfo)
        f = tuple(a) + (0,) * (7 - _len(a))
        if not bool(mkbool(z3.And(valid_date(*f[:6]), toint(f[6]) >= 0, toint(f[6]) < 1000000))):
            raise ValueError("datetime field out of range")
        return SDateTime(*f, tzinfo=tzinfo)


# ------------------------------------------------------------------ files
def iszero_(x):
    return type(x) is int and x == 0


class SymFile(object):
    """io.BytesIO (and buffered binary files) over symbolic contents."""
    __vc_state__ = ("content", "_pos")      # _pos: END while the position is known to be the end of the content
    __sym__ = True
    closed = False
    END = "END"

    def __init__(self, content=b"", pos=0, seekable=True, name="file"):
        use("BytesIO")
        self.content = mkbytes(atoms_of(content)) if not _isinstance(content, SymFile) else content.content
        self.pos = pos
        self._seekable = seekable
        self.name = name
        self.reads = []
        self.log = []

    def _size(self):
        return runtime.sym_len(self.content)

    @property
    def pos(self):
        return self._size() if self._pos is SymFile.END else self._pos

    @pos.setter
    def pos(self, v):
        self._pos = v

    def seekable(self):
        return self._seekable

    def readable(self):
        return True

    writable = readable

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        if not self._seekable:
            raise io.UnsupportedOperation("seek")
        self.log.append(("seek",))
        if whence == 0:
            if bool(off < 0):
                raise ValueError("negative seek value")
            self._pos = SymFile.END if rope.known_eq(off, self._size()) and not iszero_(off) else off
        elif whence == 1:
            p = self.pos + off
            self.pos = core.ite_known(p < 0, 0, p)
        elif whence == 2:
            p = self._size() + off
            self.pos = core.ite_known(p < 0, 0, p)
        else:
            raise ValueError("invalid whence")
        return self.pos

    def read(self, n=-1):
        size = self._size()
        if n is None or bool(n < 0):
            end = size
        else:
            end = self.pos + n
            if bool(end > size):
                end = size
        if bool(self.pos >= end):
            self.log.append(("read", self.pos, 0))
            return rope.SBytes([])
        _, r = rope.split(atoms_of(self.content), self.pos)
        l, _ = rope.split(r, end - self.pos)
        self.log.append(("read", self.pos, end - self.pos))
        self.pos = end
        return mkbytes(l)

    def readinto(self, b):
        d = self.read(runtime.sym_len(b))
        n = runtime.sym_len(d)
        b[:n] = d
        return n

    def write(self, b):
        b = mkbytes(atoms_of(b))
        n = runtime.sym_len(b)
        self.log.append(("write", self.pos, n))
        if rope.iszero(n):
            return 0
        size = self._size()
        at = atoms_of(self.content)
        if self._pos is SymFile.END or rope.known_eq(self.pos, size):
            self.content = mkbytes(at + list(atoms_of(b)))
            self._pos = SymFile.END
            return n
        elif bool(self.pos > size):
            if bool(n == 0):
                return 0
            self.content = mkbytes(at + [rope.Fill(0, self.pos - size)] + list(atoms_of(b)))
        else:
            l, r = rope.split(at, self.pos)
            if bool(self.pos + n >= size):
                r = []
            else:
                _, r = rope.split(r, n)
            self.content = mkbytes(l + list(atoms_of(b)) + r)
        self.pos = self.pos + n
        return n

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if bool(size < self._size()):
            l, _ = rope.split(atoms_of(self.content), size)
            self.content = mkbytes(l)
        return size

    def getvalue(self):
        return self.content

    def getbuffer(self):
        return self.content

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


io.BufferedIOBase.register(SymFile)


class BytesIO_(metaclass=_Sub):
    _real, _model = io.BytesIO, SymFile

    @staticmethod
    def _make(b=b""):
        if core.CTX is None and _isinstance(b, (bytes, bytearray, memoryview)):
            return io.BytesIO(b)
        return SymFile(b)


# ------------------------------------------------------------------ asyncio
class _Now(object):
    def __init__(self, v):
        self.v = v

    def __await__(self):
        return self.v
        yield


class _Loop(object):
    def run_in_executor(self, ex, f, *a):
        use("executor")
        return _Now(f(*a))

    def create_task(self, c):
        raise Unsupported("tasks")


def make_asyncio_stub():
    import asyncio
    import types
    m = types.ModuleType("asyncio_model")
    m.__dict__.update({k: v for k, v in vars(asyncio).items() if not k.startswith("__")})

    def loop():
        if core.CTX is None:
            return asyncio.get_event_loop()
        return _Loop()
    m.get_event_loop = loop
    m.get_running_loop = loop
    return m


class SymStream(object):
    """asyncio.StreamReader whose peer sent the content and closed."""
    __sym__ = True

    def __init__(self, content):
        use("StreamReader")
        self.f = SymFile(content)

    def at_eof(self):
        return self.f.pos >= self.f._size()

    async def read(self, n=-1):
        if n < 0:
            return self.f.read()
        left = self.f._size() - self.f.pos
        if left <= 0 or n == 0:
            return b""
        k = ctx().fresh_int("arrived")        # at least one byte, at most what was asked for
        ctx().add(toint(1) <= k.e)
        ctx().add(k.e <= toint(n))
        ctx().add(k.e <= toint(left))
        return self.f.read(k)

    async def readexactly(self, n):
        import asyncio
        if n < 0:
            raise ValueError("readexactly size can not be less than zero")
        d = self.f.read(n)
        if runtime.sym_len(d) != n:
            e = asyncio.IncompleteReadError(b"", 0)
            e.partial, e.expected = d, n
            raise e
        return d


def run_coro(c):
    """Drive a coroutine whose awaits all complete immediately."""
    try:
        c.send(None)
    except StopIteration as e:
        return e.value
    raise Unsupported("coroutine suspended")


def run_agen(g, limit=None):
    """List of the values of an async generator."""
    out = []
    while limit is None or _len(out) < limit:
        try:
            out.append(run_coro(g.__anext__()))
        except StopAsyncIteration:
            break
    return out


# ------------------------------------------------------------------ json
class SJson(object):
    """An arbitrary JSON value (opaque: the code under contract must pass it on unchanged)."""
    __sym__ = True

    def __init__(self, term):
        self.term = term

    def __eq__(self, o):
        if isinstance(o, SJson):
            return core.mkbool(self.term == o.term)
        return False if o is None else NotImplemented

    def __ne__(self, o):
        return core.notb(self == o)

    def __bool__(self):
        return bool(core.mkbool(z3.Function("json!true", self.term.sort(), z3.BoolSort())(self.term)))

    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def __vc_at__(self, k, kk):
        return SJson(z3.substitute(self.term, (k.e, toint(kk))))


_JsonSort = z3.DeclareSort("JsonValue")


def json_const(name):
    return SJson(z3.Const("json!" + name, _JsonSort))


def json_array(name):
    f = z3.Function("json!" + name, z3.IntSort(), _JsonSort)
    return lambda k: SJson(f(toint(k)))


def _json_sym(x):
    if core.is_sym(x):
        return True
    if isinstance(x, dict):
        return any(_json_sym(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(_json_sym(v) for v in x) if getattr(x, "sym", None) is None else True
    return hasattr(type(x), "__sym_iter__") or type(x).__name__ == "SymList"


def _json_tree(x):
    """The tree of a JSON-serialisable value, copied."""
    from . import runtime, seq
    if isinstance(x, dict):
        return {k: _json_tree(v) for k, v in x.items()}
    if isinstance(x, seq.SymList) or getattr(x, "sym", None) is not None:
        return seq.SymList([sg if sg.symbolic else seq.ConcSeg([_json_tree(v) for v in sg.items])
                            for sg in runtime.segments(x)])
    if isinstance(x, (list, tuple)):
        return [_json_tree(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str, rope.SStr, SJson, core.SInt, core.SBool)):
        return x
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


def _json_same(a, b):
    from . import runtime, seq
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and all(
            _json_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, seq.SymList)) or isinstance(b, (list, seq.SymList)):
        if not (isinstance(a, (list, seq.SymList)) and isinstance(b, (list, seq.SymList))):
            return False
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(_json_same(x, y) for x, y in zip(a, b))
        na, nb = runtime.sym_len(a), runtime.sym_len(b)
        c = core.ctx()
        if not c.valid(toint(na) == toint(nb)):
            return False
        if c.valid(toint(na) == 0):
            return True
        k = c.fresh_int("jk", 0)
        sa, sb = runtime.segments(a), runtime.segments(b)
        if len(sa) != 1 or len(sb) != 1 or not sa[0].symbolic or not sb[0].symbolic:
            return False
        return _json_same(sa[0].elem(k), sb[0].elem(k))
    if isinstance(a, (rope.SStr, SJson, core.SInt, core.SBool)) or isinstance(b, (rope.SStr, SJson, core.SInt, core.SBool)):
        if (a is None) != (b is None):
            return False
        return runtime.equiv(a, b)
    return type(a) is type(b) and a == b


def _json_equal(a, b):
    """A formula that implies that two trees are the same (None: not known)."""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return None
        a, b = list(a.values()), list(b.values())
    if type(a) is list and type(b) is list:
        if len(a) != len(b) or getattr(a, "sym", None) is not None or getattr(b, "sym", None) is not None:
            return None
        fs = [_json_equal(x, y) for x, y in zip(a, b)]
        return None if None in fs else z3.And(fs)
    if core.is_sym(a) and core.is_sym(b) and not isinstance(a, seq.SymList) and not isinstance(b, seq.SymList) \
            and type(a) is type(b):
        e = a == b
        return core.tobool(e) if isinstance(e, (bool, SBool)) else None
    return z3.BoolVal(True) if type(a) is type(b) and not core.is_sym(a) and a == b else None


class JSON(object):
    """json with symbolic leaves: dumps is a function of the tree, loads its inverse (trusted: the json module)."""

    def __init__(self):
        import json
        self._m = json

    def __getattr__(self, n):
        return getattr(self._m, n)

    def dumps(self, x, **k):
        if core.CTX is None or not _json_sym(x):
            return self._m.dumps(x, **k)
        if k:
            raise Unsupported("json.dumps options")
        use("json")
        tree = _json_tree(x)
        c = core.ctx()
        cache = c.__dict__.setdefault("json_texts", [])
        for t in cache:
            if _json_same(t.tree, tree):
                return rope.SStr([t])
        n = c.fresh_int("jsonlen", 2)
        lim = getattr(c, "json_limit", None)
        if lim is not None:
            c.add(toint(n) <= lim)
        t = rope.TextBase(c.name_fresh("json"), n)
        t.tree = tree
        for o in cache:
            f = _json_equal(o.tree, tree)
            if f is not None:
                c.add(z3.Implies(f, z3.And(toint(o.nbytes) == toint(n), o.const == t.const)))
        cache.append(t)
        return rope.SStr([t])

    def loads(self, s, **k):
        if isinstance(s, (rope.SBytes, rope.SByteArray)):
            s = s.decode("utf-8")
        if isinstance(s, rope.SStr):
            t = s._single()
            if t is None or not hasattr(t, "tree"):
                raise Unsupported("json.loads of arbitrary text")
            return _json_tree(t.tree)
        return self._m.loads(s, **k)


# ------------------------------------------------------------------ enumerations
def make_enum_meta():
    import enum

    class SymEnumType(enum.EnumType):
        def __call__(cls, value, *a, **k):
            if _isinstance(value, SEnum):
                value = value.v
            if _isinstance(value, SInt) and not a and not k:
                vals = sorted(set(int(m) for m in cls.__members__.values()))
                ok = mkbool(z3.Or([value.e == v for v in vals]))
                if not bool(ok):
                    raise ValueError("<symbolic> is not a valid %s" % cls.__name__)
                return SEnum(cls, value)
            return super().__call__(value, *a, **k)
    return SymEnumType


class SEnum(object):
    """A member of an IntEnum known by its symbolic value."""
    __sym__ = True

    def __init__(self, cls, v):
        self.cls, self.v = cls, v

    def __sym_int__(self):
        return self.v

    value = property(lambda s: s.v)

    @property
    def name(self):
        raise Unsupported("name of symbolic enum")

    def __eq__(self, o):
        return self.v == (o.v if _isinstance(o, SEnum) else o)

    def __ne__(self, o):
        return core.notb(self.__eq__(o))

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "SEnum(%s,%r)" % (self.cls.__name__, self.v)

    def __deepcopy__(self, memo):
        return self

    def __index__(self):
        return self.v.__index__()


def _fwd(op):
    def f(self, o):
        return getattr(self.v, op)(o.v if _isinstance(o, SEnum) else o)
    return f


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "mod", "and", "rand", "or", "ror", "xor",
            "lshift", "rshift", "rlshift", "rrshift", "lt", "le", "gt", "ge"):
    setattr(SEnum, "__%s__" % _op, _fwd("__%s__" % _op))


class FrozenTDict(runtime.TDict):
    __slots__ = ("frozen",)

    def __init__(self, *a, **k):
        self.frozen = False
        runtime.TDict.__init__(self, *a, **k)
        self.frozen = True

    def __setitem__(self, k, v):
        if self.frozen:
            raise TypeError("'frozendict' object does not support item assignment")
        runtime.TDict.__setitem__(self, k, v)

    def _no(self, *a, **k):
        raise TypeError("'frozendict' object is immutable")
    pop = popitem = clear = setdefault = __delitem__ = _no


def make_frozendict_sub():
    from frozendict import frozendict as real

    class frozendict_(metaclass=_Sub):
        _real, _model = real, FrozenTDict

        @staticmethod
        def _make(*a, **k):
            if a and _isinstance(a[0], runtime.TDict) and a[0].nsym:
                return FrozenTDict(*a, **k)
            return real(*a, **k)
    return {id(real): frozendict_}


# ------------------------------------------------------------------ struct, difflib
class Packed(SymList):
    """struct.unpack() of symbolically many equal items."""

    def __init__(self, data, n, order, code):
        self.data, self.n, self.order, self.code = data, n, order, code
        size = _struct.calcsize(order + code)
        little = order == "<" or order in "@=" and sys.byteorder == "little"

        def elem(k):
            v = rope.int_from_bytes(data[k * size:(k + 1) * size], "little" if little else "big", code in "bhilq")
            return SFloatBits(v, size) if code in "fd" else v
        SymList.__init__(self, [SymSeg(n, elem)])
        self.size = size
        self.source = (self, 1)


class SFloatBits(object):
    """A floating point number, by its bits."""
    __sym__ = True

    def __init__(self, bits, size):
        self.bits, self.size = bits, size

    def parts(self):
        top, inf = (1 << 31, 0x7f800000) if self.size == 4 else (1 << 63, 0x7ff << 52)
        return self.bits % top, inf

    def __eq__(self, o):
        if not _isinstance(o, SFloatBits) or o.size != self.size:
            raise Unsupported("comparison of a number with symbolic bits")
        (m, inf), (n, _) = self.parts(), o.parts()
        m, n, a, b = toint(m), toint(n), toint(self.bits), toint(o.bits)
        return core.mkbool(z3.And(m <= inf, n <= inf, z3.Or(a == b, z3.And(m == 0, n == 0))))

    def __ne__(self, o):
        return core.notb(self == o)

    __hash__ = None

    def __format__(self, spec):
        return "<sym>"

    __repr__ = __str__ = lambda self: "<sym>"


class STRUCT(object):
    """The struct module: unpack() of symbolic data."""

    def __getattr__(self, name):
        return getattr(_struct, name)

    def unpack(self, fmt, data):
        if _isinstance(fmt, rope.RepText):
            order, code = (fmt.prefix or "@"), fmt.ch
            if order not in "@=<>!" or code not in "bBhHiIlLqQfd":
                raise Unsupported("struct format %r %r" % (order, code))
            use("struct")
            if not bool(fmt.n * _struct.calcsize(order + code) == runtime.sym_len(data)):
                raise _struct.error("unpack requires a buffer of another size")
            return Packed(data, fmt.n, order, code)
        if core.is_sym(data):
            if not _isinstance(fmt, str):
                raise Unsupported("struct format")
            order, codes = (fmt[0], fmt[1:]) if fmt[:1] in "@=<>!" and fmt else ("@", fmt)
            if codes.strip("bBhHiIlLqQ") or len(set(codes)) > 1:
                raise Unsupported("struct format %r of symbolic data" % (fmt,))
            size = _struct.calcsize(order + codes[0]) if codes else 1
            if not bool(runtime.sym_len(data) == len(codes) * size):
                raise _struct.error("unpack requires a buffer of %d bytes" % (len(codes) * size))
            little = order == "<" or order in "@=" and sys.byteorder == "little"
            return tuple(rope.int_from_bytes(data[i * size:(i + 1) * size], "little" if little else "big",
                                             codes[i] in "bhilq") for i in range(len(codes)))
        return _struct.unpack(fmt, data)


class SRatio(object):
    """SequenceMatcher.ratio() of sequences that differ: below one."""
    __sym__ = True

    def __init__(self):
        self.n, self.d = ctx().fresh_int("matches"), ctx().fresh_int("elements")
        ctx().assume(core.mkbool(z3.And(self.n.e >= 0, self.n.e < self.d.e)))

    def _cmp(self, o, f):
        if _isinstance(o, bool) or not _isinstance(o, (int, float)):
            raise Unsupported("comparison of a ratio with %r" % (o,))
        p, q = (o, 1) if _isinstance(o, int) else o.as_integer_ratio()
        return core.mkbool(f(self.n.e * q, self.d.e * p))

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: x != y)

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y)

    __hash__ = None

    def __format__(self, spec):
        return "<sym>"

    __repr__ = __str__ = lambda self: "<sym>"


class SMatcher(object):
    def __init__(self, a, b):
        self.a, self.b, self.r = a, b, None

    def ratio(self):
        if self.r is None:
            use("difflib")
            self.r = 1.0 if self.equal() else SRatio()
        return self.r

    real_quick_ratio = quick_ratio = None

    def equal(self):
        a, b = self.a, self.b
        if not _isinstance(a, SymList) and not _isinstance(b, SymList):
            if len(a) != len(b):
                return False
            f = []
            for x, y in zip(a, b):
                e = x == y
                if e is False:
                    return False
                if _isinstance(e, SBool):
                    f.append(e.e)
            return bool(core.mkbool(z3.And(f))) if f else True
        (p, m), (q, n) = getattr(a, "source", (None, 0)), getattr(b, "source", (None, 0))
        if p is None or q is None or m != n or (p.code, p.order) != (q.code, q.order):
            raise Unsupported("comparison of symbolic sequences")
        na, nb = a.segs[0].count, b.segs[0].count
        if not bool(na == nb):
            return False
        if bool(na == 0):
            return True
        if self.injective(a, b, p, q, m):
            eq = bool(p.data == q.data)
        else:
            # the same bytes are not enough (NaN), nor needed (-0.0)
            eq = bool(ctx().boolean("equal_values", False))
        if not eq:
            w = ctx().fresh_int("differs", 0)
            ctx().assume(w < na)
            ctx().assume(a.segs[0].elem(w) != b.segs[0].elem(w))
            a.witnesses, b.witnesses = {id(b): w}, {id(a): w}
        return eq

    def injective(self, a, b, p, q, m):
        """Equal items of the sequences come from equal bytes, and they cover the data."""
        if p.code in "fd":
            return False
        if a is p and b is q:
            return True
        na, size = a.segs[0].count, p.size * m
        if not (ctx().valid(toint(na * size) == toint(runtime.sym_len(p.data))) and
                ctx().valid(toint(na * size) == toint(runtime.sym_len(q.data)))):
            return False
        k = ctx().fresh_int("any", 0)
        ctx().assume(k < na)
        e = a.segs[0].elem(k) == b.segs[0].elem(k)
        if e is False:
            return True
        f = rope.eq_formula(p.data[k * size:(k + 1) * size], q.data[k * size:(k + 1) * size])
        return ctx().valid(z3.Implies(core.tobool(e), f))

    def __getattr__(self, name):
        raise Unsupported("SequenceMatcher." + name)


class SequenceMatcher_(metaclass=_Sub):
    _real, _model = difflib.SequenceMatcher, SMatcher

    @staticmethod
    def _make(isjunk=None, a="", b="", autojunk=True):
        if any(_isinstance(x, SymList) or core.is_sym(x) or any(core.is_sym(y) for y in x) for x in (a, b)):
            if isjunk is not None:
                raise Unsupported("SequenceMatcher with junk")
            return SMatcher(a, b)
        return difflib.SequenceMatcher(isjunk, a, b, autojunk)


def substitutions():
    import mediatimestamp.immutable as m
    import asyncio
    import json
    from . import bitmodel
    from . import npmodel
    ts = make_timestamp_sub()
    return {**make_frozendict_sub(), **bitmodel.substitute(), **npmodel.substitute(), id(uuid.UUID): UUID_, id(fractions.Fraction): Fraction_, id(_dt.datetime): datetime_,
            id(io.BytesIO): BytesIO_, id(m.Timestamp): ts, id(m.TimeRange): make_timerange_sub(),
            id(asyncio): make_asyncio_stub(), id(_struct): STRUCT(),
            id(difflib.SequenceMatcher): SequenceMatcher_, id(json): JSON()}
