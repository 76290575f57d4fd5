"""Symbolic sequences (lists of unbounded symbolic length) and prefix sums."""
import builtins
import z3
from . import core
from .core import SInt, Unsupported, ctx, toint, mkint, _conc, PathEnd
from . import rope

_int, _isinstance, _range, _len, _list, _tuple = int, isinstance, range, len, list, tuple


class SeqLike(object):
    """count elements elem(k), 0 <= k < count."""
    __sym__ = True

    def __init__(self, count, elem):
        self.count, self.elem = count, elem


class ConcSeg(object):
    symbolic = False

    def __init__(self, items):
        self.items = _list(items)
        self.count = _len(self.items)

    def elem(self, k):
        k = rope.small(k, self.count - 1)
        return self.items[k]


class SymSeg(object):
    symbolic = True

    def __init__(self, count, elem, lo=0):
        self.total, self.elem_, self.lo = count, elem, lo
        self.count = count - lo if not (_isinstance(lo, _int) and lo == 0) else count

    def elem(self, k):
        return self.elem_(k + self.lo if not (_isinstance(self.lo, _int) and self.lo == 0) else k)


class SymList(object):
    """A python list/tuple with segments of concrete items and of symbolically many items."""
    __sym__ = True

    def __init__(self, segs=()):
        self.segs = _list(segs)

    @staticmethod
    def of(count, elem):
        return SymList([SymSeg(count, elem)])

    @staticmethod
    def segs_of(x):
        if _isinstance(x, SymList):
            return _list(x.segs)
        if getattr(x, "sym", None) is not None:
            return _list(x.sym.segs)
        if _isinstance(x, SeqLike):
            return [SymSeg(x.count, x.elem)]
        return [ConcSeg(x)]

    def __symlen__(self):
        n = 0
        for s in self.segs:
            n = n + s.count
        return _conc(n)

    def __len__(self):
        n = self.__symlen__()
        if _isinstance(n, _int):
            return n
        u = core.unique_value(n)
        if u is not None:
            return u
        raise Unsupported("machine len() of a symbolic list")

    def __bool__(self):
        return bool(self.__symlen__() != 0)

    def __iter__(self):
        for s in self.segs:
            if s.symbolic:
                n = core.unique_value(s.count)
                if n is None:
                    raise Unsupported("native iteration over a symbolic list")
                for k in _range(n):
                    yield s.elem(k)
            else:
                for x in s.items:
                    yield x

    def __getitem__(self, i):
        if _isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                return SymList(self.segs)
            raise Unsupported("slice of symbolic list")
        n = self.__symlen__()
        i = _conc(i)
        if bool(i < 0):
            i = i + n
            if bool(i < 0):
                raise IndexError("list index out of range")
        if bool(i >= n):
            raise IndexError("list index out of range")
        off = 0
        for s in self.segs:
            if bool(i < off + s.count):
                return s.elem(i - off)
            off = off + s.count
        raise IndexError("list index out of range")

    def differs_from(self, o):
        return getattr(self, "witnesses", {}).get(id(o))

    def append(self, x):
        self.__dict__.pop("source", None)
        if self.segs and not self.segs[-1].symbolic:
            self.segs[-1] = ConcSeg(self.segs[-1].items + [x])
        else:
            self.segs.append(ConcSeg([x]))

    def extend(self, o):
        self.__dict__.pop("source", None)
        self.segs += SymList.segs_of(o)

    def insert(self, i, x):
        self.__dict__.pop("source", None)
        i = _conc(i)
        if _isinstance(i, _int) and i == 0:
            self.segs.insert(0, ConcSeg([x]))
            return
        if rope.known_eq(i, self.__symlen__()):
            self.append(x)
            return
        raise Unsupported("insert into a symbolic list")

    def __add__(self, o):
        return SymList(self.segs + SymList.segs_of(o))

    def __radd__(self, o):
        return SymList(SymList.segs_of(o) + self.segs)

    def __iadd__(self, o):
        self.__dict__.pop("source", None)
        self.segs += SymList.segs_of(o)
        return self

    def copy(self):
        return SymList(self.segs)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of symbolic lists")

    __hash__ = None

    def __repr__(self):
        return "SymList(%d segs)" % _len(self.segs)


class SymIter(object):
    """iter() of a symbolic list."""
    __sym__ = True

    def __init__(self, x):
        self.x, self.pos, self.dead = x, 0, False

    def _list(self):
        x = self.x
        return x if _isinstance(x, SymList) else SymList(SymList.segs_of(x))

    def next(self, *default):
        x = self._list()
        if bool(self.pos < x.__symlen__()):
            v = x[self.pos]
            self.pos = self.pos + 1
            return v
        if default:
            return default[0]
        raise StopIteration

    def chunks(self, n):
        """zip(*[self] * n): the items in groups of n, an incomplete group is dropped."""
        x = self._list()
        if _len(x.segs) != 1 or not x.segs[0].symbolic or self.pos != 0:
            raise Unsupported("chunks of a mixed list")
        s = x.segs[0]
        self.pos = s.count
        r = SymList([SymSeg(s.count // n, lambda k: _tuple(s.elem(k * n + j) for j in _range(n)))])
        if hasattr(x, "source"):
            r.source = (x.source[0], x.source[1] * n)
        return r

    def __iter__(self):
        raise Unsupported("iteration over the iterator of a symbolic list")


class TrackedList(list):
    """Concrete list that can grow a symbolic tail (used for list displays)."""


def _monomials(t):
    """(constant, [(coefficient, term)]) of a simplified linear term."""
    if z3.is_int_value(t):
        return t.as_long(), []
    if z3.is_add(t):
        c, ms = 0, []
        for x in t.children():
            c1, m1 = _monomials(x)
            c += c1
            ms += m1
        return c, ms
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        c1, m1 = _monomials(t.arg(1))
        k = t.arg(0).as_long()
        return c1 * k, [(k * a, b) for a, b in m1]
    return 0, [(1, t)]


def prefix_sum(term_of_k, upto, fn=None):
    """Sum of term_of_k(j) for 0 <= j < upto.

    The summand is split into its linear parts; the sum of each part is an uninterpreted function with its
    defining equations, shared between all sums over the same part."""
    c = ctx()
    kc = z3.Int("k$sum")
    t = z3.simplify(toint(term_of_k(SInt(kc, 0))))
    const, ms = _monomials(t)
    tab = c.symbols.setdefault("sums", {})
    fs = []
    for a, m in ms:
        key = m.sexpr()
        if key not in tab:
            tab[key] = z3.Function("sum!%d" % _len(tab), z3.IntSort(), z3.IntSort())
            c.add(tab[key](0) == 0)
        fs.append((a, m, tab[key]))

    def total(e):
        r = const * e
        for a, m, f in fs:
            r = r + a * f(e)
        return r
    if fn is not None:
        j = z3.Int("j$")
        c.add(z3.ForAll([j], fn(j) == total(j), patterns=[fn(j)]))
    # defining equations at the interesting points
    points = [upto] + _list(getattr(c, "loop_index", []))
    for p in points:
        pe = toint(p)
        for q in (pe, pe - 1):
            term_of_k(SInt(z3.simplify(q), 0))      # facts about the element
            for a, m, f in fs:
                c.add(z3.Implies(q >= 0, f(q + 1) == f(q) + z3.substitute(m, (kc, q))))
    for a, m, f in fs:
        key = ("upper", m.sexpr())
        if key not in tab:
            tab[key] = next((b for b in (255, 65535, (1 << 32) - 1) if c.valid(m <= b)), None)
        if tab[key] is not None:
            for p in points:
                pe = toint(p)
                c.add(z3.Implies(pe >= 0, f(pe) <= tab[key] * pe))
        key = ("nonneg", m.sexpr())
        if key not in tab:
            tab[key] = c.valid(m >= 0)
        if tab[key]:
            ps = [toint(p) for p in points]
            for p in ps:
                c.add(z3.Implies(p >= 0, f(p) >= 0))
                for q in ps:
                    if q is not p:
                        c.add(z3.Implies(z3.And(0 <= p, p <= q), f(p) <= f(q)))
    return mkint(z3.simplify(total(toint(upto))))
