"""Run-time hooks used by the transformed source: builtins and loops over symbolic sequences."""
import builtins
import os as _os
import operator
import sys
import types
import z3
from . import core, rope, seq
from .core import (SInt, SBool, Unsupported, PathEnd, ctx, toint, tobool, mkint, mkbool, _conc, notb)
from .rope import SBytes, SByteArray, SStr, mkbytes, atoms_of, Conc, Fill, Rep, Num
from .seq import SymList, SeqLike, SymSeg, ConcSeg

_B = builtins
_isinstance = isinstance


# ------------------------------------------------------------------ builtins
def sym_len(x):
    t = type(x)
    if hasattr(t, "__symlen__"):
        return x.__symlen__()
    if hasattr(t, "__len__") and getattr(t, "__module__", "").startswith("mediagrains"):
        return t.__len__(x)
    return _B.len(x)


class _TypeMeta(type):
    """A stand-in for a builtin type that also accepts symbolic values."""

    def __new__(mcs, name, bases, ns):
        if any(type(b) is _TypeMeta for b in bases):        # a class of the code under test: derived from the real type
            return type(name, _B.tuple(b._real if type(b) is _TypeMeta else b for b in bases), ns)
        return type.__new__(mcs, name, bases, ns)

    def __instancecheck__(cls, o):
        if _B.isinstance(o, cls._real) or _B.isinstance(o, cls._sym):
            return True
        return cls._real is str and hasattr(type(o), "__sym_text__")

    def __subclasscheck__(cls, c):
        return c is cls or _B.issubclass(c, cls._real)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


class int_(metaclass=_TypeMeta):
    _real, _sym = int, (SInt, SBool)

    @staticmethod
    def _make(x=0, *a):
        if _isinstance(x, SInt):
            return x
        if _isinstance(x, SBool):
            return x._i()
        if hasattr(x, "__sym_int__"):
            return x.__sym_int__()
        if _isinstance(x, (SBytes, SStr)):
            raise Unsupported("int() of symbolic text")
        return _B.int(x, *a)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if _isinstance(b, (SBytes, SByteArray)):
            return rope.int_from_bytes(b, byteorder, signed)
        return _B.int.from_bytes(b, byteorder, signed=signed)


class bool_(metaclass=_TypeMeta):
    _real, _sym = bool, (SBool,)

    @staticmethod
    def _make(x=False):
        if _isinstance(x, SBool):
            return x
        if _isinstance(x, SInt):
            return x != 0
        return _B.bool(x)


def _to_bytes(*a):
    if not a:
        return b""
    x = a[0]
    if _B.len(a) > 1:
        if _isinstance(x, SStr):
            return x.encode(a[1])
        return _B.bytes(*a)
    if _isinstance(x, (SBytes, bytes)):
        return x
    if hasattr(type(x), "__sym_bytes__"):
        return x.__sym_bytes__()
    if _isinstance(x, (int, SInt)) and not _isinstance(x, bool):
        x = _conc(x)
        if _isinstance(x, SInt):
            if bool(x < 0):
                raise ValueError("negative count")
            return mkbytes([Fill(0, x)])
        return _B.bytes(x)
    if hasattr(type(x), "__bytes__"):
        r = type(x).__bytes__(x)
        return r
    if _isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
        items = _B.list(x)
        if all(type(i) is int for i in items):
            return _B.bytes(items)
        ba = SByteArray()
        for i in items:
            ba.append(i)
        return mkbytes(ba.atoms)
    return _B.bytes(x)


class bytes_(metaclass=_TypeMeta):
    _real, _sym = bytes, (SBytes,)
    _make = staticmethod(_to_bytes)


class bytearray_(metaclass=_TypeMeta):
    _real, _sym = bytearray, (SByteArray,)

    @staticmethod
    def _make(*a):
        if a and _isinstance(a[0], SByteArray):
            return SByteArray(a[0].atoms)
        if a and _isinstance(a[0], bytearray):
            return SByteArray([Conc(bytes(a[0]))])
        return SByteArray(atoms_of(_to_bytes(*a)))


class memoryview_(metaclass=_TypeMeta):
    _real, _sym = memoryview, ()

    @staticmethod
    def _make(x):
        if _isinstance(x, (SBytes, SByteArray)):
            return x
        return _B.memoryview(x)


class str_(metaclass=_TypeMeta):
    _real, _sym = str, (SStr,)

    @staticmethod
    def _make(*a):
        if a:
            x = a[0]
            if _isinstance(x, SStr):
                return x
            if _isinstance(x, (SBytes, SByteArray)) and _B.len(a) > 1:
                return x.decode(a[1])
            if hasattr(type(x), "__sym_str__"):
                return x.__sym_str__()
            if core.is_sym(x):
                return "<sym>"
        return _B.str(*a)


class list_(metaclass=_TypeMeta):
    _real, _sym = list, (SymList,)

    @staticmethod
    def _make(*a):
        if a and _isinstance(a[0], (SymList, SeqLike)):
            return SymList(SymList.segs_of(a[0]))
        if a and issym_iter(sym_iter(a[0])):
            return SymList(SymList.segs_of(sym_iter(a[0])))
        return _B.list(*a)


class tuple_(metaclass=_TypeMeta):
    _real, _sym = tuple, ()

    @staticmethod
    def _make(*a):
        if a and _isinstance(a[0], (SymList, SeqLike)):
            return SymList(SymList.segs_of(a[0]))
        if a and type(a[0]).__module__.startswith("mediagrains") and issym_iter(sym_iter(a[0])):
            return SymList(SymList.segs_of(sym_iter(a[0])))
        return _B.tuple(*a)


class dict_(metaclass=_TypeMeta):
    _real, _sym = dict, ()

    @staticmethod
    def _make(*a, **k):
        if a and (_isinstance(a[0], TDict) and a[0].nsym):
            r = a[0].copy()
            r.update(**k)
            return r
        if a and issym_iter(sym_iter(a[0])):
            raise Unsupported("dict of a symbolic list")
        return _B.dict(*a, **k)


class range_(metaclass=_TypeMeta):
    _real, _sym = range, ()

    @staticmethod
    def _make(*a):
        a = [_conc(x) for x in a]
        if not any(_isinstance(x, SInt) for x in a):
            return _B.range(*a)
        start, stop, step = (0, a[0], 1) if _B.len(a) == 1 else (a[0], a[1], 1) if _B.len(a) == 2 else a
        if step != 1:
            raise Unsupported("symbolic range step")
        n = stop - start
        if bool(n <= 0):
            return _B.range(0)
        if _isinstance(_conc(n), _B.int):
            v = core.ctx().only(start)
            if _isinstance(v, _B.int):
                return _B.range(v, v + n)
        return SeqLike(n, lambda k: start + k)


def sym_min(*a, **k):
    if _B.len(a) > 1 and not k and any(_isinstance(x, SInt) for x in a):
        r = a[0]
        for x in a[1:]:
            m = core.ite_known(x < r, x, r)
            r = m if m is not None else (x if x < r else r)
        return r
    return _B.min(*a, **k)


def sym_max(*a, **k):
    if _B.len(a) > 1 and not k and any(_isinstance(x, SInt) for x in a):
        r = a[0]
        for x in a[1:]:
            m = core.ite_known(x > r, x, r)
            r = m if m is not None else (x if x > r else r)
        return r
    if _B.len(a) == 1 and not k:
        xs = _B.list(a[0])
        if any(_isinstance(x, SInt) for x in xs):
            return sym_max(*xs) if _B.len(xs) > 1 else xs[0]
        return _B.max(xs)
    return _B.max(*a, **k)


def sym_sum(it, start=0):
    it = sym_iter(it)
    if issym_iter(it):
        r = start
        for s in segments(it):
            if s.symbolic:
                r = r + seq.prefix_sum(s.elem, s.count)
            else:
                for x in s.items:
                    r = r + x
        return r
    r = start
    for x in it:
        r = r + x
    return r


def sym_any(it):
    for x in it:
        if x:
            return True
    return False


def sym_all(it):
    for x in it:
        if not x:
            return False
    return True


def sym_enumerate(it, start=0):
    it = sym_iter(it)
    if issym_iter(it):
        segs, out, off = segments(it), [], start
        for s in segs:
            def mk(s, off):
                return lambda k: (off + k, s.elem(k))
            if s.symbolic:
                out.append(SymSeg(s.count, mk(s, off)))
            else:
                out.append(ConcSeg([(off + i, x) for i, x in _B.enumerate(s.items)]))
            off = off + s.count
        r = SymList(out)
        if hasattr(it, "witness") and start == 0:
            r.witness = it.witness
        return r
    return _B.enumerate(it, start)


def sym_zip(*its, **kw):
    if any(_isinstance(i, seq.SymIter) for i in its):
        if not all(i is its[0] for i in its) or kw:
            raise Unsupported("zip of iterators")
        return its[0].chunks(_B.len(its))
    its = [sym_iter(i) for i in its]
    if any(issym_iter(i) for i in its):
        segs = [segments(i) for i in its]
        if all(_B.len(s) == 1 and s[0].symbolic for s in segs):
            n = segs[0][0].count
            for s in segs[1:]:
                n = sym_min(n, s[0].count)
            r = SymList([SymSeg(n, lambda k: tuple(s[0].elem(k) for s in segs))])
            if _B.len(its) == 2 and _isinstance(its[0], SymList):
                r.witness = lambda: its[0].differs_from(its[1])
            return r
        raise Unsupported("zip of symbolic lists")
    return _B.zip(*its, **kw)


def sym_abs(x):
    return x.__abs__() if _isinstance(x, SInt) else _B.abs(x)


def sym_divmod(a, b):
    if _isinstance(a, SInt) or _isinstance(b, SInt):
        return (a // b, a % b)
    return _B.divmod(a, b)


def sym_sorted(x, **k):
    x = sym_iter(x)
    if issym_iter(x):
        raise Unsupported("sorted of symbolic list")
    return _B.sorted(x, **k)


def sym_hasattr(o, n):
    if _isinstance(o, (SBytes, SByteArray)) and n == "__bytes__":
        return _isinstance(o, SBytes)
    return _B.hasattr(o, n)


def sym_iter_builtin(x, *a):
    if not a:
        y = sym_iter(x)
        if issym_iter(y):
            return seq.SymIter(y)
    return _B.iter(x, *a)


def open_(name, mode="r", *a, **k):
    """Files of the harness (see dual.tool); anything else is the real open."""
    fs = getattr(core.CTX, "fs", None) if core.CTX is not None else None
    if fs is None or not (_isinstance(name, str) and name.startswith("/vc/")):
        return _B.open(name, mode, *a, **k)
    from . import models
    if "w" in mode:
        fs[name] = models.SymFile(b"")
    elif name not in fs:
        raise FileNotFoundError(name)
    else:
        fs[name].pos = 0
    if "b" not in mode:
        raise Unsupported("text file")
    return fs[name]


def make_builtins():
    d = dict(vars(_B), open=open_)
    d.update(dict=dict_, len=sym_len, int=int_, bool=bool_, bytes=bytes_, bytearray=bytearray_, memoryview=memoryview_, str=str_,
             list=list_, tuple=tuple_, range=range_, min=sym_min, max=sym_max, sum=sym_sum, any=sym_any, all=sym_all,
             enumerate=sym_enumerate, zip=sym_zip, abs=sym_abs, divmod=sym_divmod, sorted=sym_sorted,
             hasattr=sym_hasattr, iter=sym_iter_builtin, next=sym_next)
    return d


# ------------------------------------------------------------------ iteration hooks
def sym_iter(x):
    """The symbolic sequence behind an iterable, or the iterable itself."""
    if _isinstance(x, (SymList, SeqLike)):
        return x
    h = getattr(type(x), "__sym_iter__", None)
    if h is not None:
        return h(x)
    # sequences of the code under test over symbolic lists: iterate by index through their own methods
    t = type(x)
    if getattr(t, "__module__", "").startswith("mediagrains") and hasattr(t, "__getitem__") and hasattr(t, "__len__") \
            and "__iter__" not in t.__dict__ and not hasattr(x, "keys"):
        n = t.__len__(x)
        if _isinstance(_conc(n), SInt):
            return SeqLike(n, lambda k: t.__getitem__(x, k))
    return x


def issym_iter(x):
    return _isinstance(x, (SymList, SeqLike))


def segments(x):
    return SymList.segs_of(x)


UNDEF = object()


class Poison(object):
    """Value of a variable that is not carried by the loop invariant."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _die(self, *a, **k):
        raise Unsupported("value of %s not known after a summarised loop" % object.__getattribute__(self, "_n"))

    __call__ = __add__ = __radd__ = __bool__ = __len__ = __iter__ = __getitem__ = __eq__ = __lt__ = __sub__ = _die
    __hash__ = None

    def __getattr__(self, n):
        self._die()


def vc_try(f):
    try:
        return f()
    except NameError:
        return UNDEF


# ---- heap snapshots
def _is_code_obj(o):
    m = getattr(type(o), "__module__", "") or ""
    return m.startswith("mediagrains") or m.startswith("uuid_not")


def heap(roots):
    """path -> (container, key, value) of the mutable state reachable from the roots."""
    out = {}
    seen = set()

    def go(path, o, depth):
        if id(o) in seen or depth > 7:
            return
        st = getattr(type(o), "__vc_state__", None)
        if st is not None:
            seen.add(id(o))
            for a in st:
                v = getattr(o, a)
                out[path + ("." + a,)] = (o, ("attr", a), v)
                go(path + ("." + a,), v, depth + 1)
        elif _isinstance(o, TList):
            seen.add(id(o))
            if o.step is not None:
                out[path + ("[]",)] = (o, ("list",), _B.list(o.step))
            else:
                out[path + ("[]",)] = (o, ("list",), _B.list(o.segs()) if o.sym is not None else list.copy(o))
                for sg in o.segs():
                    if not sg.symbolic:
                        for i, x in enumerate(sg.items[:8]):
                            go(path + ("[%d]" % i,), x, depth + 1)
        elif _isinstance(o, (list, SymList)):
            seen.add(id(o))
            out[path + ("[]",)] = (o, ("list",), _B.list(o) if _isinstance(o, list) else _B.list(o.segs))
            if _isinstance(o, list):
                for i, x in enumerate(o[:8]):
                    go(path + ("[%d]" % i,), x, depth + 1)
        elif _isinstance(o, SByteArray):
            seen.add(id(o))
            out[path + ("bytes",)] = (o, ("bytearray",), mkbytes(o.atoms))
        elif _isinstance(o, dict):
            seen.add(id(o))
            for i, (k, v) in enumerate(_B.list(o.items())):
                if _isinstance(k, (str, int)):
                    out[path + ("{%r}" % k,)] = (o, ("item", k), v)
                    go(path + ("{%r}" % k,), v, depth + 1)
                elif core.is_sym(k):
                    out[path + ("{#%d}" % i,)] = (o, ("item", k), v)
                    go(path + ("{#%d}" % i,), v, depth + 1)
            out[path + ("{keys}",)] = (o, ("keys",), tuple(sorted(str(k) for k in o)))
        elif _is_code_obj(o) and not _isinstance(o, type) and hasattr(o, "__dict__"):
            seen.add(id(o))
            try:
                d = vars(o)
            except TypeError:
                return
            for a, v in _B.list(d.items()):
                out[path + ("." + a,)] = (o, ("attr", a), v)
                go(path + ("." + a,), v, depth + 1)
        elif _isinstance(o, tuple):
            seen.add(id(o))
            for i, x in enumerate(o[:8]):
                go(path + ("(%d)" % i,), x, depth + 1)
    for n, o in roots.items():
        go((n,), o, 0)
    return out


def same(a, b):
    if a is b:
        return True
    if _isinstance(a, list) and _isinstance(b, list):
        return _B.len(a) == _B.len(b) and all(x is y for x, y in _B.zip(a, b))
    if _isinstance(a, tuple) and _isinstance(b, tuple):
        return _B.len(a) == _B.len(b) and all(same(x, y) for x, y in _B.zip(a, b))
    if _isinstance(a, (int, SInt)) and _isinstance(b, (int, SInt)) and type(a) is not bool and type(b) is not bool:
        return z3.is_true(z3.simplify(toint(a) == toint(b)))
    if _isinstance(a, (bytes, str)) and type(a) is type(b):
        return a == b
    if _isinstance(a, SBytes) and _isinstance(b, SBytes):
        return _B.len(a.atoms) == _B.len(b.atoms) and all(x is y for x, y in _B.zip(a.atoms, b.atoms))
    return False


def write(loc, v):
    o, key, _ = loc
    if key[0] == "attr":
        setattr(o, key[1], v)
    elif key[0] == "item":
        o[key[1]] = v
    elif key[0] == "bytearray":
        o.atoms = rope.norm(atoms_of(v))
    elif key[0] == "list":
        raise Unsupported("list location")


class ListTail(object):
    """Summary of a list that grows by one fixed group of elements per iteration."""

    def __init__(self, per, elem):
        self.per, self.elem = per, elem


class LoopHook(object):
    def __init__(self, seg, name, vars_):
        self.seg, self.name, self.vars = seg, name, vars_

    # The phases of a symbolic segment:
    #   P  peel: the first iteration, from the entry state (only to guess the invariant)
    #   S  step: iteration k, from the guessed invariant at k; the invariant at k+1 is proved
    #   E  exit: continue after the loop from the invariant at k = count
    def enter(self, vals):
        self.frame = sys._getframe(1)
        if not self.seg.symbolic:
            return vals
        c = ctx()
        c.loop_stack = getattr(c, "loop_stack", [])
        self.vals0 = dict(_B.zip(self.vars, vals))
        roots = {n: v for n, v in self.frame.f_locals.items() if not n.startswith("_vc") and n not in self.vars}
        roots.update({n: v for n, v in self.vals0.items() if v is not UNDEF})
        for i, t in enumerate(getattr(c, "tracked", [])):
            roots["$%d" % i] = t
        self.heap0 = heap(roots)
        self.roots = roots
        key = (self.name, tuple(c.decisions))
        self.info = c.loops.setdefault(key, {})
        n = self.seg.count
        if core._isinstance(_conc(n), SInt):
            if bool(n <= 0):
                self.phase = "0"
                return vals
        self.phase = c.choose(["P", "S", "E"])
        if self.phase == "P":
            self.k = 0
            return vals
        if self.phase == "S":
            if "vars" not in self.info:
                c._die()
            k = c.fresh_int("k", 0)
            c.add(k.e < toint(n))
            self.k = k
            li = getattr(c, "loop_index", [])
            c.loop_index = li + [k]
            self.opaque = {}
            return self._instantiate(k, step=True)
        # exit
        if "vars" not in self.info or "step" not in self.info:
            raise Unsupported("no invariant inferred for %s (%s)" % (self.name, self.info.get("why", "")))
        self.k = n
        return self._instantiate(n, step=False)

    def _instantiate(self, k, step):
        c = ctx()
        out = []
        for v in self.vars:
            kind = self.info["vars"][v]
            out.append(self._inst(("var", v), kind, self.vals0[v], k, step))
        for path, kind in self.info["heap"].items():
            if path not in self.heap0:
                raise Unsupported("loop state %r not found again" % (path,))
            loc = self.heap0[path]
            if kind[0] == "list":
                o = loc[0]
                if not _isinstance(o, TList):
                    raise Unsupported("plain list appended in a symbolic loop")
                if step:
                    o.begin_step()      # contents at iteration k are not known: only appending is possible
                else:
                    per = self.info["step"].get(path)
                    if per is None:
                        raise Unsupported("list summary missing")
                    o.add_segment(SymSeg(self.seg.count, per))
                continue
            if kind[0] == "same":
                continue
            write(loc, self._inst(path, kind, loc[2], k, step))
        return tuple(out)

    def _inst(self, path, kind, v0, k, step):
        c = ctx()
        if kind[0] == "same":
            return v0
        if kind[0] == "linear":
            return v0 + k * kind[1]
        if kind[0] == "temp":
            return Poison(str(path))
        if kind[0] == "acc":      # bytes accumulator
            if step:
                b = rope.Base(c.name_fresh("acc"), c.fresh_int("acclen", 0))
                c.add(z3.BoolVal(True))
                self.opaque[path] = b
                return SBytes([rope.Op(b, 0, b.length)])
            elem = self.info["step"].get(path)
            if elem is None:
                raise Unsupported("accumulator summary missing")
            return mkbytes(atoms_of(v0) + [Rep(self.seg.count, lambda kk: rope.norm(atoms_of(elem(kk))))])
        if kind[0] == "sum":      # integer accumulator with varying increments
            if step:
                f = z3.Function("sum:%s:%s" % (self.name, path), z3.IntSort(), z3.IntSort())
                a = mkint(toint(v0) + f(toint(k)))
                self.opaque[path] = a
                return a
            d = self.info["step"].get(path)
            if d is None:
                raise Unsupported("sum summary missing")
            f = z3.Function("sum:%s:%s" % (self.name, path), z3.IntSort(), z3.IntSort())
            return v0 + seq.prefix_sum(d, self.seg.count, f)
        raise Unsupported("loop state kind %r" % (kind,))

    def items(self):
        if not self.seg.symbolic:
            for x in self.seg.items:
                yield x
            return
        if self.phase in ("0", "E"):
            return
        yield self.seg.elem(self.k)

    def leave(self, vals):
        if not self.seg.symbolic or self.phase == "0":
            return
        c = ctx()
        vals = dict(_B.zip(self.vars, vals))
        if self.phase == "E":
            if "loop_index" in c.__dict__:
                pass
            return
        roots = dict(self.roots)
        heap1 = heap(roots)
        if self.phase == "P":
            kinds = {}
            for v in self.vars:
                kinds[v] = self._guess(self.vals0[v], vals[v])
            hk = {}
            for path, (o, key, v1) in heap1.items():
                root = path[0]
                if path not in self.heap0:
                    hk_parent = True
                    continue
                v0 = self.heap0[path][2]
                if same(v0, v1):
                    continue
                if key[0] == "keys":
                    raise Unsupported("dict keys changed in a symbolic loop")
                hk[path] = ("list",) if key[0] == "list" else self._guess(v0, v1)
            prev = self.info.get("vars")
            if prev is None:
                self.info["vars"], self.info["heap"] = kinds, hk
            else:   # several paths through the body: weaken disagreements
                for v in self.vars:
                    self.info["vars"][v] = self._join(prev[v], kinds[v])
                for p in set(self.info["heap"]) | set(hk):
                    self.info["heap"][p] = self._join(self.info["heap"].get(p, ("same",)), hk.get(p, ("same",)))
            c._die()
        # phase S: the invariant holds again at k+1
        step = self.info.setdefault("step", {})
        self._count = getattr(self, "_count", 0)
        for v in self.vars:
            self._check(("var", v), self.info["vars"][v], self.vals0[v], vals[v], step)
        for path, (o, key, v1) in heap1.items():
            if path not in self.heap0:
                continue
            v0 = self.heap0[path][2]
            kind = self.info["heap"].get(path, ("same",))
            if kind[0] == "same":
                if not same(v0, v1):
                    if key[0] == "list" or not _isinstance(v1, (int, SInt, bytes, SBytes)):
                        raise Unsupported("loop changes %r unexpectedly" % (path,))
                    raise Unsupported("loop changes %r unexpectedly" % (path,))
                continue
            if kind[0] == "list":
                if o.step is None or _B.len(o.step) != 1:
                    raise Unsupported("list changes other than one append in a symbolic loop")
                self._record(step, path, _abstract(o.step[0], self.k), o.step[0])
                continue
            self._check(path, kind, v0, v1, step)
        c.obligations.append(core.Obligation("loop-invariant-preserved " + self.name, "discharged",
                                             backend="z3", function=c.name, kind="loop"))
        self.info["step"] = step
        c._die()

    def _record(self, step, path, f, value=None):
        if path in step:
            # another path through the body: it must produce the same value as the recorded summary
            if value is None or not equiv(step[path](self.k), value):
                if _os.environ.get("PYVC_TRACE"):
                    print("summaries", path, step[path](self.k), value)
                raise Unsupported("several different summaries for one loop body")
            return
        step[path] = f

    def _check(self, path, kind, v0, v1, step):
        c = ctx()
        if kind[0] == "same":
            if not same(v0, v1):
                if _isinstance(v0, (int, SInt)) and _isinstance(v1, (int, SInt)) and c.valid(toint(v0) == toint(v1)):
                    return
                raise Unsupported("loop variable %r changes unexpectedly" % (path,))
        elif kind[0] == "linear":
            want = v0 + (self.k + 1) * kind[1]
            if not c.valid(toint(v1) == toint(want)):
                raise Unsupported("loop variable %r is not linear" % (path,))
        elif kind[0] == "temp":
            return
        elif kind[0] == "acc":
            a = rope.norm(atoms_of(v1))
            b = self.opaque[path]
            if not (a and _isinstance(a[0], rope.Op) and a[0].base is b and a[0].whole()):
                raise Unsupported("accumulator %r is not only appended to" % (path,))
            if any(_isinstance(t, rope.Op) and t.base is b for t in a[1:]):
                raise Unsupported("accumulator used in its own increment")
            self._record(step, path, (lambda f: lambda kk: mkbytes(f(kk)))(_abstract_atoms(a[1:], self.k)),
                         mkbytes(a[1:]))
        elif kind[0] == "sum":
            a = self.opaque[path]
            d = z3.simplify(toint(v1) - a.e)
            if _mentions_fn(d, "sum:%s:%s" % (self.name, path)):
                raise Unsupported("non additive accumulator")
            self._record(step, path, _abstract_int(d, self.k, v1), mkint(d))
        else:
            raise Unsupported("loop state %r" % (kind,))

    def _guess(self, v0, v1):
        if v0 is UNDEF:
            return ("temp",)
        if same(v0, v1):
            return ("same",)
        if _isinstance(v0, (bool, SBool)) or _isinstance(v1, (bool, SBool)):
            return ("temp",)
        if _isinstance(v0, (int, SInt)) and _isinstance(v1, (int, SInt)):
            d = _conc(v1 - v0)
            if _isinstance(d, int):
                return ("linear", d)
            return ("sum",)
        if _isinstance(v0, (bytes, SBytes, SByteArray)) and _isinstance(v1, (bytes, SBytes, SByteArray)):
            return ("acc",)
        return ("temp",)

    def _join(self, a, b):
        if a == b:
            return a
        if "temp" in (a[0], b[0]):
            return ("temp",)
        if set((a[0], b[0])) <= {"linear", "sum", "same"}:
            return ("sum",)
        if set((a[0], b[0])) <= {"acc", "same"}:
            return ("acc",)
        return ("temp",)


def equiv(a, b):
    """Are two values of the code under contract provably equal here?"""
    if a is b:
        return True
    if _isinstance(a, (SBytes, SByteArray, bytes)) and _isinstance(b, (SBytes, SByteArray, bytes)):
        try:
            return ctx().valid(rope.eq_formula(a, b))
        except rope.LengthMismatch:
            return False
    if _isinstance(a, dict) and _isinstance(b, dict):
        return set(a) == set(b) and all(equiv(a[k], b[k]) for k in a)
    if _isinstance(a, tuple) and _isinstance(b, tuple):
        return _B.len(a) == _B.len(b) and all(equiv(x, y) for x, y in _B.zip(a, b))
    if type(a) is type(b) and _is_code_obj(a) and hasattr(a, "__dict__"):
        return equiv(vars(a), vars(b))
    try:
        r = (a == b)
    except Unsupported:
        return False
    return ctx().valid(tobool(r))


def _mentions_fn(e, name):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name:
            return True
        todo += x.children()
    return False


def _mentions(e, v):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo += x.children()
    return False


def subst_term(e, k, kk):
    r = z3.substitute(e, (k.e, toint(kk)))
    add_family_facts(r)
    return r


def family_fact(decl_term, fact):
    """fact(index) holds for every member of the family of inputs f, where decl_term is an application f(index)."""
    e = decl_term.e if hasattr(decl_term, "e") else decl_term
    if z3.is_app(e) and e.num_args() == 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        idx = e.arg(0)
        if not (z3.is_const(idx) and idx.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return
        fs = ctx().uf_facts.setdefault(e.decl().name(), [])
        if _B.len(fs) < 2:      # the bounds of the family, and this
            fs.append(lambda i: z3.substitute(fact, (idx, i)))


def add_family_facts(r):
    c = ctx()
    if not c.uf_facts:
        return
    todo, seen = [r], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 1 and x.decl().name() in c.uf_facts:
                key = x.sexpr()
                if key not in c.uf_done:
                    c.uf_done.add(key)
                    for f in c.uf_facts[x.decl().name()]:
                        c.add(f(x.arg(0)))
            todo += x.children()


def _abstract_int(d, k, like=None):
    def f(kk):
        return mkint(subst_term(d, k, kk), 0 if z3.is_app(d) and False else None)
    return f


def _abstract(v, k):
    """A value produced at symbolic iteration k as a function of the iteration."""
    if _isinstance(v, (SInt,)):
        return lambda kk: mkint(subst_term(v.e, k, kk), v.lo, v.hi)
    if _isinstance(v, SBool):
        return lambda kk: mkbool(subst_term(v.e, k, kk))
    if _isinstance(v, dict):
        fs = {a: _abstract(b, k) for a, b in v.items()}
        return lambda kk: {a: g(kk) for a, g in fs.items()}
    if _isinstance(v, tuple):
        fs = [_abstract(b, k) for b in v]
        return lambda kk: tuple(g(kk) for g in fs)
    if _isinstance(v, (SBytes,)):
        g = _abstract_atoms(v.atoms, k)
        return lambda kk: mkbytes(g(kk))
    h = getattr(v, "__vc_at__", None)
    if h is not None:
        return lambda kk: h(k, kk)
    if _isinstance(v, SStr):
        def at(kk):
            out = []
            for p in v.parts:
                if _isinstance(p, rope.TextBase) and hasattr(p, "index"):
                    out.append(p.family(_subst_index(p.index, k, kk)))
                elif _isinstance(p, tuple):
                    out.append((p[0], p[1], _at(p[2], k, kk)))
                else:
                    out.append(p)
            return SStr.mk(out)
        return at
    if v is None or _isinstance(v, (int, str, bytes, bool, type, float)):
        return lambda kk: v
    if _isinstance(v, SByteArray):
        g = _abstract_atoms(v.atoms, k)
        return lambda kk: SByteArray(g(kk))
    if _isinstance(v, (TList, TDict)):
        if getattr(v, "sym", None) is not None or getattr(v, "step", None) is not None:
            raise Unsupported("cannot generalise a list of symbolic length over loop iterations")
        if _isinstance(v, TList):
            fs = [_abstract(b, k) for b in list.__iter__(v)]
            return lambda kk: TList([g(kk) for g in fs])
    if _isinstance(v, z3.ExprRef):
        return lambda kk: subst_term(v, k, kk)
    if type(v).__module__ == "pyvc.models" and getattr(type(v), "__sym__", False) and hasattr(v, "__dict__"):
        fs = {a: _abstract(b, k) for a, b in vars(v).items()}

        def mkmodel(kk):
            o = object.__new__(type(v))
            for a, g in fs.items():
                object.__setattr__(o, a, g(kk))
            return o
        return mkmodel
    if _is_concrete_value(v):
        return lambda kk: v
    if _is_code_obj(v) and hasattr(v, "__dict__"):
        fs = {a: _abstract(b, k) for a, b in vars(v).items()}

        def mk(kk):
            o = object.__new__(type(v))
            for a, g in fs.items():
                object.__setattr__(o, a, g(kk))
            return o
        return mk
    raise Unsupported("cannot generalise %r over loop iterations" % (type(v),))


def _is_concrete_value(v):
    import enum
    return _isinstance(v, enum.Enum) or type(v).__module__.startswith(("mediatimestamp", "datetime", "fractions", "uuid")) and not callable(v)


def _subst_index(i, k, kk):
    return mkint(subst_term(toint(i), k, kk), 0)


def _at(x, k, kk):
    if _isinstance(x, SInt):
        return mkint(subst_term(x.e, k, kk), x.lo, x.hi)
    return x


def _abstract_atoms(atoms, k):
    def f(kk):
        out = []
        for a in atoms:
            if _isinstance(a, Conc):
                out.append(a)
            elif _isinstance(a, Num):
                out.append(Num(_at(a.v, k, kk), a.n, a.big))
            elif _isinstance(a, Fill):
                out.append(Fill(_at(a.b, k, kk), _at(a.n, k, kk)))
            elif _isinstance(a, rope.Op):
                b = a.base
                fam = getattr(b, "family", None)
                if fam is not None:
                    b = fam(_subst_index(b.index, k, kk))
                elif b.text is not None and hasattr(b.text, "index"):
                    b = b.text.family(_subst_index(b.text.index, k, kk)).enc
                out.append(rope.Op(b, _at(a.start, k, kk), _at(a.n, k, kk)))
            else:
                raise Unsupported("cannot generalise %r" % (a,))
        return out
    return f


class TList(list):
    """A list display of the code under contract; it may grow by a symbolic number of elements.

    sym    None, or the SymList holding the contents (the native part is then unused)
    step   None, or the elements appended in the generic iteration of a summarised loop
    """
    __slots__ = ("sym", "step")

    def __init__(self, *a):
        list.__init__(self, *a)
        self.sym = None
        self.step = None

    def begin_step(self):
        self.step = []

    def add_segment(self, seg):
        if self.sym is None:
            self.sym = SymList([ConcSeg(list.copy(self))] if list.__len__(self) else [])
        self.sym.segs.append(seg)

    def _read(self):
        if self.step is not None:
            raise Unsupported("list read inside the loop that builds it")

    def __symlen__(self):
        self._read()
        return self.sym.__symlen__() if self.sym is not None else list.__len__(self)

    def __sym_iter__(self):
        self._read()
        return self.sym if self.sym is not None else self

    def append(self, x):
        if self.step is not None:
            self.step.append(x)
        elif self.sym is not None:
            self.sym.append(x)
        else:
            list.append(self, x)

    def segs(self):
        return self.sym.segs if self.sym is not None else [ConcSeg(list.copy(self))]


def _tlist_method(name):
    base = getattr(list, name)

    def f(self, *a, **k):
        self._read()
        if self.sym is not None:
            m = getattr(type(self.sym), name, None)
            if m is None:
                raise Unsupported("list.%s on a symbolic list" % name)
            return m(self.sym, *a, **k)
        if any(_isinstance(x, SymList) or getattr(x, "sym", None) is not None for x in a) and name in (
                "extend", "__iadd__", "__add__"):
            if name == "__add__":
                r = TList(self)
                r.__iadd__(*a)
                return r
            for sg in SymList.segs_of(a[0].sym if _isinstance(a[0], TList) else a[0]):
                self.add_segment(sg)
            return self if name == "__iadd__" else None
        r = base(self, *a, **k)
        return TList(r) if name in ("__add__", "copy") and type(r) is list else r
    f.__name__ = name
    return f


for _n in ("__len__", "__iter__", "__getitem__", "__setitem__", "__delitem__", "__add__", "__iadd__", "__eq__", "__ne__",
           "__contains__", "extend", "insert", "pop", "remove", "copy", "index", "count", "reverse", "sort", "clear",
           "__mul__", "__reversed__"):
    setattr(TList, _n, _tlist_method(_n))
TList.__hash__ = None
TList.__bool__ = lambda self: _B.bool(self.__symlen__() != 0)


def vc_list(x):
    return TList(x)


class SymKey(object):
    """Stands for a symbolic key inside a TDict (hashed by identity, compared by TDict)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def _keyval(k):
    return k.v if type(k) is SymKey else k


def _symbolic_key(k):
    if _isinstance(k, SInt):
        return _isinstance(_conc(k), SInt)
    if _isinstance(k, tuple):
        return any(_symbolic_key(x) for x in k)
    return core.is_sym(k) or hasattr(type(k), "__sym_int__") or getattr(type(k), "__vc_symkey__", False)


def _key_eq(a, b):
    if a is b:
        return True
    if _isinstance(a, tuple) and _isinstance(b, tuple):
        return _B.len(a) == _B.len(b) and all(_key_eq(x, y) for x, y in _B.zip(a, b))
    return _B.bool(a == b)


_MISSING = object()


class TDict(dict):
    """A dict display of the code under contract; keys may be symbolic (compared, never hashed)."""
    __slots__ = ("nsym",)

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.nsym = 0
        self.update(*a, **k)

    def _find(self, k):
        """The stored key equal to k, or _MISSING."""
        if not _symbolic_key(k):
            if _isinstance(k, SInt):
                k = _conc(k)
            if dict.__contains__(self, k):
                return k
            if self.nsym:
                for s in _B.list(dict.__iter__(self)):
                    if type(s) is SymKey and _key_eq(s.v, k):
                        return s
            return _MISSING
        for s in _B.list(dict.__iter__(self)):
            if _key_eq(_keyval(s), k):
                return s
        return _MISSING

    def __getitem__(self, k):
        s = self._find(k)
        if s is _MISSING:
            raise KeyError("<sym>" if _symbolic_key(k) else k)
        return dict.__getitem__(self, s)

    def __setitem__(self, k, v):
        s = self._find(k)
        if s is _MISSING:
            if _symbolic_key(k):
                s = SymKey(k)
                self.nsym += 1
            else:
                s = _conc(k) if _isinstance(k, SInt) else k
        dict.__setitem__(self, s, v)

    def __delitem__(self, k):
        s = self._find(k)
        if s is _MISSING:
            raise KeyError("<sym>" if _symbolic_key(k) else k)
        if type(s) is SymKey:
            self.nsym -= 1
        dict.__delitem__(self, s)

    def __contains__(self, k):
        return self._find(k) is not _MISSING

    def get(self, k, d=None):
        s = self._find(k)
        return d if s is _MISSING else dict.__getitem__(self, s)

    def setdefault(self, k, d=None):
        s = self._find(k)
        if s is _MISSING:
            self[k] = d
            return d
        return dict.__getitem__(self, s)

    def pop(self, k, *d):
        s = self._find(k)
        if s is _MISSING:
            if d:
                return d[0]
            raise KeyError("<sym>" if _symbolic_key(k) else k)
        v = dict.__getitem__(self, s)
        del self[k]
        return v

    def update(self, *a, **k):
        if a:
            src = a[0]
            for x in (src.keys() if hasattr(src, "keys") else src):
                if hasattr(src, "keys"):
                    self[x] = src[x]
                else:
                    self[x[0]] = x[1]
        for n, v in k.items():
            self[n] = v

    def __iter__(self):
        if not self.nsym:
            return dict.__iter__(self)
        return _B.iter([_keyval(s) for s in dict.__iter__(self)])

    def keys(self):
        if not self.nsym:
            return dict.keys(self)
        return [_keyval(s) for s in dict.__iter__(self)]

    def items(self):
        if not self.nsym:
            return dict.items(self)
        return [(_keyval(s), v) for s, v in dict.items(self)]

    def copy(self):
        return TDict(self)

    def clear(self):
        self.nsym = 0
        dict.clear(self)

    def __eq__(self, o):
        if not self.nsym and not getattr(o, "nsym", 0):
            return dict.__eq__(self, o)
        if not _isinstance(o, dict) or _B.len(o) != _B.len(self):
            return False
        for k, v in self.items():
            if k not in (o if _isinstance(o, TDict) else TDict(o)):
                return False
            if not _B.bool((o if _isinstance(o, TDict) else TDict(o))[k] == v):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    def __deepcopy__(self, memo):
        import copy
        r = TDict()
        memo[id(self)] = r
        for k, v in self.items():
            r[k] = copy.deepcopy(v, memo)
        return r

    def __copy__(self):
        return TDict(self)

    def __reduce_ex__(self, p):
        raise Unsupported("pickle of a dict")


TDict.__hash__ = None


def vc_dict(items):
    r = TDict()
    for k, v in items:
        r[k] = v
    return r


def vc_loop(seg, name, vars_):
    return LoopHook(seg, name, vars_)


class WhileHook(object):
    def __init__(self, name, vars_):
        self.name, self.vars = name, vars_
        self.policy = None
        c = core.CTX
        if c is not None:
            pol = getattr(c, "while_policies", {})
            for k, f in pol.items():
                if k in name:
                    self.policy = f(self)
                    break
        self.n = 0

    def head(self, vals):
        self.n += 1
        if self.policy is not None:
            return self.policy.head(vals, sys._getframe(1))
        if core.CTX is not None and self.n > getattr(core.CTX, "max_unroll", 4000):
            raise Unsupported("while loop %s not bounded" % self.name)
        if any(v is UNDEF for v in vals):
            return tuple(Poison(n) if v is UNDEF else v for n, v in _B.zip(self.vars, vals))
        return vals


class Filtered(object):
    """A generator with a filter over a symbolic list: only its first item can be asked for, which is
    over-approximated by any item that passes the filter."""
    __sym__ = True

    def __init__(self, it, elt, cond, star):
        self.it, self.elt, self.cond, self.star = it, elt, cond, star
        self.started = False

    def call(self, f, x):
        return f(*x) if self.star else f(x)

    def first(self):
        """(found, item)"""
        if self.started:
            raise Unsupported("second item of a filtered symbolic list")
        self.started = True
        segs = segments(self.it)
        if _B.len(segs) != 1 or not segs[0].symbolic:
            raise Unsupported("filter over a mixed list")
        s = segs[0]
        if bool(ctx().boolean("found", False)):
            k = ctx().fresh_int("first")
            ctx().assume(core.mkbool(z3.And(k.e >= 0, k.e < toint(s.count))))
            x = s.elem(SInt(k.e, 0, None))
            if not self.call(self.cond, x):
                ctx().assume(False)
            return True, self.call(self.elt, x)
        w = getattr(self.it, "witness", None)
        w = w() if w is not None else None
        if w is not None and bool(core.mkbool(z3.And(w.e >= 0, w.e < toint(s.count)))):
            if self.call(self.cond, s.elem(w)):
                ctx().assume(False)
        return False, None

    def __iter__(self):
        raise Unsupported("iteration over a filtered symbolic list")


def sym_next(x, *default):
    if _isinstance(x, Filtered):
        found, v = x.first()
        if found:
            return v
        if default:
            return default[0]
        raise StopIteration
    if _isinstance(x, seq.SymIter):
        return x.next(*default)
    return _B.next(x, *default)


def vc_comp(kind, it, elt, cond, star):
    it = sym_iter(it)
    if issym_iter(it):
        if cond is not None:
            if kind == "gen":
                return Filtered(it, elt, cond, star)
            raise Unsupported("filtered comprehension over a symbolic list")
        out = []
        for s in segments(it):
            if s.symbolic:
                out.append(SymSeg(s.count, (lambda s: (lambda k: elt(*s.elem(k)) if star else elt(s.elem(k))))(s)))
            else:
                out.append(ConcSeg([elt(*x) if star else elt(x) for x in s.items]))
        r = SymList(out)
        if hasattr(it, "source"):
            r.source = it.source
        return r
    if star:
        if cond is None:
            g = (elt(*x) for x in it)
        else:
            g = (elt(*x) for x in it if cond(*x))
    else:
        if cond is None:
            g = (elt(x) for x in it)
        else:
            g = (elt(x) for x in it if cond(x))
    return _B.list(g) if kind == "list" else g


def vc_in(x, c):
    if _isinstance(c, (list, tuple, set, frozenset)) and _isinstance(x, (SInt, SStr)) or (
            hasattr(x, "__sym_int__") and _isinstance(c, (list, tuple, set, frozenset))):
        r = False
        fs = []
        for y in c:
            e = (x == y)
            if e is True:
                return True
            if _isinstance(e, SBool):
                fs.append(e.e)
        return mkbool(z3.Or(fs)) if fs else False
    if _isinstance(c, TDict):
        return x in c
    if _isinstance(c, dict) and (_isinstance(x, (SInt, SStr)) or hasattr(x, "__sym_int__")):
        return vc_in(x, _B.list(c.keys()))
    if _isinstance(c, (list, tuple, dict, set)) and not core.is_sym(x):
        if _isinstance(c, (list, tuple)) and any(core.is_sym(y) for y in c):
            fs = []
            for y in c:
                e = (y == x)
                if e is True:
                    return True
                if _isinstance(e, SBool):
                    fs.append(e.e)
            return mkbool(z3.Or(fs)) if fs else False
        return x in c
    if _isinstance(c, (SBytes, SByteArray)):
        return c.__contains__(x)
    h = getattr(type(c), "__vc_contains__", None)
    if h is not None:
        return h(c, x)
    return x in c


def vc_not(x):
    return notb(x) if _isinstance(x, SBool) else not x


def vc_getitem(o, i):
    if _isinstance(i, slice):
        if any(_isinstance(_conc(x), SInt) for x in (i.start, i.stop, i.step)):
            if _isinstance(o, (bytes, bytearray)):
                r = SByteArray([Conc(bytes(o))])[i]
                return mkbytes(r.atoms)
            if _isinstance(o, (list, tuple)):
                n = _B.len(o)
                a, b = rope.norm_slice(i, n)
                return o[rope.small(a, n):rope.small(b, n)]
        elif any(_isinstance(x, SInt) for x in (i.start, i.stop, i.step)):
            i = slice(_conc(i.start), _conc(i.stop), _conc(i.step))
        return o[i]
    if _isinstance(i, SInt):
        i = _conc(i)
    if _isinstance(i, SInt) and _isinstance(o, (list, tuple, bytes, bytearray, str)) and \
            getattr(o, "sym", None) is None:
        n = _B.len(o)
        if bool(i >= n) or bool(i < -n):
            raise IndexError("index out of range")
        if bool(i < 0):
            i = i + n
        i = ctx().only(i)
        if not _isinstance(i, SInt):
            return o[i]
        if n and all(type(x) is int for x in o):
            e = z3.IntVal(o[n - 1])
            for k in range(n - 2, -1, -1):
                e = z3.If(i.e == k, z3.IntVal(o[k]), e)
            return SInt(e, min(o), max(o))
        return o[rope.small(i, n - 1)]
    if _isinstance(o, TDict):
        return o[i]
    if _isinstance(o, dict) and (_isinstance(i, SInt) or hasattr(i, "__sym_int__")):
        for k in o:
            if bool(i == k):
                return o[k]
        raise KeyError("<sym>")
    return o[i]


def vc_join(o, x):
    if _isinstance(o, (bytes, SBytes)):
        x = sym_iter(x)
        if issym_iter(x):
            if o != b"":
                raise Unsupported("join of symbolic list with separator")
            out = []
            for s in segments(x):
                if s.symbolic:
                    out.append(Rep(s.count, (lambda s: lambda k: rope.norm(atoms_of(s.elem(k))))(s)))
                else:
                    for y in s.items:
                        out += atoms_of(y)
            return mkbytes(out)
        items = _B.list(x)
        if any(_isinstance(y, (SBytes, SByteArray)) for y in items):
            out = []
            for j, y in enumerate(items):
                if j:
                    out += atoms_of(o)
                out += atoms_of(y)
            return mkbytes(out)
        return o.join(items)
    if _isinstance(o, str):
        items = _B.list(x) if not _isinstance(x, str) else x
        if any(core.is_sym(y) for y in items):
            if all(_isinstance(y, (str, SStr)) for y in items):
                parts = []
                for j, y in enumerate(items):
                    if j:
                        parts.append(o)
                    parts += y.parts if _isinstance(y, SStr) else [y]
                return SStr.mk(parts)
            return "<sym>"
        return o.join(items)
    return o.join(x)


def vc_ifexp(c, a, b):
    if _isinstance(c, SInt):
        c = c != 0
    if _isinstance(c, SBool):
        x, y = vc_try(a), vc_try(b)
        if x is not UNDEF and y is not UNDEF:
            m = core.ite(c, x, y)
            if m is not None:
                return m
    return a() if c else b()


_OPS = {"__eq__": operator.eq, "__ne__": operator.ne, "__lt__": operator.lt, "__le__": operator.le, "__gt__": operator.gt,
        "__ge__": operator.ge, "__add__": operator.add, "__sub__": operator.sub, "__mul__": operator.mul,
        "__floordiv__": operator.floordiv, "__mod__": operator.mod}


def vc_dunder(name, o, a):
    """o.__eq__(a) written out: the operator, where symbolic values are concerned."""
    if not _isinstance(o, type) and (core.is_sym(o) or core.is_sym(a)):
        return _OPS[name](o, a)
    return getattr(o, name)(a)


def vc_flat(x, shape):
    """The values a nested target takes from x, in order."""
    if shape == 1:
        return [x]
    x = _B.tuple(x)
    if _B.len(x) != _B.len(shape):
        raise ValueError("not enough values to unpack" if _B.len(x) < _B.len(shape) else "too many values to unpack")
    return [v for y, s in _B.zip(x, shape) for v in vc_flat(y, s)]


def vc_truth(x):
    """The result of a __bool__ method."""
    return bool(x) if _isinstance(x, SBool) else x


HOOKS = dict(_vc_flat=vc_flat, _vc_truth=vc_truth, _vc_dunder=vc_dunder, _vc_iter=sym_iter, _vc_issym=issym_iter, _vc_segments=segments, _vc_loop=vc_loop, _vc_while=WhileHook,
             _vc_try=vc_try, _vc_comp=vc_comp, _vc_in=vc_in, _vc_not=vc_not, _vc_getitem=vc_getitem, _vc_slice=slice,
             _vc_join=vc_join, _vc_ifexp=vc_ifexp, _vc_list=vc_list, _vc_dict=vc_dict)
