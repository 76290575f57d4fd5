"""Symbolic core: path exploration, symbolic booleans and integers, obligations."""
import builtins
import gc
import subprocess
import tempfile
import time
import os
import z3

SLOW = float(os.environ.get("PYVC_SLOW", 0))

_int = builtins.int
_isinstance = builtins.isinstance


class PathEnd(BaseException):
    """The current path is finished (infeasible assumption, loop body done ...)."""


class Unsupported(BaseException):
    """The engine cannot represent an operation: the obligation is undecided."""


class Obligation(object):
    __slots__ = ("name", "status", "model", "detail", "time", "backend", "function", "inputs", "kind")

    def __init__(self, name, status, model=None, detail="", t=0.0, backend="z3", function="", inputs=None, kind="vc"):
        self.name, self.status, self.model, self.detail = name, status, model, detail
        self.time, self.backend, self.function, self.inputs, self.kind = t, backend, function, inputs, kind

    def as_dict(self):
        return {"name": self.name, "function": self.function, "status": self.status, "kind": self.kind,
                "backend": self.backend, "time_s": round(self.time, 4), "detail": self.detail[:2000],
                "inputs": self.inputs}


CTX = None  # the running Explorer


def ctx():
    if CTX is None:
        raise Unsupported("symbolic operation outside an exploration")
    return CTX


class Explorer(object):
    """Depth first re-execution of one harness over every feasible path."""

    def __init__(self, name, functions=(), timeout_ms=20000, max_paths=4000, max_time=300.0, second_backend=False):
        self.name = name
        self.functions = list(functions)
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_time = max_time
        self.second_backend = second_backend
        self.obligations = []
        self.undecided = []
        self.paths = 0
        self.completed = 0
        self.solver_time = 0.0
        self.solver_calls = 0
        self.covers = {}
        self.trusted = set()
        self.contracts_used = set()
        self.loops = {}
        self.cvc5_used = 0
        self.small_model = None

    # --- exploration -----------------------------------------------------
    def run(self, fn, concretize=None):
        global CTX
        old = CTX
        CTX = self
        self.concretize = concretize
        self.stack = [()]
        t0 = time.time()
        gc.collect()
        gc.freeze()
        gc.disable()
        try:
            while self.stack:
                if self.paths >= self.max_paths or time.time() - t0 > self.max_time:
                    self.undecided.append("exploration budget exhausted (%d paths)" % self.paths)
                    break
                prefix = self.stack.pop()
                self._begin(prefix)
                try:
                    fn()
                    self.completed += 1
                except PathEnd:
                    pass
                except Unsupported as e:
                    while isinstance(e.__context__, Unsupported):   # the first one is the cause (finally, __exit__)
                        e = e.__context__
                    if isinstance(e.__context__, PathEnd):
                        self.dead = True
                    if os.environ.get("PYVC_TRACE") and not self.dead:
                        import traceback
                        print("-" * 20, self.paths, e)
                        print("".join(traceback.format_tb(e.__traceback__)[-int(os.environ["PYVC_TRACE"]):]))
                    if not self.dead:
                        self.undecided.append("unsupported: %s" % (e,))
                except RecursionError as e:
                    self.undecided.append("recursion: %s" % (e,))
                except Exception as e:  # an exception the contract does not allow
                    if not self.dead:
                        self._uncaught(e)
                self.paths += 1
                # finalise suspended generators of this path now, without symbolic effects
                self.dead = True
                gc.collect()
        finally:
            CTX = old
            gc.enable()
        return self

    def _begin(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.formats = []
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pc = []
        self.fresh_n = 0
        self.inputs = {}
        self.dead = False
        self.dead_steps = 0
        self.symbols = {}
        self.notes = []
        self.tracked = []
        self.uf_facts, self.uf_done = {}, set()
        self.pending_axioms = []
        for a in ("json_texts", "json_limit", "small", "arrays", "bases", "loop_index", "loop_stack", "allow_hash", "while_policies",
                  "decode_hook"):
            self.__dict__.pop(a, None)

    def _uncaught(self, e):
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in tb:
            if "/mediagrains/" in fr.filename:
                where = "%s:%d" % (fr.filename.split("/mediagrains/")[-1], fr.lineno)
        t = time.time()
        r = self._check()
        dt = time.time() - t
        if r == z3.unsat:
            return
        m = self.solver.model() if r == z3.sat else None
        if m is not None and self.small_model is not None:
            m = self.small_model(self, z3.BoolVal(True)) or m
        self.obligations.append(Obligation(
            "no-unexpected-exception", "refuted" if m is not None else "unknown", m,
            "%s: %s at %s" % (type(e).__name__, e, where), dt, "z3", self.name,
            self._conc(m), kind="exception"))

    def _conc(self, m):
        if m is None or self.concretize is None:
            return None
        try:
            return self.concretize(self, m)
        except (Exception, Unsupported) as e:
            return {"concretize_error": repr(e)}

    # --- solver ----------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t
        self.solver_time += dt
        self.solver_calls += 1
        if SLOW and dt > SLOW:
            import traceback
            print("SLOW %.1f %s %s" % (dt, r, str(extra)[:300].replace("\n", " ")), "".join(traceback.format_stack(limit=9)[:-1]))
        return r

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def assume(self, e):
        """Contract assumption (precondition / callee postcondition)."""
        if self.dead:
            return
        e = tobool(e)
        s = z3.simplify(e)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            self._die()
        self.add(e)

    def _die(self):
        self.dead = True
        raise PathEnd()

    def feasible(self):
        return self._check() != z3.unsat

    def branch(self, e):
        if self.dead:       # finally blocks and __exit__ methods running while the finished path unwinds
            self.dead_steps += 1
            if self.dead_steps > 5000:
                raise PathEnd()
            return False
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            if d in (True, False):
                self.add(e if d else z3.Not(e))
                return d
            if d in ("T", "F"):   # forced: other side infeasible
                return d == "T"
            raise Unsupported("non deterministic re-execution")
        rt = self._check(e)
        rf = self._check(z3.Not(e))
        if rt == z3.unsat and rf == z3.unsat:
            self._die()
        if rt == z3.unsat:
            self.decisions.append("F")
            return False
        if rf == z3.unsat:
            self.decisions.append("T")
            return True
        self.stack.append(tuple(self.decisions) + (False,))
        self.decisions.append(True)
        self.add(e)
        return True

    def choose(self, options, first_last=False):
        """Non deterministic choice; options explored in the given order."""
        if self.dead:
            return options[0]
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            return d[1]
        for o in reversed(options[1:]):
            self.stack.append(tuple(self.decisions) + (("c", o),))
        self.decisions.append(("c", options[0]))
        return options[0]

    def only(self, x):
        """The value of x if it has just one in the current state, else x."""
        if self.dead or self._check() != z3.sat:
            return x
        v = self.solver.model().eval(x.e, model_completion=True)
        if z3.is_int_value(v) and self._check(x.e != v) == z3.unsat:
            return v.as_long()
        return x

    def cases(self, x, limit=64):
        """Split the path over the values x can have, if they are few."""
        while True:
            if self.dead:
                return 0
            i = len(self.decisions)
            if i < len(self.prefix):
                d = self.prefix[i]
                if type(d) is not tuple or d[0] != "=":
                    raise Unsupported("non deterministic re-execution")
            else:
                seen = []
                self.solver.push()
                try:
                    while self._check() == z3.sat:
                        v = self.solver.model().eval(x.e, model_completion=True)
                        if not z3.is_int_value(v) or len(seen) >= limit:
                            seen = None
                            break
                        seen.append(v.as_long())
                        self.solver.add(x.e != v)
                    else:
                        if self._check() != z3.unsat:
                            seen = None
                finally:
                    self.solver.pop()
                if seen is None:
                    raise Unsupported("symbolic int with more than %d values used as a key" % limit)
                if not seen:
                    self._die()
                d = ("=", min(seen), True)
                if len(seen) > 1:
                    self.stack.append(tuple(self.decisions) + (("=", d[1], False),))
            self.decisions.append(d)
            self.add(x.e == d[1] if d[2] else x.e != d[1])
            if d[2]:
                return d[1]

    def valid(self, e):
        """Is e implied by the path condition (engine internal query)?"""
        if self.dead:
            return True
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self._check(z3.Not(e)) == z3.unsat

    def prove(self, e, name, detail=""):
        """An obligation: e must follow from the path condition."""
        if self.dead:
            return True
        e = tobool(e)
        t = time.time()
        backend = "z3"
        s = z3.simplify(e)
        model = None
        if z3.is_true(s):
            status = "discharged"
            backend = "z3-simplify"
        else:
            r = self._check(z3.Not(e))
            if r == z3.unsat:
                status = "discharged"
            elif r == z3.sat:
                status = "refuted"
                model = self.solver.model()
                if "same_content!" in str(e) or "cut!" in str(e):
                    status = "unknown"
                    detail = detail + " (content equality abstracted)"
                if self.small_model is not None:
                    model = self.small_model(self, z3.Not(e)) or model
            else:
                r2 = self._cvc5(z3.Not(e))
                if r2 == "unsat":
                    status, backend = "discharged", "cvc5"
                else:
                    status = "unknown"
                    detail = detail + " reason: " + self.solver.reason_unknown()
            if self.second_backend and status == "discharged" and backend == "z3":
                r2 = self._cvc5(z3.Not(e))
                if r2 == "unsat":
                    backend = "z3+cvc5"
                elif r2 == "sat":
                    status = "unknown"
                    detail += " z3 and cvc5 disagree"
        dt = time.time() - t
        if status == "refuted":
            detail = detail or str(z3.simplify(e))[:600]
        self.obligations.append(Obligation(name, status, model, detail, dt, backend, self.name,
                                           self._conc(model) if model is not None else None))
        if status != "discharged":
            # continue as if it held, so that one failure does not hide others
            try:
                self.add(e)
                if self._check() == z3.unsat:
                    self._die()
            except PathEnd:
                raise
        return status == "discharged"

    def fail(self, name, detail="", kind="vc"):
        """An obligation refuted on this path (provided the path is feasible)."""
        if self.dead:
            return
        r = self._check()
        if r == z3.unsat:
            return
        m = self.solver.model() if r == z3.sat else None
        if m is not None and self.small_model is not None:
            m = self.small_model(self, z3.BoolVal(True)) or m
        self.obligations.append(Obligation(name, "refuted" if m is not None else "unknown", m, detail, 0.0, "z3",
                                           self.name, self._conc(m), kind))

    def cover(self, name):
        """Vacuity guard: this point must be reachable on some path."""
        if self.dead:
            return
        if self.covers.get(name):
            return
        self.covers[name] = (self._check() == z3.sat)

    def _cvc5(self, e):
        self.cvc5_used += 1
        s = z3.Solver()
        for c in self.pc:
            s.add(c)
        s.add(e)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            out = subprocess.run(["cvc5", "--tlimit=%d" % self.timeout_ms, f.name], capture_output=True, text=True,
                                 timeout=self.timeout_ms / 1000.0 + 10)
            return out.stdout.strip().split("\n")[0] if out.stdout.strip() else "unknown"
        except Exception:
            return "unknown"
        finally:
            try:
                os.unlink(f.name)
            except Exception:
                pass

    # --- fresh values ----------------------------------------------------
    def name_fresh(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)

    def int(self, name, lo=None, hi=None, register=True):
        v = z3.Int(name if register else self.name_fresh(name))
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        r = SInt(v, lo, hi)
        if register:
            self.inputs[name] = r
        return r

    def fresh_int(self, name, lo=None, hi=None):
        return self.int(name, lo, hi, register=False)

    def boolean(self, name, register=True):
        v = z3.Bool(name if register else self.name_fresh(name))
        r = SBool(v)
        if register:
            self.inputs[name] = r
        return r


# ---------------------------------------------------------------------------
def tobool(e):
    if _isinstance(e, SBool):
        return e.e
    if e is True or e is False:
        return z3.BoolVal(e)
    if _isinstance(e, SInt):
        return e.e != 0
    if _isinstance(e, z3.BoolRef):
        return e
    return z3.BoolVal(bool(e))


def toint(x):
    """z3 arithmetic term for a python/symbolic integer."""
    if _isinstance(x, SInt):
        return x.e
    if _isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if _isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if _isinstance(x, _int):
        return z3.IntVal(_int(x))
    if hasattr(x, "__sym_int__"):
        return toint(x.__sym_int__())
    raise TypeError("not an integer: %r" % (type(x),))


def is_sym(x):
    return _isinstance(x, (SInt, SBool)) or hasattr(x, "__sym__")


def mkint(e, lo=None, hi=None):
    if _isinstance(e, z3.ExprRef):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
    return SInt(e, lo, hi)


class SBool(object):
    __slots__ = ("e",)
    __sym__ = True

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __eq__(self, o):
        if _isinstance(o, (SBool, bool)):
            return mkbool(self.e == tobool(o))
        if _isinstance(o, (_int, SInt)):
            return SInt(toint(self), 0, 1) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return notb(r)

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def __and__(self, o):
        if _isinstance(o, (SBool, bool)):
            return mkbool(z3.And(self.e, tobool(o)))
        return SInt(toint(self), 0, 1) & o

    __rand__ = __and__

    def __or__(self, o):
        if _isinstance(o, (SBool, bool)):
            return mkbool(z3.Or(self.e, tobool(o)))
        return SInt(toint(self), 0, 1) | o

    __ror__ = __or__

    def __int__(self):
        raise Unsupported("int() of symbolic bool in C code")

    def __index__(self):
        return 1 if bool(self) else 0

    def _i(self):
        return SInt(toint(self), 0, 1)

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __lshift__(self, o):
        return self._i() << o

    def __repr__(self):
        return "SBool(%s)" % self.e


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def notb(x):
    if _isinstance(x, SBool):
        return mkbool(z3.Not(x.e))
    return not x


def _rng(x):
    if _isinstance(x, SInt):
        return x.lo, x.hi
    if _isinstance(x, SBool):
        return 0, 1
    return _int(x), _int(x)


def _isint(x):
    return _isinstance(x, (_int, SInt, SBool)) or hasattr(x, "__sym_int__")


def _coerce(x):
    if hasattr(x, "__sym_int__"):
        return x.__sym_int__()
    if _isinstance(x, SBool):
        return x._i()
    return x


_byte_fns = {}


def byte_fn(i, n):
    if (i, n) not in _byte_fns:
        _byte_fns[(i, n)] = z3.Function("digit#%d_%d" % (i, n), z3.IntSort(), z3.IntSort())
    return _byte_fns[(i, n)]


def byte_axioms(e, n):
    """Definition of the base 256 digits of e (0 <= e < 256**n)."""
    c = ctx()
    key = ("digits", z3.simplify(e).sexpr(), n)
    if key in c.symbols:
        return
    c.symbols[key] = True
    ds = [byte_fn(i, n)(e) for i in range(n)]
    c.add(z3.And([z3.And(d >= 0, d <= 255) for d in ds] + [e == z3.Sum([d * (256 ** i) for i, d in enumerate(ds)])]))


def byte_of(v, i, n):
    e = z3.simplify(toint(v))
    byte_axioms(e, n)
    return SInt(byte_fn(i, n)(e), 0, 255)


def recompose(e):
    """Replace a complete set of base 256 digits of a number in a sum by the number."""
    e = z3.simplify(e)
    if not z3.is_add(e):
        return e
    found = {}
    args = e.children()
    for j, a in enumerate(args):
        k = 1
        if z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)):
            k, a = a.arg(0).as_long(), a.arg(1)
        if z3.is_app(a) and a.num_args() == 1 and a.decl().name().startswith("digit#"):
            i, n = a.decl().name()[6:].split("_")
            found.setdefault((int(n), a.arg(0).get_id()), {})[int(i)] = (j, k, a.arg(0))
    for (n, _), ds in found.items():
        if len(ds) != n:
            continue
        j0, k0, v = ds[0]
        if all(k == k0 * 256 ** i for i, (j, k, _v) in ds.items()):
            drop = set(j for j, k, _v in ds.values())
            rest = [a for j, a in enumerate(args) if j not in drop]
            return recompose(z3.Sum([v * k0] + rest))
    return e


_pow2_uf = z3.Function("pow2", z3.IntSort(), z3.IntSort())


class SFloat(object):
    """A float that is exactly n / d (d a power of two): the product of a symbolic int and a float without rounding."""
    __slots__ = ("n", "d")
    __sym__ = True

    def __init__(self, n, d):
        self.n, self.d = n, d

    @classmethod
    def make(cls, i, f):
        if not (f == f and abs(f) < 1e300):
            raise Unsupported("symbolic int * inf")
        m, d = f.as_integer_ratio()
        n = i * m
        # exact: the int converts to a float exactly and the product has at most 53 bits
        if not ctx().valid(z3.And(toint(i) <= 1 << 53, toint(i) >= -(1 << 53), toint(n) <= 1 << 53, toint(n) >= -(1 << 53))) \
                or d > 1 << 900:
            raise Unsupported("float product that may be rounded")
        return n if _isinstance(n, float) else cls(n, d)

    def __sym_int__(self):
        q = abs(self.n) // self.d
        if bool(self.n < 0):
            return -q
        return q

    __int__ = __sym_int__
    __trunc__ = __sym_int__

    def __floor__(self):
        return self.n // self.d

    def __bool__(self):
        return bool(self.n != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def __eq__(self, o):
        return self.n == o * self.d if _isint(o) else self._no()

    def __ne__(self, o):
        return self.n != o * self.d if _isint(o) else self._no()

    def __lt__(self, o):
        return self.n < o * self.d if _isint(o) else self._no()

    def __le__(self, o):
        return self.n <= o * self.d if _isint(o) else self._no()

    def __gt__(self, o):
        return self.n > o * self.d if _isint(o) else self._no()

    def __ge__(self, o):
        return self.n >= o * self.d if _isint(o) else self._no()

    def _no(self, *a):
        raise Unsupported("arithmetic on a symbolic float")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = _no
    __neg__ = __abs__ = __float__ = __round__ = _no


class Quotient(object):
    """The exact float self.n / self.d, for rounding only."""
    __sym__ = True

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __getattr__(self, name):
        raise Unsupported("true division of symbolic int: " + name)


class SInt(object):
    __slots__ = ("e", "lo", "hi")
    __sym__ = True

    def __init__(self, e, lo=None, hi=None):
        self.e, self.lo, self.hi = e, lo, hi

    # arithmetic
    def __add__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        (a, b), (c, d) = _rng(self), _rng(o)
        return mkint(recompose(self.e + toint(o)), None if a is None or c is None else a + c,
                     None if b is None or d is None else b + d)

    __radd__ = __add__

    def __neg__(self):
        return mkint(-self.e, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        return mkint(z3.If(self.e >= 0, self.e, -self.e), 0)

    def __sub__(self, o):
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        (a, b), (c, d) = _rng(self), _rng(o)
        return mkint(self.e - toint(o), None if a is None or d is None else a - d,
                     None if b is None or c is None else b - c)

    def __rsub__(self, o):
        if not _isint(o):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if _isinstance(o, float):
            return SFloat.make(self, o)
        if _isinstance(o, str) and len(o) == 1:
            from .rope import RepText
            return RepText("", o, self)
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        (a, b), (c, d) = _rng(self), _rng(o)
        lo = hi = None
        if None not in (a, b, c, d):
            ps = [a * c, a * d, b * c, b * d]
            lo, hi = min(ps), max(ps)
        elif a is not None and c is not None and a >= 0 and c >= 0:
            lo = a * c
        return mkint(self.e * toint(o), lo, hi)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        return _floordiv(o, self)

    def __mod__(self, o):
        return _mod(self, o)

    def __rmod__(self, o):
        if _isinstance(o, str):
            return "<symbolic>"
        return _mod(o, self)

    def __divmod__(self, o):
        return (_floordiv(self, o), _mod(self, o))

    def __truediv__(self, o):
        # a power of two divides exactly while the number fits the mantissa of a float
        if _isinstance(o, _int) and o > 0 and o & (o - 1) == 0 and ctx().valid(z3.And(self.e > -(1 << 53), self.e < (1 << 53))):
            return Quotient(self, o)
        raise Unsupported("true division of symbolic int")

    def __rtruediv__(self, o):
        raise Unsupported("true division of symbolic int")

    def __pow__(self, o):
        if _isinstance(o, _int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("symbolic pow")

    def __rpow__(self, o):
        if o == 2:
            return SInt(_pow2_uf(self.e), 1)
        raise Unsupported("symbolic pow")

    # bit operations
    def __lshift__(self, o):
        o = _conc(o)
        if _isinstance(o, _int):
            return self * (1 << o)
        return self * SInt(_pow2_uf(toint(o)), 1)

    def __rlshift__(self, o):
        s = _conc(self)
        if _isinstance(s, _int):
            return o << s
        if _isinstance(s, SInt) and s.lo is not None and s.hi is not None and 0 <= s.lo and s.hi - s.lo <= 64:
            e = z3.IntVal(o << s.hi)
            for k in range(s.hi - 1, s.lo - 1, -1):
                e = z3.If(s.e == k, z3.IntVal(o << k), e)
            return SInt(e, min(o << s.lo, o << s.hi), max(o << s.lo, o << s.hi))
        return SInt(_pow2_uf(self.e), 1) * o

    def __rshift__(self, o):
        o = _conc(o)
        if _isinstance(o, _int):
            return _floordiv(self, 1 << o)
        return _floordiv(self, SInt(_pow2_uf(toint(o)), 1))

    def __rrshift__(self, o):
        s = _conc(self)
        if _isinstance(s, _int):
            return o >> s
        raise Unsupported("symbolic shift amount")

    def __and__(self, o):
        return _and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return _or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return _xor(self, o)

    __rxor__ = __xor__

    # comparisons
    def __eq__(self, o):
        if not _isint(o):
            return False if o is None or _isinstance(o, (str, bytes, tuple, list, dict)) else NotImplemented
        return mkbool(self.e == toint(o))

    def __ne__(self, o):
        if not _isint(o):
            return True if o is None or _isinstance(o, (str, bytes, tuple, list, dict)) else NotImplemented
        return mkbool(self.e != toint(o))

    def __lt__(self, o):
        if not _isint(o):
            return NotImplemented
        return mkbool(self.e < toint(o))

    def __le__(self, o):
        if not _isint(o):
            return NotImplemented
        return mkbool(self.e <= toint(o))

    def __gt__(self, o):
        if not _isint(o):
            return NotImplemented
        return mkbool(self.e > toint(o))

    def __ge__(self, o):
        if not _isint(o):
            return NotImplemented
        return mkbool(self.e >= toint(o))

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __hash__(self):
        c = _conc(self)
        if _isinstance(c, _int):
            return hash(c)
        if getattr(ctx(), "allow_hash", False):
            return 0
        return hash(ctx().cases(c))

    def __index__(self):
        c = _conc(self)
        if not _isinstance(c, _int):
            c = ctx().only(c)
        if _isinstance(c, _int):
            return c
        raise Unsupported("symbolic int used as a machine index")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("symbolic float")

    def __format__(self, spec):
        if spec or CTX is None:
            return "<sym>"
        known = CTX.__dict__.setdefault("formats", [])
        known.append(self)
        return "<sym:%d>" % (len(known) - 1)

    def __repr__(self):
        return "SInt(%s)" % (str(self.e)[:80],)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # int protocol
    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return self

    def bit_length(self):
        raise Unsupported("bit_length of symbolic int")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from . import rope
        return rope.int_to_bytes(self, length, byteorder, signed)


def _conc(x):
    """Concrete value of a symbolic integer if the path condition fixes it syntactically."""
    if _isinstance(x, SInt):
        e = z3.simplify(x.e)
        if z3.is_int_value(e):
            return e.as_long()
    if _isinstance(x, SBool):
        return x._i()
    return x


def unique_value(x):
    """Concrete value if the path condition determines it (solver query)."""
    x = _conc(x)
    if not _isinstance(x, SInt):
        return x
    c = ctx()
    if c._check() != z3.sat:
        return None
    v = c.solver.model().eval(x.e, model_completion=True)
    if z3.is_int_value(v) and c.valid(x.e == v):
        return v.as_long()
    return None


def _floordiv(a, b):
    if not (_isint(a) and _isint(b)):
        return NotImplemented
    a, b = _coerce(a), _coerce(_conc(b))
    if _isinstance(b, _int):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b > 0:
            lo, hi = _rng(a)
            if b == 1:
                return a
            return mkint(toint(a) / z3.IntVal(b), None if lo is None else lo // b, None if hi is None else hi // b)
        return _floordiv(-a if not _isinstance(a, _int) else -a, -b)
    be = toint(b)
    if ctx().branch(be == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    ae = toint(a)
    if (b.lo is not None and b.lo > 0) or ctx().valid(be > 0):
        return mkint(ae / be, 0 if _rng(a)[0] is not None and _rng(a)[0] >= 0 else None)
    return mkint(z3.If(be > 0, ae / be, (-ae) / (-be)))


def _mod(a, b):
    if not (_isint(a) and _isint(b)):
        return NotImplemented
    a, b = _coerce(a), _coerce(_conc(b))
    if _isinstance(b, _int):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b > 0:
            lo, hi = _rng(a)
            if lo is not None and hi is not None and lo >= 0 and hi < b:
                return a
            return mkint(toint(a) % z3.IntVal(b), 0, b - 1)
        return -_mod(-a, -b)
    be = toint(b)
    if ctx().branch(be == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if (b.lo is not None and b.lo > 0) or ctx().valid(be > 0):
        return mkint(toint(a) % be, 0, None)
    raise Unsupported("modulo by possibly negative symbolic")


def _runs(mask):
    i = 0
    while mask:
        while not mask & 1:
            mask >>= 1
            i += 1
        s = i
        while mask & 1:
            mask >>= 1
            i += 1
        yield s, i


def _width(lo, hi):
    if lo is None or hi is None or lo < 0:
        return None
    return max(1, hi.bit_length())


def _and(a, b):
    if not (_isint(a) and _isint(b)):
        return NotImplemented
    a, b = _coerce(_conc(a)), _coerce(_conc(b))
    if _isinstance(a, _int):
        a, b = b, a
    if _isinstance(b, _int):
        if b == 0:
            return 0
        if b > 0:
            lo, hi = _rng(a)
            r = 0
            w = _width(lo, hi)
            for s, t in _runs(b):
                if w is not None and s >= w:
                    continue
                part = a
                if s:
                    part = _floordiv(part, 1 << s)
                if w is None or w > t:
                    part = _mod(part, 1 << (t - s))
                r = r + part * (1 << s)
            if _isinstance(r, SInt):
                r = SInt(r.e, 0, b if hi is None or lo is None or lo < 0 else min(b, hi))
            return r
        # negative mask: a & b = a - (a & ~b)
        return a - _and(a, ~b)
    return _bvop(a, b, lambda x, y: x & y)


def _tz(e):
    """A power of two known to divide the term (as exponent)."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        v = e.as_long()
        return 200 if v == 0 else (v & -v).bit_length() - 1
    if z3.is_mul(e):
        return sum(min(_tz(c), 200) for c in e.children())
    if z3.is_add(e):
        return min(_tz(c) for c in e.children())
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return min(_tz(e.arg(1)), _tz(e.arg(2)))
    return 0


def _or(a, b):
    if not (_isint(a) and _isint(b)):
        return NotImplemented
    a, b = _coerce(_conc(a)), _coerce(_conc(b))
    for x, y in ((a, b), (b, a)):
        lo, hi = _rng(y)
        w = _width(lo, hi)
        xlo, _ = _rng(x)
        if w is not None and xlo is not None and xlo >= 0 and _tz(toint(x)) >= w:
            return x + y
        if _isinstance(y, _int) and y == 0:
            return x
    if _isinstance(a, _int) or _isinstance(b, _int):
        return a + b - _and(a, b)
    return _bvop(a, b, lambda x, y: x | y)


def _xor(a, b):
    if not (_isint(a) and _isint(b)):
        return NotImplemented
    a, b = _coerce(_conc(a)), _coerce(_conc(b))
    if _isinstance(a, _int) or _isinstance(b, _int):
        return a + b - 2 * _and(a, b)
    return _bvop(a, b, lambda x, y: x ^ y)


def _bvop(a, b, f):
    wa, wb = _width(*_rng(a)), _width(*_rng(b))
    if wa is None or wb is None:
        raise Unsupported("bit operation on unbounded symbolic ints")
    w = max(wa, wb)
    r = f(z3.Int2BV(toint(a), w), z3.Int2BV(toint(b), w))
    return SInt(z3.BV2Int(r), 0, (1 << w) - 1)


def ite(c, a, b):
    """Merge of two values under a (possibly symbolic) condition, or None if they cannot be merged."""
    if c is True:
        return a
    if c is False:
        return b
    if _isinstance(a, SBool) or _isinstance(b, SBool) or (_isinstance(a, bool) and _isinstance(b, bool)):
        if _isinstance(a, (SBool, bool)) and _isinstance(b, (SBool, bool)):
            return mkbool(z3.If(tobool(c), tobool(a), tobool(b)))
    if _isint(a) and _isint(b) and not _isinstance(a, bool) and not _isinstance(b, bool):
        if type(a) not in (_int, SInt) or type(b) not in (_int, SInt):
            return None
        (l1, h1), (l2, h2) = _rng(a), _rng(b)
        return mkint(z3.If(tobool(c), toint(a), toint(b)),
                     None if l1 is None or l2 is None else min(l1, l2),
                     None if h1 is None or h2 is None else max(h1, h2))
    return None


def ite_known(c, a, b):
    """ite, resolved when the path condition determines the condition."""
    if _isinstance(c, SBool) and CTX is not None:
        if CTX.valid(c.e):
            return a
        if CTX.valid(z3.Not(c.e)):
            return b
    return ite(c, a, b)


def model_int(m, x, default=0):
    if _isinstance(x, _int):
        return x
    v = m.eval(toint(x), model_completion=True)
    return v.as_long() if z3.is_int_value(v) else default


def model_bool(m, x):
    if x is True or x is False:
        return x
    return z3.is_true(m.eval(tobool(x), model_completion=True))
