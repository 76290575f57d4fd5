"""Contracts on internal functions.

A contract is (target, verify, stub).  `verify` is a dual-mode harness which proves
that the real function satisfies the specification; only after every obligation of
`verify` is discharged against the current source is the function replaced by `stub`
(its specification) while its callers are verified.  A contract that no longer holds,
or whose target no longer exists, is simply not used: callers are then verified
against the body.
"""
import importlib
from . import core, dual


class Contract(object):
    def __init__(self, target, verify, stub, doc=""):
        self.target, self.verify, self.stub, self.doc = target, verify, stub, doc
        self.ex = None
        self.installed = False

    def resolve(self):
        mod, path = self.target.split(":")
        o = importlib.import_module(mod)
        parts = path.split(".")
        for p in parts[:-1]:
            o = getattr(o, p)
        return o, parts[-1]

    def check(self, timeout_ms=10000, max_time=60):
        try:
            self.resolve()
        except (ImportError, AttributeError):
            return False
        vs = self.verify if isinstance(self.verify, (list, tuple)) else [self.verify]
        self.results = []
        ok = True
        for i, v in enumerate(vs):
            ex = core.Explorer("contract:" + self.target + ("" if len(vs) == 1 else "#%d" % i),
                               functions=[self.target], timeout_ms=timeout_ms, max_time=max_time)
            ex.small_model = dual.small_models
            ex.run(lambda: v(dual.Sym(ex)), dual.concretize)
            self.results.append(ex)
            if ex.undecided or not ex.obligations or any(o.status != "discharged" for o in ex.obligations):
                ok = False
                break
        return ok

    def install(self):
        o, name = self.resolve()
        real = o.__dict__[name]
        stub = self.stub

        def contract_stub(*a, **k):
            if core.CTX is None:
                return real(*a, **k)
            r = stub(*a, **k)
            if r is NotApplicable:
                return real(*a, **k)
            core.CTX.contracts_used.add(self.target)
            return r
        contract_stub.__wrapped__ = real
        contract_stub.__name__ = name
        self.real = real
        setattr(o, name, contract_stub)
        self.installed = True


class NotApplicable(object):
    """Returned by a stub whose precondition is not established: the body is used."""
