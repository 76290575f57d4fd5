"""Declarations used by the property modules in /verif/props."""


class Harness(object):
    """One contract of the code under /repo, stated as a dual-mode harness fn(c).

    functions  dotted names ("module:qualname") of the functions placed under contract
    mode       "proof"    discharged for all inputs by the deductive verifier, and also
                          evaluated on concrete inputs (replay / extra assurance)
               "bounded"  out of the verifier's reach: run-time contract evaluation on
                          generated inputs only (never counted as proved)
    weight     share of the bounded run's time
    case       optional description of the fixed case this obligation set covers
    """

    def __init__(self, name, fn, functions=(), mode="proof", weight=1.0, max_time=120, timeout_ms=10000, covers=(),
                 max_paths=20000, exhaustive=False, maxlen=40, note="", setup=None):
        self.name, self.fn, self.functions, self.mode, self.weight = name, fn, tuple(functions), mode, weight
        self.max_time, self.timeout_ms, self.covers, self.max_paths = max_time, timeout_ms, tuple(covers), max_paths
        self.exhaustive, self.maxlen, self.note, self.setup = exhaustive, maxlen, note, setup


class Undecided(Exception):
    """The harness cannot find the part of the code it speaks about."""
