"""pyvc: a small contract-based verification-condition generator for Python.

The real source in /repo is re-parsed on every run, its functions are executed
on symbolic values (with callee contracts substituted at call sites and loops
over symbolic sequences cut by inductive invariants) and every obligation is
discharged by an SMT solver.  See /verif/DESIGN.md for what is trusted.
"""
