"""symx - a small symbolic executor for the Python code in /repo.

The repository's own source is executed by CPython on proxy values (SymBool,
SymInt, SymStr, ...) whose truth value is decided by an SMT solver (z3).  Every
branch on a symbolic condition is explored on each side the solver finds
feasible; every property becomes a query  path-condition AND NOT property.
"""
