"""Oracle connectives: never fork, work on proxies and on ordinary values."""
import z3

from . import values as V
from .values import SymBool, SymInt, SymStr, mk_bool, mk_int, mk_str


def _sym(x):
    return isinstance(x, V.Sym) or isinstance(x, SymStr)


def b(x):
    """Boolean view of an oracle value (no fork)."""
    if type(x) is SymBool:
        return x
    if type(x) in (SymInt, SymStr):
        return V.sym_not(V.sym_not(x))
    return bool(x)


def Not(x):
    x = b(x)
    return mk_bool(z3.Not(x._z)) if type(x) is SymBool else not x


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    xs = [b(x) for x in xs]
    if any(x is False for x in xs):
        return False
    zs = [x._z for x in xs if type(x) is SymBool]
    return mk_bool(z3.And(zs)) if zs else True


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    xs = [b(x) for x in xs]
    if any(x is True for x in xs):
        return True
    zs = [x._z for x in xs if type(x) is SymBool]
    return mk_bool(z3.Or(zs)) if zs else False


def Implies(a, c):
    return Or(Not(a), c)


def Iff(a, c):
    return Eq(b(a), b(c))


def Xor(a, c):
    return Not(Iff(a, c))


def Eq(a, c):
    """Python equality of two plain or symbolic values of the same kind."""
    if type(a) is str and V.T_OPEN in a:
        a = V.lift(a)
    if type(c) is str and V.T_OPEN in c:
        c = V.lift(c)
    if isinstance(a, (list, tuple)) and isinstance(c, (list, tuple)):
        if len(a) != len(c):
            return False
        return And([Eq(x, y) for x, y in zip(a, c)])
    if (a is None) or (c is None):
        return a is c
    if isinstance(a, str) != isinstance(c, str):
        return False
    if isinstance(a, bool) != isinstance(c, bool):
        return False
    r = (a == c)
    if r is NotImplemented:
        return False
    return r


def If(c, a, d):
    c = b(c)
    if type(c) is not SymBool:
        return a if c else d
    if isinstance(a, str) and isinstance(d, str):
        return mk_str(z3.If(c._z, V.lift_z(a), V.lift_z(d)))
    if isinstance(a, bool) and isinstance(d, bool):
        return mk_bool(z3.If(c._z, V.zbool(a), V.zbool(d)))
    if isinstance(a, int) and isinstance(d, int):
        return mk_int(z3.If(c._z, V.zint(a), V.zint(d)))
    raise V._e.Unsupported('If over %r / %r' % (type(a), type(d)))


def In(x, seq):
    return Or([Eq(x, y) for y in seq])


def Count(xs):
    xs = [b(x) for x in xs]
    if not any(type(x) is SymBool for x in xs):
        return sum(xs)
    return mk_int(z3.Sum([V.zint(x) for x in xs]))


def StartsWith(s, p):
    if _sym(s) or _sym(p):
        return mk_bool(z3.PrefixOf(V.lift_z(p), V.lift_z(s)))
    return s.startswith(p)


def EndsWith(s, p):
    if _sym(s) or _sym(p):
        return mk_bool(z3.SuffixOf(V.lift_z(p), V.lift_z(s)))
    return s.endswith(p)


def Contains(s, p):
    if _sym(s) or _sym(p):
        return mk_bool(z3.Contains(V.lift_z(s), V.lift_z(p)))
    return p in s


def Concat(*ss):
    if any(_sym(s) for s in ss):
        return mk_str(z3.Concat(*[V.lift_z(s) for s in ss]))
    return ''.join(ss)


def Len(s):
    if isinstance(s, SymStr):
        return s.symlen()
    return len(s)


def ReMatch(how, pattern, s, flags=0):
    """Reference reading of re.<how>(pattern, s)."""
    import re
    p = re.compile(pattern, flags)
    if _sym(s):
        from . import regex
        return mk_bool(regex.in_re(p, how, V.lift_z(s)))
    return bool(getattr(p, how)(s))


def IsBool(x):
    """Exactly a boolean (proxy or real)."""
    return type(x) in (bool, SymBool)
