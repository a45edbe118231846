"""Loads the repository's modules through an AST transformation.

The source text is read from /repo on every run.  The transformation only
replaces operations CPython would perform in C on the concrete representation
of a value (==, in, not, is, %, +, method calls with the name of a str method,
set displays, f-strings) by calls that do the same on proxy values; for
ordinary values they perform the ordinary operation.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

import z3

from . import engine as _e
from . import values as V
from .values import (SymBool, SymInt, SymStr, SymFloat, mk_bool, sym_not,
                     lift, lift_z, is_symbolic, zbool, T_OPEN, eng)

REPO = os.environ.get('SYMX_REPO', '/repo')


# ------------------------------------------------------------ operations
def op_eq(a, b):
    if type(a) is str and T_OPEN in a:
        a = lift(a)
    if type(b) is str and T_OPEN in b:
        b = lift(b)
    return a == b


def op_ne(a, b):
    if type(a) is str and T_OPEN in a:
        a = lift(a)
    if type(b) is str and T_OPEN in b:
        b = lift(b)
    return a != b


def op_is(a, b):
    if type(a) is SymBool and type(b) is bool:
        return mk_bool(a._z == z3.BoolVal(b))
    if type(b) is SymBool and type(a) is bool:
        return mk_bool(b._z == z3.BoolVal(a))
    return a is b


def op_isnot(a, b):
    return sym_not(op_is(a, b))


def _plainish(x):
    return isinstance(x, (str, int, float, type(None))) or is_symbolic(x)


def op_in(x, c):
    tc = type(c)
    if tc is str and T_OPEN in c:
        c = lift(c)
        tc = type(c)
    if tc is SymStr:
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand, "
                            "not %s" % type(x).__name__)
        return c.symcontains(x)
    if type(x) is str and T_OPEN in x:
        x = lift(x)
    if tc is str:
        if type(x) is SymStr:
            return SymStr(V.zstr(c)).symcontains(x)
        return x in c
    if is_symbolic(x) or tc in (list, tuple, SymSet, SymFrozenSet):
        if tc in (list, tuple) or (isinstance(c, list) and
                                   type(c).__contains__ is list.__contains__):
            if _plainish(x):
                acc = []
                for y in c:
                    if not _plainish(y):
                        break
                    r = op_eq(x, y)
                    if r is True:
                        return True
                    if type(r) is SymBool:
                        acc.append(r._z)
                else:
                    return mk_bool(z3.Or(acc)) if acc else False
            return x in c
        if tc is SymSet or tc is SymFrozenSet:
            return c.symcontains(x)
        if tc in (dict, set, frozenset, SymDict) or tc is _KEYS or tc in (
                types.MappingProxyType,) or _own(c, '__contains__'):
            if _own(c, '__contains__') and not is_symbolic(x) and x in c:
                return True
            acc = []
            for y in c:
                r = op_eq(x, y)
                if r is True:
                    return True
                if type(r) is SymBool:
                    acc.append(r._z)
            return mk_bool(z3.Or(acc)) if acc else False
    if id(c) in SYMKEYED and _own(c, '__contains__') and isinstance(x, str):
        if x in c:
            return True
        acc = [r._z for r in (op_eq(x, y) for y in list(c)
                              if type(y) is SymStr) if type(r) is SymBool]
        return mk_bool(z3.Or(acc)) if acc else False
    return x in c


_KEYS = type({}.keys())


def op_notin(x, c):
    return sym_not(op_in(x, c))


def op_truth(x):
    return bool(x) if type(x) is SymBool else x


def op_mod(a, b):
    if isinstance(a, str):
        if type(a) is SymStr:
            a = a._v()
        r = a % b
        return lift(r) if type(r) is str else r
    return a % b


def op_add(a, b):
    if type(a) is str and T_OPEN in a:
        a = lift(a)
    if type(b) is str and T_OPEN in b:
        b = lift(b)
    return a + b


def op_str(s):
    return lift(s)


def op_method(obj, name, *a, **k):
    if obj is str and name != 'maketrans' and a and isinstance(a[0], str):
        obj, a = a[0], a[1:]            # str.strip(x)
    if type(obj) is str:
        return V.sym_method(obj, name, *a, **k)
    return getattr(obj, name)(*a, **k)


#: dictionaries with symbolic strings among their keys (of this path)
SYMKEYED = {}


def _find(d, key):
    """(key as it is in the dictionary,) or None."""
    if not is_symbolic(key):
        if id(d) not in SYMKEYED or not isinstance(key, str):
            return (key,) if dict.__contains__(d, key) else None
        if dict.__contains__(d, key):
            return (key,)
        cands = [y for y in list(d) if type(y) is SymStr]
    else:
        cands = list(d)
        for y in cands:
            if y is key:
                return (y,)
    for y in cands:
        if op_eq(key, y):
            return (y,)
    return None


def _raw(d, key, f):
    if type(key) is not SymStr:
        return f(key)
    V.KEY_STORE[0] = True
    try:
        return f(key)
    finally:
        V.KEY_STORE[0] = False


def dict_store(d, key, val):
    if is_symbolic(key):
        key = lift(key)
    at = _find(d, key)
    if at is not None:
        key = at[0]
    elif type(key) is SymStr:
        SYMKEYED[id(d)] = d
    _raw(d, key, lambda k: dict.__setitem__(d, k, val))


def dict_load(d, key):
    if is_symbolic(key):
        key = lift(key)
    at = _find(d, key)
    if at is None:
        raise KeyError(key)
    return _raw(d, at[0], lambda k: dict.__getitem__(d, k))


def dict_delete(d, key):
    if is_symbolic(key):
        key = lift(key)
    at = _find(d, key)
    if at is None:
        raise KeyError(key)
    _raw(d, at[0], lambda k: dict.__delitem__(d, k))


class DictView(object):
    """The target of an item assignment or deletion on a dict."""
    __slots__ = ('_d',)

    def __init__(self, d):
        self._d = d

    def __setitem__(self, k, v):
        dict_store(self._d, k, v)

    def __getitem__(self, k):
        return dict_load(self._d, k)

    def __delitem__(self, k):
        dict_delete(self._d, k)


def op_store(obj):
    return DictView(obj) if type(obj) is dict or (
        _own(obj, '__setitem__') and _own(obj, '__delitem__')) else obj


def _own(obj, name):
    """A dictionary, or a subclass that leaves this method as it is."""
    t = type(obj)
    return t is dict or (
        isinstance(obj, dict) and t is not SymDict and
        getattr(t, name, None) is getattr(dict, name, obj))


def _dictish(obj, key, name):
    return isinstance(obj, dict) and _own(obj, name) and (
        is_symbolic(key) or id(obj) in SYMKEYED)


_MISSING = object()


def op_get(obj, name, *a, **k):
    """get, setdefault, pop, __contains__, ... called on a plain dict."""
    if name in SET_METHODS:
        if type(obj) in (set, frozenset) and not k:
            return set_method(obj, name, *a)
        return getattr(obj, name)(*a, **k)
    if obj is dict and a and isinstance(a[0], dict):
        return _unbound(a[0], name, *a[1:], **k)
    if a and not k and name != 'update' and _dictish(obj, a[0], name):
        key = a[0]
        at = _find(obj, lift(key) if is_symbolic(key) else key)
        if name in ('__contains__', 'has_key'):
            return at is not None
        if name == '__getitem__':
            return dict_load(obj, key)
        if name == '__setitem__':
            return dict_store(obj, key, a[1])
        if name == '__delitem__':
            return dict_delete(obj, key)
        if at is not None:
            r = dict_load(obj, at[0])
            if name == 'pop':
                dict_delete(obj, at[0])
            return r
        d = a[1] if len(a) > 1 else _MISSING
        if name == 'pop' and d is _MISSING:
            raise KeyError(key)
        d = None if d is _MISSING else d
        if name == 'setdefault':
            dict_store(obj, key, d)
        return d
    if name == 'update' and type(obj) is dict and len(a) < 2:
        src = a[0] if a else {}
        if k:
            op_get(obj, name, src)
            src = k
        if type(src) is dict and not any(type(x) is SymStr for x in src) \
                and id(obj) not in SYMKEYED:
            return obj.update(src)
        if hasattr(src, 'keys'):
            pairs = [(x, op_subscr(src, x)) for x in src.keys()]
        else:
            pairs = list(src)
        for x, y in pairs:
            dict_store(obj, x, y)
        return None
    return getattr(obj, name)(*a, **k)


DICT_METHODS = ('get', 'setdefault', 'pop', 'update', '__contains__',
                '__getitem__', '__setitem__', '__delitem__')


def op_attr(obj, name):
    """An attribute that may be a method of a builtin, not called here."""
    if name in V.STR_METHODS and (obj is str or type(obj) is str) and \
            name != 'maketrans':
        return lambda *a, **k: op_method(obj, name, *a, **k)
    if name in DICT_METHODS and (obj is dict or _own(obj, name)):
        return lambda *a, **k: op_get(obj, name, *a, **k)
    if name in SET_METHODS and type(obj) in (set, frozenset):
        return lambda *a, **k: op_get(obj, name, *a, **k)
    return getattr(obj, name)


def op_supercall(sup, name, *a, **k):
    """super().method(...), which may be that of dict."""
    m = getattr(sup, name)
    o = getattr(m, '__self__', None)
    if isinstance(o, dict) and isinstance(m, (types.BuiltinMethodType,
                                              types.MethodWrapperType)):
        return _unbound(o, name, *a, **k)
    return m(*a, **k)


def _unbound(obj, name, *a, **k):
    """dict.method(obj, ...), whatever the class of obj."""
    if a and type(obj) is not SymDict and (
            is_symbolic(a[0]) or id(obj) in SYMKEYED):
        if name == '__setitem__':
            return dict_store(obj, *a)
        if name == '__getitem__':
            return dict_load(obj, *a)
        if name == '__delitem__':
            return dict_delete(obj, *a)
        if name == '__contains__':
            return _find(obj, a[0]) is not None
        if name in ('get', 'setdefault', 'pop'):
            at = _find(obj, a[0])
            if at is not None:
                r = dict_load(obj, at[0])
                if name == 'pop':
                    dict_delete(obj, at[0])
                return r
            if name == 'pop' and len(a) < 2:
                raise KeyError(a[0])
            d = a[1] if len(a) > 1 else None
            if name == 'setdefault':
                dict_store(obj, a[0], d)
            return d
    if name == 'update' and len(a) < 2 and type(obj) is not SymDict:
        if not a:
            a = ({},)
        src = a[0]
        if type(src) is not dict and not hasattr(src, 'keys'):
            src = a[0] if isinstance(a[0], (list, tuple)) else list(a[0])
            a = (src,)
            pairs = src
        elif isinstance(src, dict):
            pairs = list(dict.items(src))
        else:
            pairs = None
        if pairs is not None and (
                id(obj) in SYMKEYED or id(src) in SYMKEYED or any(
                    type(p) in (list, tuple) and len(p) == 2 and
                    is_symbolic(p[0]) for p in pairs)):
            for x, y in list(pairs) + list(k.items()):
                dict_store(obj, x, y)
            return None
    return getattr(dict, name)(obj, *a, **k)


def op_subscr(obj, key):
    if _dictish(obj, key, '__getitem__'):
        return dict_load(obj, key)
    if type(obj) is str and T_OPEN in obj:
        return lift(obj)[key]
    return obj[key]


def op_dict(pairs):
    d = {}
    for k, v in pairs:
        dict_store(d, k, v)
    return d


def op_mkdict(cls, *a, **k):
    if cls is dict and len(a) == 1 and not hasattr(a[0], 'keys'):
        pairs = [tuple(p) for p in a[0]]
        if any(len(p) == 2 and is_symbolic(p[0]) for p in pairs):
            d = op_dict(pairs)
            d.update(k)
            return d
        a = (pairs,)
    elif cls is dict and len(a) == 1 and id(a[0]) in SYMKEYED and \
            isinstance(a[0], dict):
        d = op_dict(list(dict.items(a[0])))
        d.update(k)
        return d
    return cls(*a, **k)


def op_set(items):
    return SymSet(items)


# -------------------------------------------------------------- builtins
class _TypeProxy(object):
    """The builtin ``type`` for repository code."""

    def __call__(self, *a, **k):
        if len(a) == 1 and not k:
            t = type(a[0])
            if t is SymBool:
                return bool
            if t is SymInt:
                return int
            if t is SymStr:
                return str
            if t is SymFloat:
                return float
            if t is V.SymDatetime or t is V.SymTimedelta:
                return t._native
            if t is SymSet:
                return set
            if t is SymFrozenSet:
                return frozenset
            return t
        return type(*a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, type)

    def __subclasscheck__(self, x):
        return issubclass(x, type)

    def __mro_entries__(self, bases):
        return (type,)

    def __getattr__(self, n):
        return getattr(type, n)

    def __eq__(self, o):
        return o is type or o is self

    def __hash__(self):
        return hash(type)

    def __repr__(self):
        return repr(type)


TYPE = _TypeProxy()


def b_isinstance(x, t):
    return isinstance(x, t)


def b_len(x):
    if type(x) is str and T_OPEN in x:
        x = lift(x)
    if type(x) is SymStr:
        return x.symlen()
    return len(x)


def b_any(it):
    if type(it) in (list, tuple):
        acc = []
        for x in it:
            if type(x) is SymBool:
                acc.append(x._z)
            elif x:
                return True
        return mk_bool(z3.Or(acc)) if acc else False
    return any(it)


def b_all(it):
    if type(it) in (list, tuple):
        acc = []
        for x in it:
            if type(x) is SymBool:
                acc.append(x._z)
            elif not x:
                return False
        return mk_bool(z3.And(acc)) if acc else True
    return all(it)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, bool)

    def __subclasscheck__(cls, x):
        return issubclass(x, bool)

    def __eq__(cls, o):
        return o is bool or o is cls

    def __ne__(cls, o):
        return not (o is bool or o is cls)

    def __hash__(cls):
        return hash(bool)


def b_hash(x):
    return hash(x)


def b_repr(x):
    return lift(repr(x))


def b_sorted(it, **k):
    return sorted(it, **k)


class SymSet(object):
    """A set whose elements may be symbolic (insertion forks on equality)."""

    @property
    def __class__(self):
        return set

    def __init__(self, items=()):
        self._items = []
        for x in items:
            SymSet.add(self, x)

    def symcontains(self, x):
        acc = []
        for y in self._items:
            r = op_eq(x, y)
            if r is True:
                return True
            if type(r) is SymBool:
                acc.append(r._z)
        return mk_bool(z3.Or(acc)) if acc else False

    def __contains__(self, x):
        return bool(self.symcontains(x))

    def add(self, x):
        if not is_symbolic(x):
            hash(x)
        x = lift(x)
        if not self.symcontains(x):
            self._items.append(x)

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def clear(self):
        del self._items[:]

    def pop(self):
        if not self._items:
            raise KeyError('pop from an empty set')
        return self._items.pop(0)

    def discard(self, x):
        for i, y in enumerate(self._items):
            if op_eq(x, y):
                del self._items[i]
                return

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def __iter__(self):
        return iter(list(self._items))

    def __len__(self):
        return len(self._items)

    def __bool__(self):
        return bool(self._items)

    def _new(self, items):
        s = object.__new__(type(self))
        s._items = list(items)
        return s

    def __repr__(self):
        return '{%s}' % ', '.join(repr(x) for x in self._items)

    def __reduce__(self):
        return (set, (list(self._items),))

    def __copy__(self):
        return self._new(self._items)

    def __deepcopy__(self, memo):
        import copy
        return self._new(copy.deepcopy(self._items, memo))

    def copy(self):
        return self._new(self._items)

    def __and__(self, o):
        o = list(o)
        return self._new([x for x in self._items if op_in(x, o)])

    def __rand__(self, o):
        return self & o

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & list(o)
        return r

    def isdisjoint(self, o):
        o = list(o)
        return sym_not(b_any([op_in(x, o) for x in self._items]))

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r
    __ror__ = __or__

    def union(self, *os):
        r = self.copy()
        r.update(*os)
        return r

    def __sub__(self, o):
        o = list(o)
        return self._new([x for x in self._items if not op_in(x, o)])

    def __rsub__(self, o):
        return self._new([x for x in o if not op_in(x, self._items)])

    def difference(self, *os):
        r = self
        for o in os:
            r = r - list(o)
        return r.copy()

    def __xor__(self, o):
        o = SymSet(o)
        return (self - o) | (o - self)
    __rxor__ = symmetric_difference = __xor__

    def _become(self, o):
        self._items[:] = list(o._items)
        return self

    def __ior__(self, o):
        return self._become(self | o)

    def __iand__(self, o):
        return self._become(self & o)

    def __isub__(self, o):
        return self._become(self - o)

    def __ixor__(self, o):
        return self._become(self ^ o)

    def intersection_update(self, *os):
        self._become(self.intersection(*os))

    def difference_update(self, *os):
        self._become(self.difference(*os))

    def symmetric_difference_update(self, o):
        self._become(self ^ o)

    def __lt__(self, o):
        return sym_and2(self.issubset(o), len(self) < len(o))

    def __gt__(self, o):
        return sym_and2(self.issuperset(o), len(self) > len(o))

    def issubset(self, o):
        o = list(o)
        return b_all([op_in(x, o) for x in self._items])

    def issuperset(self, o):
        return b_all([op_in(x, self._items) for x in o])
    __le__ = issubset
    __ge__ = issuperset

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return sym_and2(self.issubset(o), self.issuperset(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    __hash__ = None


def sym_and2(a, b):
    return b_all([a, b])


class SymFrozenSet(SymSet):
    @property
    def __class__(self):
        return frozenset

    def __hash__(self):
        return hash(frozenset(self._items))

    def __reduce__(self):
        return (frozenset, (list(self._items),))

    def __getattribute__(self, n):
        if n in ('update', 'clear', 'pop', 'discard', 'remove',
                 'intersection_update', 'difference_update',
                 'symmetric_difference_update'):
            raise AttributeError("'frozenset' object has no attribute %r" % n)
        return object.__getattribute__(self, n)
    __ior__ = __iand__ = __isub__ = __ixor__ = None


SET_METHODS = ('isdisjoint', 'intersection', 'union', 'difference',
               'symmetric_difference', 'issubset', 'issuperset')


def set_method(a, name, *o):
    """A method of a set that may meet symbolic elements."""
    if type(a) in (set, frozenset):
        o = [list(x) for x in o]
        if not any(is_symbolic(y) for x in o for y in x):
            return getattr(a, name)(*o)
        a = (SymSet if type(a) is set else SymFrozenSet)(a)
    return getattr(a, name)(*o)


SETS = (set, frozenset, SymSet, SymFrozenSet)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._real)

    def __call__(cls, *a):
        items = list(*a)
        if cls._real is set:
            return SymSet(items)
        if any(is_symbolic(x) for x in items):
            return SymFrozenSet(items)
        return cls._real(items)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        if name in SET_METHODS:
            return lambda a, *o: set_method(a, name, *o)
        return getattr(cls._real, name)


class SetProxy(metaclass=_SetMeta):
    _real = set


class FrozenSetProxy(metaclass=_SetMeta):
    _real = frozenset


class SymDict(dict):
    pass


# set & SymSet where the left one is a real set: C set returns NotImplemented
# for SymSet (it is not a set) and __rand__ above is used.

class ReProxy(object):
    """Stands for the ``re`` module in repository code."""

    def __init__(self, real):
        self.__dict__['_real'] = real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def compile(self, pat, flags=0):
        if isinstance(pat, PatternProxy):
            return pat
        if is_symbolic(pat):
            pat = lift(pat)
            pat = pat._v() if type(pat) is SymStr else pat
        return PatternProxy(self._real.compile(pat, flags))

    def _go(self, how, pat, s, flags=0):
        return getattr(self.compile(pat, flags), how)(s)

    def match(self, pat, s, flags=0):
        return self._go('match', pat, s, flags)

    def search(self, pat, s, flags=0):
        return self._go('search', pat, s, flags)

    def fullmatch(self, pat, s, flags=0):
        return self._go('fullmatch', pat, s, flags)

    def sub(self, pat, repl, s, count=0, flags=0):
        if is_symbolic(s):
            s = lift(s)
            s = s._v() if type(s) is SymStr else s
        return self._real.sub(pat, repl, s, count=count, flags=flags)

    def split(self, pat, s, maxsplit=0, flags=0):
        if is_symbolic(s):
            s = lift(s)
            s = s._v() if type(s) is SymStr else s
        return self._real.split(pat, s, maxsplit=maxsplit, flags=flags)

    def findall(self, pat, s, flags=0):
        if is_symbolic(s):
            s = lift(s)
            s = s._v() if type(s) is SymStr else s
        return self._real.findall(pat, s, flags)


class PatternProxy(object):
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def _go(self, how, s):
        s = lift(s)
        if type(s) is not SymStr:
            return getattr(self._real, how)(s)
        from . import regex
        try:
            z = regex.in_re(self._real, how, s._z)
        except regex.Untranslatable:
            return getattr(self._real, how)(s._v())
        if eng().branch(z):
            return MatchProxy(self, how, s)
        return None

    def match(self, s, *a):
        return self._go('match', s) if not a else self._real.match(
            V.lift(s)._v() if is_symbolic(s) else s, *a)

    def search(self, s, *a):
        return self._go('search', s) if not a else self._real.search(
            V.lift(s)._v() if is_symbolic(s) else s, *a)

    def fullmatch(self, s, *a):
        return self._go('fullmatch', s)

    def sub(self, repl, s, *a):
        s = lift(s)
        return self._real.sub(repl, s._v() if type(s) is SymStr else s, *a)

    def split(self, s, *a):
        s = lift(s)
        return self._real.split(s._v() if type(s) is SymStr else s, *a)

    def findall(self, s):
        s = lift(s)
        return self._real.findall(s._v() if type(s) is SymStr else s)


class MatchProxy(object):
    """A successful match; details are computed on the case split string."""

    def __init__(self, pat, how, s):
        self._m = (pat, how, s)

    def __bool__(self):
        return True

    def _real(self):
        pat, how, s = self._m
        return getattr(pat._real, how)(s._v())

    def __getattr__(self, n):
        return getattr(self._real(), n)

    def __getitem__(self, i):
        return self._real()[i]


_re_proxy = None


_MODULES = None


def _all_modules():
    """Dotted names of the modules of the repository."""
    global _MODULES
    if _MODULES is None:
        _MODULES = []
        for root, dirs, files in os.walk(os.path.join(REPO, 'ndg')):
            rel = os.path.relpath(root, REPO).split(os.sep)
            for f in sorted(files):
                if f == '__init__.py':
                    _MODULES.append('.'.join(rel))
                elif f.endswith('.py'):
                    _MODULES.append('.'.join(rel + [f[:-3]]))
        _MODULES.sort()
    return _MODULES


def resolve_module(name):
    """The module of the repository a symbolic name is (case split)."""
    name = lift(name)
    if type(name) is not SymStr:
        return name
    if not eng().branch(z3.PrefixOf(z3.StringVal('ndg'), name._z)):
        return name._v()
    for m in _all_modules():
        if name == m:
            return m
    raise ModuleNotFoundError('No module named (symbolic)')


def b_getattr(obj, name, *d):
    if is_symbolic(name):
        name = lift(name)
        if type(name) is SymStr:
            for n in dir(obj):
                if name == n:
                    return getattr(obj, n, *d)
            if d:
                return d[0]
            raise AttributeError('no attribute (symbolic)')
    return getattr(obj, name, *d)


def b_hasattr(obj, name):
    if is_symbolic(name):
        try:
            b_getattr(obj, name)
        except AttributeError:
            return False
        return True
    return hasattr(obj, name)


def b_setattr(obj, name, value):
    if is_symbolic(name):
        name = lift(name)
        name = name._v() if type(name) is SymStr else name
    setattr(obj, name, value)


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    global _re_proxy
    if is_symbolic(name):
        name = resolve_module(name)
    if name == 're' and level == 0 and not fromlist:
        if _re_proxy is None:
            import re
            _re_proxy = ReProxy(re)
        return _re_proxy
    if name == 're' and level == 0:
        if _re_proxy is None:
            import re
            _re_proxy = ReProxy(re)
        return _re_proxy
    if name == 'functools' and level == 0:
        return FUNCTOOLS
    return builtins.__import__(name, globals, locals, fromlist, level)


class Memo(object):
    """functools.lru_cache for functions of symbolic arguments."""

    def __init__(self, fn, maxsize=None, typed=False):
        self.__wrapped__, self._max, self._typed = fn, maxsize, typed
        self._store = []
        self._hits = self._misses = 0
        for a in ('__name__', '__qualname__', '__doc__', '__module__'):
            try:
                setattr(self, a, getattr(fn, a))
            except AttributeError:
                pass

    def __call__(self, *a, **k):
        if self._max == 0:
            return self.__wrapped__(*a, **k)
        key = a + tuple(x for p in k.items() for x in p)
        for x in key:
            if not is_symbolic(x):
                hash(x)
        for i, (n, kk, v) in enumerate(self._store):
            if n == len(a) and len(kk) == len(key) and all(
                    op_truth(self._same(x, y)) for x, y in zip(kk, key)):
                self._store.append(self._store.pop(i))
                self._hits += 1
                return v
        v = self.__wrapped__(*a, **k)
        self._misses += 1
        self._store.append((len(a), key, v))
        if self._max is not None and len(self._store) > self._max:
            del self._store[0]
        return v

    def _same(self, x, y):
        if x is y:
            return True
        if self._typed and TYPE(x) is not TYPE(y):
            return False
        if not is_symbolic(x) and not is_symbolic(y):
            return hash(x) == hash(y) and x == y
        return op_eq(x, y)

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        del self._store[:]

    def cache_info(self):
        import functools
        return functools._CacheInfo(self._hits, self._misses, self._max,
                                    len(self._store))


class FunctoolsProxy(object):
    def __init__(self):
        import functools
        self._real = functools

    def __getattr__(self, n):
        return getattr(self._real, n)

    def lru_cache(self, maxsize=128, typed=False):
        if callable(maxsize):
            return Memo(maxsize, 128)
        return lambda fn: Memo(fn, maxsize, typed)

    def cache(self, fn):
        return Memo(fn)


FUNCTOOLS = FunctoolsProxy()


def make_builtins():
    d = dict(builtins.__dict__)
    d.update({
        '__import__': _import,
        'type': TYPE,
        'len': b_len,
        'any': b_any,
        'all': b_all,
        'set': SetProxy,
        'frozenset': FrozenSetProxy,
        'repr': b_repr,
        'getattr': b_getattr, 'hasattr': b_hasattr, 'setattr': b_setattr,
        '__symx_eq__': op_eq, '__symx_ne__': op_ne,
        '__symx_in__': op_in, '__symx_notin__': op_notin,
        '__symx_is__': op_is, '__symx_isnot__': op_isnot,
        '__symx_not__': sym_not, '__symx_truth__': op_truth,
        '__symx_mod__': op_mod,
        '__symx_add__': op_add, '__symx_str__': op_str,
        '__symx_method__': op_method, '__symx_get__': op_get,
        '__symx_subscr__': op_subscr, '__symx_set__': op_set,
        '__symx_store__': op_store, '__symx_dict__': op_dict,
        '__symx_mkdict__': op_mkdict, '__symx_attr__': op_attr,
        '__symx_supercall__': op_supercall,
    })
    return d


# -------------------------------------------------------- transformation
_CMP = {ast.Eq: '__symx_eq__', ast.NotEq: '__symx_ne__', ast.In: '__symx_in__',
        ast.NotIn: '__symx_notin__', ast.Is: '__symx_is__',
        ast.IsNot: '__symx_isnot__'}


class Transform(ast.NodeTransformer):
    def _call(self, node, name, *args):
        return ast.copy_location(ast.Call(
            func=ast.Name(id=name, ctx=ast.Load()), args=list(args),
            keywords=[]), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            f = _CMP.get(type(node.ops[0]))
            if f in ('__symx_is__', '__symx_isnot__'):
                c = node.comparators[0]
                if isinstance(c, ast.Constant) and c.value is None:
                    return node
            if f:
                return self._call(node, f, node.left, node.comparators[0])
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._call(node, '__symx_not__', node.operand)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call(node, '__symx_mod__', node.left, node.right)
        if isinstance(node.op, ast.Add):
            return self._call(node, '__symx_add__', node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    #: methods whose result the interpreter wants as a real bool
    TRUTH = ('__bool__', '__contains__')
    _in_truth = False

    def visit_FunctionDef(self, node):
        saved, self._in_truth = self._in_truth, node.name in self.TRUTH
        self.generic_visit(node)
        self._in_truth = saved
        return node

    def visit_Lambda(self, node):
        saved, self._in_truth = self._in_truth, False
        self.generic_visit(node)
        self._in_truth = saved
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if self._in_truth and node.value is not None:
            node.value = self._call(node.value, '__symx_truth__', node.value)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return self._call(node, '__symx_str__', node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        return self._call(node, '__symx_set__', ast.copy_location(
            ast.List(elts=node.elts, ctx=ast.Load()), node))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, '__symx_set__', ast.copy_location(
            ast.ListComp(elt=node.elt, generators=node.generators), node))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(
                node.slice, (ast.Slice, ast.Tuple)):
            return self._call(node, '__symx_subscr__', node.value, node.slice)
        if isinstance(node.ctx, (ast.Store, ast.Del)) and not isinstance(
                node.slice, (ast.Slice, ast.Tuple, ast.Constant)):
            node.value = self._call(node.value, '__symx_store__', node.value)
        return node

    def _pairs(self, node, elts):
        return self._call(node, '__symx_dict__', ast.copy_location(
            ast.List(elts=elts, ctx=ast.Load()), node))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if None in node.keys or all(isinstance(k, ast.Constant)
                                    for k in node.keys):
            return node
        return self._pairs(node, [ast.copy_location(
            ast.Tuple(elts=[k, v], ctx=ast.Load()), node)
            for k, v in zip(node.keys, node.values)])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._call(node, '__symx_dict__', ast.copy_location(
            ast.ListComp(elt=ast.copy_location(
                ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node),
                generators=node.generators), node))

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and (
                node.attr in V.STR_METHODS or node.attr in DICT_METHODS or
                node.attr in SET_METHODS):
            return self._call(node, '__symx_attr__', node.value,
                              ast.Constant(node.attr))
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute):
            # (not an attribute on its own)
            node.func.value = self.visit(node.func.value)
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(a) for a in node.keywords]
        else:
            self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Load):
            if isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == 'super':
                if f.attr not in DICT_METHODS:
                    return node
                return ast.copy_location(ast.Call(
                    func=ast.Name(id='__symx_supercall__', ctx=ast.Load()),
                    args=[f.value, ast.Constant(f.attr)] + node.args,
                    keywords=node.keywords), node)
            if f.attr in V.STR_METHODS:
                name = '__symx_method__'
            elif f.attr in DICT_METHODS or f.attr in SET_METHODS:
                name = '__symx_get__'
            else:
                return node
            return ast.copy_location(ast.Call(
                func=ast.Name(id=name, ctx=ast.Load()),
                args=[f.value, ast.Constant(f.attr)] + node.args,
                keywords=node.keywords), node)
        if isinstance(f, ast.Name) and f.id == 'dict' and node.args:
            return ast.copy_location(ast.Call(
                func=ast.Name(id='__symx_mkdict__', ctx=ast.Load()),
                args=[f] + node.args, keywords=node.keywords), node)
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(Transform().visit(tree))
        code = compile(tree, self.path, 'exec')
        module.__dict__['__builtins__'] = _BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'ndg' and not name.startswith('ndg.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p, True),
                submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                name, base + '.py', loader=Loader(base + '.py', False))
        return None


_BUILTINS = None


def install():
    global _BUILTINS
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    _BUILTINS = make_builtins()
    sys.meta_path.insert(0, Finder())
    import logging
    logging.disable(logging.CRITICAL)
    import traceback
    traceback.format_exc = lambda *a, **k: ''
    _watch_functions()


def install_plain():
    """Concrete mode: the repository exactly as it is."""
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)


# ------------------------------------------------- functions executed
FUNCTIONS = set()


def _watch_functions():
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, 'symx')
    root = os.path.join(REPO, 'ndg') + os.sep

    def started(code, off):
        if code.co_filename.startswith(root) and code.co_flags & 1:
            FUNCTIONS.add('%s:%s' % (code.co_filename[len(REPO) + 1:],
                                     code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, started)
    mon.set_events(tool, mon.events.PY_START)


def reset_functions():
    """Forget what ran while importing."""
    FUNCTIONS.clear()
    sys.monitoring.restart_events()


# --------------------------------------------------------- state snapshot
class Snapshot(object):
    """Mutable module-level state of the repository, restored before every
    path so that paths are independent of each other."""

    def __init__(self):
        self.dicts, self.lists, self.slots, self.classes = [], [], [], []
        self.cells = []
        seen = set()
        todo = []
        for name, m in list(sys.modules.items()):
            if name == 'ndg' or name.startswith('ndg.'):
                for k, v in list(m.__dict__.items()):
                    if not k.startswith('__'):
                        todo.append(v)
                self.dicts.append((m.__dict__, dict(m.__dict__)))
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            t = type(o)
            if t is dict or t is SymDict:
                self.dicts.append((o, dict(o)))
                todo.extend(o.values())
            elif t is list:
                self.lists.append((o, list(o)))
                todo.extend(o)
            elif t is tuple:
                todo.extend(o)
            elif t is SymSet:
                self.lists.append((o._items, list(o._items)))
                todo.extend(o._items)
            elif t is Memo:
                self.lists.append((o._store, list(o._store)))
                todo.append(o.__wrapped__)
            elif t is types.FunctionType:
                if str(o.__module__).startswith('ndg'):
                    todo.extend(o.__defaults__ or ())
                    todo.extend((o.__kwdefaults__ or {}).values())
                    if o.__dict__:
                        self.dicts.append((o.__dict__, dict(o.__dict__)))
                        todo.extend(o.__dict__.values())
                    else:
                        self.dicts.append((o.__dict__, {}))
                    for c in o.__closure__ or ():
                        try:
                            v = c.cell_contents
                        except ValueError:
                            continue
                        self.cells.append((c, v))
                        todo.append(v)
            elif t is property:
                todo.extend([o.fget, o.fset, o.fdel])
            elif t in (staticmethod, classmethod):
                todo.append(o.__func__)
            elif isinstance(o, type):
                if str(getattr(o, '__module__', '')).startswith('ndg'):
                    d = {k: v for k, v in o.__dict__.items()
                         if not (k.startswith('__') or k.startswith('_abc'))}
                    self.classes.append((o, d))
                    todo.extend(d.values())
            elif str(getattr(t, '__module__', '')).startswith('ndg') and not \
                    isinstance(o, types.FunctionType):
                if isinstance(o, list):
                    self.lists.append((o, list(o)))
                    todo.extend(list(o))
                elif isinstance(o, dict):
                    self.dicts.append((o, dict(o)))
                    todo.extend(dict.values(o))
                if hasattr(o, '__dict__'):
                    self.dicts.append((o.__dict__, dict(o.__dict__)))
                    todo.extend(o.__dict__.values())
                for c in t.__mro__:
                    for s in c.__dict__.values():
                        if isinstance(s, types.MemberDescriptorType):
                            try:
                                v = s.__get__(o)
                            except AttributeError:
                                continue
                            self.slots.append((o, s, v))
                            todo.append(v)

    def restore(self):
        for d, c in self.dicts:
            if len(d) != len(c) or not _same(d, c):
                dict.clear(d)
                dict.update(d, c)
        for l, c in self.lists:
            if len(l) != len(c) or any(a is not b for a, b in zip(
                    list.__iter__(l), c)):
                list.clear(l)
                list.extend(l, c)
        for c, v in self.cells:
            if c.cell_contents is not v:
                c.cell_contents = v
        for o, s, v in self.slots:
            try:
                if s.__get__(o) is v:
                    continue
            except AttributeError:
                pass
            s.__set__(o, v)
        for c, d in self.classes:
            cur = c.__dict__
            for k in [k for k in cur if k not in d and not (
                    k.startswith('__') or k.startswith('_abc'))]:
                type.__delattr__(c, k)
            for k, v in d.items():
                if cur.get(k) is not v:
                    type.__setattr__(c, k, v)


def _same(d, c):
    for k, v in c.items():
        if dict.get(d, k, d) is not v:
            return False
    return True
