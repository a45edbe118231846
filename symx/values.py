"""Symbolic proxies for bool, int, float, str, datetime and timedelta."""
import datetime as _dt

import z3

from . import engine as _e
from . import regex as _regex

T_OPEN = '\U00100000'
T_CLOSE = '\U00100001'
NEED_LIFT = T_OPEN


def eng():
    e = _e.CURRENT
    if e is None:
        raise RuntimeError('symbolic value used outside an exploration')
    return e


# ---------------------------------------------------------------- strings
def z3_unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


_ZSTR = {}


def zstr(s):
    """z3 constant for a concrete Python string."""
    z = _ZSTR.get(s)
    if z is None:
        z = _ZSTR[str(s)] = _zstr(s)
    return z


def _zstr(s):
    r = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch != '\\':
            r.append(ch)
        elif o > 0x2ffff:
            raise _e.Unsupported('character outside the solver alphabet')
        else:
            r.append('\\u{%x}' % o)
    return z3.StringVal(''.join(r))


def val_to_py(v):
    """z3 value -> Python value."""
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_string_value(v):
        return z3_unescape(v.as_string())
    if z3.is_fp_value(v) or z3.is_fp(v):
        return fp_to_py(v)
    raise _e.Unsupported('cannot convert %r' % (v,))


def fp_to_py(v):
    v = z3.simplify(v)
    if v.isNaN():
        return float('nan')
    if v.isInf():
        return float('-inf') if v.isNegative() else float('inf')
    bv = z3.simplify(z3.fpToIEEEBV(v))
    import struct
    return struct.unpack('>d', bv.as_long().to_bytes(8, 'big'))[0]


def lift_z(s):
    """z3 expression for a str that may contain placeholder tokens."""
    if type(s) is SymStr:
        return s._z
    if T_OPEN not in s:
        return zstr(s)
    e = eng()
    parts = []
    i = 0
    while i < len(s):
        j = s.find(T_OPEN, i)
        if j < 0:
            parts.append(zstr(s[i:]))
            break
        if j > i:
            parts.append(zstr(s[i:j]))
        k = s.find(T_CLOSE, j)
        if k < 0:
            raise _e.Unsupported('placeholder cut by a string operation')
        parts.append(e.token_exprs[int(s[j + 1:k])])
        i = k + 1
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def mk_str(z):
    z = _e.simp(z)
    if z3.is_string_value(z):
        return z3_unescape(z.as_string())
    return SymStr(z)


def lift(s):
    """A plain str holding tokens becomes a SymStr; everything else is kept."""
    if type(s) is str and T_OPEN in s:
        return mk_str(lift_z(s))
    return s


def is_symbolic(x):
    return isinstance(x, Sym) or type(x) is SymStr or (
        type(x) is str and T_OPEN in x)


class Sym(object):
    """Marker base class of the non-string proxies."""
    __slots__ = ()


_EQ = {}


def str_eq(a, b):
    """Memoised equality of two string terms."""
    k = (a.get_id(), b.get_id())
    r = _EQ.get(k)
    if r is None:
        if len(_EQ) > 200000:
            _EQ.clear()
        r = _EQ[k] = (a, b, mk_bool(a == b))
    return r[2]


def mk_bool(z):
    z = _e.simp(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def zbool(x):
    if type(x) is SymBool:
        return x._z
    if type(x) is bool:
        return z3.BoolVal(x)
    return z3.BoolVal(bool(x))


class SymBool(Sym):
    __slots__ = ('_z',)

    def __init__(self, z):
        object.__setattr__(self, '_z', z)

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().branch(self._z)

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            return mk_bool(self._z == zbool(o))
        if type(o) in (int, SymInt):
            return mk_bool(zint(self) == zint(o))
        if type(o) in (float, SymFloat):
            return bool(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return mk_bool(z3.And(self._z, zbool(o)))
        return mk_int(zint(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return mk_bool(z3.Or(self._z, zbool(o)))
        return mk_int(zint(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            return mk_bool(z3.Xor(self._z, zbool(o)))
        return NotImplemented
    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return mk_int(zint(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise _e.Unsupported('symbolic bool reached a serialiser')


def sym_not(x):
    if type(x) is SymBool:
        return mk_bool(z3.Not(x._z))
    if type(x) is str and T_OPEN in x:
        x = lift(x)
    if type(x) is SymStr:
        return mk_bool(x._z == z3.StringVal(''))
    if type(x) is SymInt:
        return mk_bool(x._z == 0)
    return not x


def zint(x):
    if type(x) is SymInt:
        return x._z
    if type(x) is SymBool:
        return z3.If(x._z, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def mk_int(z):
    z = _e.simp(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


_INTS = None


class SymInt(Sym):
    __slots__ = ('_z',)

    def __init__(self, z):
        object.__setattr__(self, '_z', z)

    @property
    def __class__(self):
        return int

    def _v(self):
        return val_to_py(eng().concretise(self._z))

    def _ok(self, o):
        return type(o) in (int, bool, SymInt, SymBool)

    def __bool__(self):
        return eng().branch(self._z != 0)

    def __int__(self):
        return self._v()

    __index__ = __int__

    def __float__(self):
        return float(self._v())

    def __hash__(self):
        return hash(self._v())

    def _cmp(self, o, f, native):
        if self._ok(o):
            return mk_bool(f(self._z, zint(o)))
        if type(o) is float:
            return native(self._v(), o)
        if type(o) is SymFloat:
            return native(self._v(), o)
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def _ar(self, o, f, native):
        if self._ok(o):
            return mk_int(f(self._z, zint(o)))
        if type(o) is float:
            return native(self._v(), o)
        return NotImplemented

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._ar(o, lambda a, b: b + a, lambda a, b: b + a)

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(-self._z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self._z < 0, -self._z, self._z))

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return mk_int(self._z / o)      # z3 Int div floors for o > 0
        return self._v() // int(o)

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mk_int(self._z % o)
        return self._v() % int(o)

    def __rfloordiv__(self, o):
        return o // self._v()

    def __rmod__(self, o):
        return o % self._v()

    def __truediv__(self, o):
        return self._v() / o

    def __rtruediv__(self, o):
        return o / self._v()

    def __and__(self, o):
        return self._v() & int(o)
    __rand__ = __and__

    def __or__(self, o):
        return self._v() | int(o)
    __ror__ = __or__

    def __round__(self, *a):
        return self if not a else round(self._v(), *a)

    def __trunc__(self):
        return self

    def __repr__(self):
        return repr(self._v())

    def __str__(self):
        return mk_str(z3.If(self._z < 0,
                            z3.Concat(z3.StringVal('-'),
                                      z3.IntToStr(-self._z)),
                            z3.IntToStr(self._z)))

    def __format__(self, spec):
        return format(self._v(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise _e.Unsupported('symbolic int reached a serialiser')


FP = z3.Float64()
RM = z3.RNE()


class SymFloat(Sym):
    __slots__ = ('_z',)

    def __init__(self, z):
        object.__setattr__(self, '_z', z)

    @property
    def __class__(self):
        return float

    def _v(self):
        return val_to_py(eng().concretise(self._z))

    @staticmethod
    def _zf(o):
        if type(o) is SymFloat:
            return o._z
        if type(o) in (float, int, bool):
            return z3.FPVal(float(o), FP)
        return None

    def _cmp(self, o, f):
        z = self._zf(o)
        if z is None:
            if type(o) in (SymInt, SymBool):
                z = z3.FPVal(float(int(o)), FP)
            else:
                return NotImplemented
        return mk_bool(f(self._z, z))

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __bool__(self):
        return eng().branch(z3.Not(z3.fpIsZero(self._z)))

    def __hash__(self):
        return hash(self._v())

    def __float__(self):
        return self._v()

    def __int__(self):
        return int(self._v())

    def __round__(self, *a):
        return round(self._v(), *a)

    def __add__(self, o):
        return self._v() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._v() - o

    def __mul__(self, o):
        return self._v() * o

    def __repr__(self):
        return repr(self._v())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self._v(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise _e.Unsupported('symbolic float reached a serialiser')


_EPOCH = _dt.datetime(2000, 1, 1)


class _SymTick(Sym):
    """datetime / timedelta as a number of microseconds."""
    __slots__ = ('_z',)

    def __init__(self, z):
        object.__setattr__(self, '_z', z)

    def _v(self):
        return self._from(val_to_py(eng().concretise(self._z)))

    def _tick(self, o):
        if type(o) is type(self):
            return o._z
        if isinstance(o, self._native):
            return z3.IntVal(self._to(o))
        return None

    def _cmp(self, o, f):
        z = self._tick(o)
        return NotImplemented if z is None else mk_bool(f(self._z, z))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self._v())

    def __repr__(self):
        return repr(self._v())

    def __str__(self):
        return str(self._v())

    def __format__(self, spec):
        return format(self._v(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise _e.Unsupported('symbolic time reached a serialiser')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self._v(), name)


class SymDatetime(_SymTick):
    __slots__ = ()
    _native = _dt.datetime

    @property
    def __class__(self):
        return _dt.datetime

    @staticmethod
    def _from(n):
        return _EPOCH + _dt.timedelta(microseconds=n)

    @staticmethod
    def _to(d):
        return (d - _EPOCH) // _dt.timedelta(microseconds=1)


class SymTimedelta(_SymTick):
    __slots__ = ()
    _native = _dt.timedelta

    @property
    def __class__(self):
        return _dt.timedelta

    @staticmethod
    def _from(n):
        return _dt.timedelta(microseconds=n)

    @staticmethod
    def _to(d):
        return d // _dt.timedelta(microseconds=1)

    def __bool__(self):
        return eng().branch(self._z != 0)


WHITESPACE = ' \t\n\r\x0b\x0c'
SPACES = ''.join(chr(c) for c in range(0x3001) if chr(c).isspace())


def _pieces(z):
    """The concatenation z as a flat list of terms."""
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in z.children() for p in _pieces(c)]
    return [z]


def _concat(ps):
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def zchar(c):
    return z3.CharVal(ord(c))


def _chars(z):
    """z as a list of one-character terms, or None if a length is unknown."""
    out = []
    for p in _pieces(z):
        if z3.is_string_value(p):
            out += [zstr(c) for c in z3_unescape(p.as_string())]
        elif p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            out.append(p)
        else:
            return None
    return out


def _unchars(cs):
    return mk_str(_concat(cs)) if cs else ''


def _found(cs, lit, order):
    """Case split on where ``lit`` occurs among the characters."""
    for i in order:
        conds = [simp_eq(c, l) for c, l in zip(cs[i:], lit)]
        if any(z3.is_false(c) for c in conds):
            continue
        if eng().branch(z3.And(conds) if len(conds) > 1 else conds[0]):
            return i
    return None


def simp_eq(c, ch):
    return _e.simp(c == zstr(ch))


#: set while a string is stored as a dictionary key that is known to differ
#: from the keys there (hook.op_store)
KEY_STORE = [False]


class SymStr(str):
    """A str whose content is a z3 string term.

    The underlying C-level content is a unique placeholder token, so results of
    C string building (join, %, format, f-strings) keep it and can be lifted
    back to a symbolic concatenation.
    """
    __slots__ = ('_z',)

    def __new__(cls, z):
        self = str.__new__(cls, '%s%d%s' % (T_OPEN, eng().token_for(z),
                                            T_CLOSE))
        object.__setattr__(self, '_z', z)
        return self

    @property
    def __class__(self):
        return str

    def _v(self):
        return val_to_py(eng().concretise(self._z))

    # comparisons
    def __eq__(self, o):
        if isinstance(o, str):
            return str_eq(self._z, lift_z(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, str):
            return mk_bool(self._z != lift_z(o))
        return NotImplemented

    def __lt__(self, o):
        if isinstance(o, str):
            return mk_bool(self._z < lift_z(o))
        return NotImplemented

    def __le__(self, o):
        if isinstance(o, str):
            return mk_bool(self._z <= lift_z(o))
        return NotImplemented

    def __gt__(self, o):
        if isinstance(o, str):
            return mk_bool(lift_z(o) < self._z)
        return NotImplemented

    def __ge__(self, o):
        if isinstance(o, str):
            return mk_bool(lift_z(o) <= self._z)
        return NotImplemented

    def __hash__(self):
        if KEY_STORE[0]:
            return id(self)
        return hash(self._v())

    def __len__(self):
        return val_to_py(eng().concretise(z3.Length(self._z)))

    def symlen(self):
        return mk_int(z3.Length(self._z))

    def __bool__(self):
        return eng().branch(self._z != z3.StringVal(''))

    def __str__(self):
        return self

    def __repr__(self):
        # quoting/escaping of special characters is not modelled: only used
        # in messages
        return "'%s'" % str.__str__(self)

    def __format__(self, spec):
        if spec:
            return format(self._v(), spec)
        return str.__str__(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise _e.Unsupported('symbolic str reached a serialiser')

    # building
    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_str(z3.Concat(self._z, lift_z(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_str(z3.Concat(lift_z(o), self._z))

    def __mul__(self, n):
        n = int(n)
        if n <= 0:
            return ''
        return self if n == 1 else mk_str(z3.Concat(*([self._z] * n)))

    __rmul__ = __mul__

    def __mod__(self, args):
        return lift(self._v() % args)

    def __rmod__(self, fmt):
        if isinstance(fmt, str):
            return lift(str.__mod__(str.__str__(fmt), self)
                        if type(fmt) is not SymStr else fmt._v() % (self,))
        return NotImplemented

    def __contains__(self, sub):
        if not isinstance(sub, str):
            raise TypeError("'in <string>' requires string as left operand")
        return eng().branch(z3.Contains(self._z, lift_z(sub)))

    def symcontains(self, sub):
        return mk_bool(z3.Contains(self._z, lift_z(sub)))

    # indexing
    def __getitem__(self, i):
        n = z3.Length(self._z)
        if type(i) is slice:
            if i.step not in (None, 1):
                return self._v()[i]

            def norm(k, default):
                if k is None:
                    return default
                k = zint(k)
                k = z3.If(k < 0, k + n, k)
                return z3.If(k < 0, z3.IntVal(0), z3.If(k > n, n, k))
            a = norm(i.start, z3.IntVal(0))
            b = norm(i.stop, n)
            return mk_str(z3.If(b > a, z3.SubString(self._z, a, b - a),
                                z3.StringVal('')))
        k = zint(i)
        k = z3.If(k < 0, k + n, k)
        if not eng().branch(z3.And(k >= 0, k < n)):
            raise IndexError('string index out of range')
        return mk_str(z3.SubString(self._z, k, z3.IntVal(1)))

    def __iter__(self):
        n = len(self)
        return iter([self[i] for i in range(n)])

    # searching
    def _affix(self, p, f):
        if isinstance(p, tuple):
            return mk_bool(z3.Or([f(lift_z(q)) for q in p])) if p else False
        if not isinstance(p, str):
            raise TypeError('startswith/endswith first arg must be str')
        return mk_bool(f(lift_z(p)))

    def startswith(self, p, *rng):
        s = self[rng[0]:(rng[1] if len(rng) > 1 else None)] if rng else self
        if type(s) is not SymStr:
            return sym_method(s, 'startswith', p)
        return self._affix(p, lambda q: z3.PrefixOf(q, s._z))

    def endswith(self, p, *rng):
        s = self[rng[0]:(rng[1] if len(rng) > 1 else None)] if rng else self
        if type(s) is not SymStr:
            return sym_method(s, 'endswith', p)
        return self._affix(p, lambda q: z3.SuffixOf(q, s._z))

    def find(self, sub, *rng):
        if rng and not (len(rng) == 1 and type(rng[0]) is int
                        and rng[0] >= 0):
            return self._v().find(sub, *rng)
        off = rng[0] if rng else 0
        return mk_int(z3.IndexOf(self._z, lift_z(sub), z3.IntVal(off)))

    def index(self, sub, *rng):
        r = self.find(sub, *rng)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def rfind(self, sub, *rng):
        if rng:
            return self._v().rfind(sub, *rng)
        return mk_int(z3.LastIndexOf(self._z, lift_z(sub)))

    def rindex(self, sub, *rng):
        r = self.rfind(sub, *rng)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def partition(self, sep):
        z, q = self._z, lift_z(sep)
        lit = z3_unescape(q.as_string()) if z3.is_string_value(q) else None
        if lit:
            cs = _chars(z)
            if cs is not None:
                i = _found(cs, lit, range(len(cs) - len(lit) + 1))
                if i is None:
                    return (self, '', '')
                return (_unchars(cs[:i]), sep, _unchars(cs[i + len(lit):]))
            # a literal at the front that contains the separator decides
            ps = _pieces(z)
            if z3.is_string_value(ps[0]):
                c = z3_unescape(ps[0].as_string())
                if lit in c:
                    h, s, t = c.partition(lit)
                    return h, s, mk_str(_concat([zstr(t)] + ps[1:]))
        if not eng().branch(z3.Contains(z, q)):
            return (self, '', '')
        if lit:
            h, t = eng().fresh_str(), eng().fresh_str()
            eng().assume(z == z3.Concat(h, q, t))
            eng().assume(z3.Not(z3.Contains(
                h if len(lit) == 1 else z3.Concat(h, zstr(lit[:-1])), q)))
            return mk_str(h), sep, mk_str(t)
        i = z3.IndexOf(z, q, z3.IntVal(0))
        j = i + z3.Length(q)
        return (mk_str(z3.SubString(z, z3.IntVal(0), i)), sep,
                mk_str(z3.SubString(z, j, z3.Length(z) - j)))

    def rpartition(self, sep):
        z, q = self._z, lift_z(sep)
        lit = z3_unescape(q.as_string()) if z3.is_string_value(q) else None
        if lit:
            cs = _chars(z)
            if cs is not None:
                i = _found(cs, lit, range(len(cs) - len(lit), -1, -1))
                if i is None:
                    return ('', '', self)
                return (_unchars(cs[:i]), sep, _unchars(cs[i + len(lit):]))
            ps = _pieces(z)
            if z3.is_string_value(ps[-1]):
                c = z3_unescape(ps[-1].as_string())
                if lit in c:
                    h, s, t = c.rpartition(lit)
                    return mk_str(_concat(ps[:-1] + [zstr(h)])), s, t
        if not eng().branch(z3.Contains(z, q)):
            return ('', '', self)
        if lit:
            h, t = eng().fresh_str(), eng().fresh_str()
            eng().assume(z == z3.Concat(h, q, t))
            eng().assume(z3.Not(z3.Contains(
                t if len(lit) == 1 else z3.Concat(zstr(lit[1:]), t), q)))
            return mk_str(h), sep, mk_str(t)
        i = z3.LastIndexOf(z, q)
        j = i + z3.Length(q)
        return (mk_str(z3.SubString(z, z3.IntVal(0), i)), sep,
                mk_str(z3.SubString(z, j, z3.Length(z) - j)))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._v().split(sep, maxsplit)
        out = []
        rest = self
        while maxsplit != 0:
            if type(rest) is not SymStr:
                return out + sym_method(rest, 'split', sep, maxsplit)
            h, s, t = rest.partition(sep)
            if s == '':
                break
            out.append(h)
            rest = t
            maxsplit -= 1
            if len(out) > 12:
                eng()._raise(_e.PathTruncated('split into more than 12'))
        out.append(rest)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._v().rsplit(sep, maxsplit)
        if maxsplit == -1 and len(sep) == 1:
            return self.split(sep)
        out = []
        rest = self
        while maxsplit != 0:
            if type(rest) is not SymStr:
                return sym_method(rest, 'rsplit', sep, maxsplit) + out
            h, s, t = rest.rpartition(sep)
            if s == '':
                break
            out.insert(0, t)
            rest = h
            maxsplit -= 1
            if len(out) > 12:
                eng()._raise(_e.PathTruncated('split into more than 12'))
        out.insert(0, rest)
        return out

    def _one_of(self, z, chars):
        return z3.Or([z == zstr(c) for c in chars])

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def _strip(self, chars, left, right):
        if type(chars) is SymStr:
            chars = chars._v()
        ws = SPACES if chars is None else chars
        if not ws:
            return self
        vec = _chars(self._z)
        if vec is not None:
            def is_ws(c):
                if z3.is_string_value(c):
                    return z3_unescape(c.as_string()) in ws
                return eng().branch(self._one_of(c, ws))
            while left and vec and is_ws(vec[0]):
                vec = vec[1:]
            while right and vec and is_ws(vec[-1]):
                vec = vec[:-1]
            return _unchars(vec)
        # literal text at the ends
        ps = _pieces(self._z)
        while left and ps and z3.is_string_value(ps[0]):
            t = z3_unescape(ps[0].as_string()).lstrip(ws)
            if t:
                ps[0], left = zstr(t), False
            else:
                ps = ps[1:]
        while right and ps and z3.is_string_value(ps[-1]):
            t = z3_unescape(ps[-1].as_string()).rstrip(ws)
            if t:
                ps[-1], right = zstr(t), False
            else:
                ps = ps[:-1]
        if not ps:
            return ''
        z = _concat(ps)
        if not (left or right):
            return mk_str(z)
        w = _regex.chars_re(ws)
        n = _regex.chars_re(ws, False)
        full = _regex.FULL
        ends = ([z3.Concat(w, full)] if left else []) + \
            ([z3.Concat(full, w)] if right else [])
        if not eng().branch(z3.InRe(z, ends[0] if len(ends) == 1 else
                                    z3.Union(*ends))):
            return mk_str(z)
        if not eng().branch(z3.InRe(z, z3.Concat(full, n, full))):
            return ''
        parts = []
        if left:
            h = eng().fresh_str()
            eng().assume(z3.InRe(h, z3.Star(w)))
            parts.append(h)
        m = eng().fresh_str()
        parts.append(m)
        if right:
            t = eng().fresh_str()
            eng().assume(z3.InRe(t, z3.Star(w)))
            parts.append(t)
        core = z3.Concat(n, full) if left and not right else \
            z3.Concat(full, n) if right and not left else \
            z3.Union(n, z3.Concat(n, full, n))
        eng().assume(z3.InRe(m, core))
        eng().assume(z == z3.Concat(*parts))
        return mk_str(m)

    def _mapchars(self, f):
        """Per character map on ASCII letters (others are kept: strings with
        non-ASCII characters are case split)."""
        cs = _chars(self._z)
        if cs is not None:
            return self._mapvector(cs, f)
        n = len(self)
        if n == 0:
            return ''
        parts = []
        for i in range(n):
            c = z3.SubString(self._z, i, 1)
            if not eng().branch(z3.StrToCode(c) < 128):
                return getattr(self._v(), f)()
            parts.append(c)
        lo, hi, d = (65, 90, 32) if f == 'lower' else (97, 122, -32)
        out = []
        for c in parts:
            k = z3.StrToCode(c)
            out.append(z3.If(z3.And(k >= lo, k <= hi),
                             z3.StrFromCode(k + d), c))
        return mk_str(out[0] if n == 1 else z3.Concat(*out))

    def _mapvector(self, cs, f):
        lo, hi, d = ('A', 'Z', 32) if f == 'lower' else ('a', 'z', -32)
        out = []
        for c in cs:
            if z3.is_string_value(c):
                out.append(zstr(getattr(z3_unescape(c.as_string()), f)()))
                continue
            u = c.arg(0)
            if not eng().branch(u <= zchar('\x7f')):
                return getattr(self._v(), f)()
            n = eng().fresh_char()
            bv = z3.CharToBv(u)
            eng().assume(z3.CharToBv(n) == z3.If(
                z3.And(zchar(lo) <= u, u <= zchar(hi)), bv + d, bv))
            out.append(z3.Unit(n))
        return _unchars(out)

    def lower(self):
        return self._mapchars('lower')

    def casefold(self):
        return self._mapchars('lower')

    def upper(self):
        return self._mapchars('upper')

    def removeprefix(self, p):
        z, q = self._z, lift_z(p)
        return mk_str(z3.If(z3.PrefixOf(q, z), z3.SubString(
            z, z3.Length(q), z3.Length(z) - z3.Length(q)), z))

    def removesuffix(self, p):
        z, q = self._z, lift_z(p)
        return mk_str(z3.If(
            z3.And(z3.SuffixOf(q, z), z3.Length(q) > 0),
            z3.SubString(z, 0, z3.Length(z) - z3.Length(q)), z))

    def replace(self, a, b, count=-1):
        if count == 1:
            return mk_str(z3.Replace(self._z, lift_z(a), lift_z(b)))
        parts = self.split(a)
        return sym_method(b, 'join', parts)

    def join(self, it):
        items = list(it)
        return self._joined(items)

    def _joined(self, items):
        if not items:
            return ''
        zs = []
        for k, x in enumerate(items):
            if not isinstance(x, str):
                raise TypeError('sequence item %d: expected str instance, '
                                '%s found' % (k, type(x).__name__))
            if k:
                zs.append(self._z)
            zs.append(lift_z(x))
        return mk_str(zs[0] if len(zs) == 1 else z3.Concat(*zs))

    def isspace(self):
        return self._v().isspace()


def _fallback(name):
    def meth(self, *a, **k):
        return lift(getattr(self._v(), name)(*a, **k))
    meth.__name__ = name
    return meth


for _n in dir(str):
    if _n.startswith('__') or _n in SymStr.__dict__ or _n == 'maketrans':
        continue
    setattr(SymStr, _n, _fallback(_n))

STR_METHODS = frozenset(n for n in dir(str) if not n.startswith('__'))


def sym_method(obj, name, *a, **k):
    """Call a str method on a concrete str with possibly symbolic arguments."""
    if type(obj) is str:
        if T_OPEN in obj:
            return getattr(lift(obj), name)(*a, **k)
        if name == 'join' and len(a) == 1:
            items = list(a[0])
            if any(is_symbolic(x) for x in items):
                zs = []
                for i, x in enumerate(items):
                    if not isinstance(x, str):
                        raise TypeError('sequence item %d: expected str '
                                        'instance, %s found'
                                        % (i, type(x).__name__))
                    if i and obj:
                        zs.append(zstr(obj))
                    zs.append(lift_z(x))
                return mk_str(zs[0] if len(zs) == 1 else z3.Concat(*zs))
            return obj.join(items)
        if any(is_symbolic(x) or (type(x) is tuple and
                                  any(is_symbolic(y) for y in x))
               for x in a):
            if name in ('format', 'format_map'):
                return lift(getattr(obj, name)(*a, **k))
            # give the receiver a term of its own so that the symbolic
            # implementation is used
            return getattr(SymStr(zstr(obj)), name)(*a, **k)
        if name == 'format' and k:
            return lift(obj.format(*a, **k))
    return getattr(obj, name)(*a, **k)
