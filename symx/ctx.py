"""What a harness sees: symbolic inputs, or recorded concrete ones."""
import datetime

import os

import z3

from . import engine as E
from . import values as V
from . import logic as L

_EPOCH = V._EPOCH


class Outcome(object):
    """Result of a call into the code under test."""
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def exc_name(self):
        return None if self.ok else type(self.exc).__name__

    def raised(self, *types):
        if self.ok:
            return False
        names = [c.__name__ for c in type(self.exc).__mro__]
        return any((isinstance(t, str) and t in names) or
                   (not isinstance(t, str) and isinstance(self.exc, t))
                   for t in types)


def clear_tb(e):
    e.__traceback__ = None
    return e


class BaseCtx(object):
    symbolic = False

    def call(self, f, *a, **k):
        try:
            return Outcome(True, f(*a, **k))
        except Exception as e:
            self._after_call()
            return Outcome(False, exc=clear_tb(e))

    def _after_call(self):
        pass


LXML = bool(os.environ.get('SYMX_LXML'))


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng, res, harness):
        self.eng, self.res = eng, res
        self.harness = harness
        self.inputs = {}         # name -> (kind, z3 expr)
        self.observations = []

    def _after_call(self):
        self.eng._abort_if_poisoned()

    def _new(self, name, kind, expr):
        if name in self.inputs:
            raise RuntimeError('duplicate input %r' % name)
        self.inputs[name] = (kind, expr)

    def bool(self, name):
        z = z3.Bool(name)
        self._new(name, 'bool', z)
        return V.SymBool(z)

    def int(self, name, lo=None, hi=None):
        z = z3.Int(name)
        self._new(name, 'int', z)
        if lo is not None:
            self.eng.assume(z >= lo)
        if hi is not None:
            self.eng.assume(z <= hi)
        return V.SymInt(z)

    def _vector(self, name, maxlen, minlen, chars):
        """A string as a vector of characters (its length is case split)."""
        k = z3.Int(name + '!len')
        self.eng.assume(z3.And(k >= minlen, k <= maxlen))
        n = V.val_to_py(self.eng.concretise(k, maxlen + 2))
        cs = [z3.Const('%s!%d' % (name, i), z3.CharSort()) for i in range(n)]
        z = V._concat([z3.Unit(c) for c in cs]) if n else V.zstr('')
        self._new(name, 'str', z)
        for c in cs:
            if chars is not None:
                self.eng.assume(z3.Or([
                    z3.And(V.zchar(r[0]) <= c, c <= V.zchar(r[-1]))
                    for r in chars]))
        return V.mk_str(z)

    def str(self, name, domain=None, maxlen=None, minlen=0, chars=None,
            vector=False):
        if vector:
            return self._vector(name, maxlen, minlen, chars)
        z = z3.String(name)
        self._new(name, 'str', z)
        if domain is not None:
            self.eng.assume(z3.Or([z == V.zstr(d) for d in domain]))
        if maxlen is not None:
            self.eng.assume(z3.Length(z) <= maxlen)
        if minlen:
            self.eng.assume(z3.Length(z) >= minlen)
        if chars is None and LXML:
            chars = [(' ', '~')]     # lxml takes what XML allows
        if chars is not None:
            self.eng.assume(z3.InRe(z, z3.Star(_charset(chars))))
        return V.SymStr(z)

    def float(self, name):
        z = z3.Const(name, V.FP)
        self._new(name, 'float', z)
        return V.SymFloat(z)

    def datetime(self, name):
        z = z3.Int(name)
        self._new(name, 'datetime', z)
        self.eng.assume(z3.And(z >= 0, z <= 10 ** 15))
        return V.SymDatetime(z)

    def timedelta(self, name):
        z = z3.Int(name)
        self._new(name, 'timedelta', z)
        self.eng.assume(z3.And(z >= -10 ** 15, z <= 10 ** 15))
        return V.SymTimedelta(z)

    def choice(self, name, options):
        """A symbolic index, case split by the solver; returns the option."""
        options = list(options)
        z = z3.Int(name)
        self._new(name, 'int', z)
        self.eng.assume(z3.And(z >= 0, z < len(options)))
        return options[V.val_to_py(self.eng.concretise(
            z, len(options) + 2))]

    def assume(self, c):
        c = L.b(c)
        if type(c) is V.SymBool:
            self.eng.assume(c._z)
        elif not c:
            self.eng._raise(E.PathPruned())

    def decide(self, c):
        """Fork on an oracle condition."""
        return bool(L.b(c))

    def check(self, label, c):
        c = L.b(c)
        z = V.zbool(c)
        m = self.eng.prove(z)
        self.res.reached.append(label)
        if m is not None:
            self.res.violations.append((label, self.concrete_inputs(m)))
            # keep exploring only the values on which it held
            self.eng.assume(z)

    def fail(self, label):
        self.check(label, False)

    def reach(self, label):
        self.eng._abort_if_poisoned()
        self.res.reached.append(label)

    def observe(self, label, value):
        self.observations.append((label, snapshot(value)))

    def concrete_inputs(self, m):
        out = {}
        for name, (kind, z) in self.inputs.items():
            v = m.eval(z, model_completion=True)
            py = V.val_to_py(v)
            if kind == 'float':
                py = py.hex()
            out[name] = [kind, py]
        return out

    def finish(self):
        """Concrete instance of this path for validation."""
        m = self.eng.get_model()
        self.res.inputs = self.concrete_inputs(m)
        self.res.observations = [(l, _eval_obs(v, m))
                                 for l, v in self.observations]


def _charset(chars):
    """chars: list of (lo, hi) or single characters."""
    rs = []
    for c in chars:
        if isinstance(c, tuple):
            rs.append(z3.Range(V.zstr(c[0]), V.zstr(c[1])))
        else:
            rs.append(z3.Re(V.zstr(c)))
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def _eval_obs(v, m):
    if type(v) is str and V.T_OPEN in v:
        v = V.lift(v)
    t = type(v)
    if t in (V.SymBool, V.SymInt, V.SymStr):
        return V.val_to_py(m.eval(v._z, model_completion=True))
    if t is V.SymFloat:
        return V.val_to_py(m.eval(v._z, model_completion=True)).hex()
    if t in (V.SymDatetime, V.SymTimedelta):
        return repr(t._from(V.val_to_py(m.eval(v._z, model_completion=True))))
    return canon(v, lambda x: _eval_obs(x, m))


def canon(v, rec=None):
    rec = rec or canon
    if isinstance(v, (list, tuple)):
        return [rec(x) for x in list.__iter__(v)] if isinstance(v, list) \
            else [rec(x) for x in v]
    if isinstance(v, dict):
        return [[rec(k), rec(x)] for k, x in v.items()]
    if isinstance(v, float):
        return v.hex()
    if v is None or isinstance(v, (bool, int, str)):
        return v
    return repr(v)


class ConcreteCtx(BaseCtx):
    """Replays recorded inputs on the unmodified code."""

    def __init__(self, inputs):
        self.inputs = inputs
        self.observations = []
        self.failed = []
        self.reached = []

    def _get(self, name, default):
        v = self.inputs.get(name)
        return default if v is None else v[1]

    def bool(self, name):
        return bool(self._get(name, False))

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    def str(self, name, domain=None, maxlen=None, minlen=0, chars=None,
            vector=False):
        d = domain[0] if domain else 'x' * minlen
        return self._get(name, d)

    def float(self, name):
        v = self._get(name, '0x0.0p+0')
        return float.fromhex(v)

    def datetime(self, name):
        return _EPOCH + datetime.timedelta(
            microseconds=self._get(name, 0))

    def timedelta(self, name):
        return datetime.timedelta(microseconds=self._get(name, 0))

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, 0)]

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def decide(self, c):
        return bool(c)

    def check(self, label, c):
        self.reached.append(label)
        if not L.b(c):
            self.failed.append(label)
            raise Stop()

    def fail(self, label):
        self.check(label, False)

    def reach(self, label):
        self.reached.append(label)

    def observe(self, label, value):
        self.observations.append((label, canon(value)))


def snapshot(value):
    if type(value) is list:
        return [snapshot(v) for v in value]
    if type(value) is tuple:
        return tuple(snapshot(v) for v in value)
    if type(value) is dict:
        return {k: snapshot(v) for k, v in value.items()}
    return value


class Stop(BaseException):
    pass


class AssumptionFailed(BaseException):
    pass
