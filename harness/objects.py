"""What an object of the repository says through its public properties."""
import sys
import types

from symx.logic import And, Eq

#: read-only views on how an object works, not on what it holds
SKIP = ('functionMap', 'attributeValueFactory', 'ruleCombiningAlgFactory',
        'policyCombiningAlgFactory', 'loadFunctionFromId', 'ctxHandler',
        'attributeSelector_', 'matches_')
PLAIN = (str, int, float, bool, bytes, type(None))
_NAMES = {}


def names_of(cls):
    r = _NAMES.get(cls)
    if r is None:
        r = _NAMES[cls] = sorted(set(
            n for c in cls.__mro__ for n, v in c.__dict__.items()
            if isinstance(v, property) and not n.startswith('_') and
            n not in SKIP))
    return r


def from_repo(o):
    # (classes made at run time may name any module as theirs)
    return any(str(getattr(c, '__module__', '')).startswith('ndg')
               for c in type(o).__mro__)


def content(o, depth=12):
    """Nested lists of plain (or symbolic) leaves."""
    if depth == 0:
        return '...'
    if isinstance(o, type):
        return 'class ' + o.__name__
    if isinstance(o, (list, tuple)):
        head = []
        et = getattr(o, 'elementType', None)
        if isinstance(et, type):
            head = ['of ' + et.__name__]
        return head + [content(x, depth - 1) for x in o]
    if isinstance(o, dict):
        return [[content(k, depth - 1), content(v, depth - 1)]
                for k, v in o.items()]
    if from_repo(o) and not isinstance(o, types.FunctionType):
        out = [type(o).__name__]
        for n in names_of(type(o)):
            try:
                v = getattr(o, n)
            except (NotImplementedError, AttributeError):
                continue
            out.append([n, content(v, depth - 1)])
        return out
    return o


def same(x, y):
    """Structural equality of two contents as a (symbolic) condition."""
    if isinstance(x, list) or isinstance(y, list):
        if not (isinstance(x, list) and isinstance(y, list)) or \
                len(x) != len(y):
            return False
        return And([same(p, q) for p, q in zip(x, y)])
    if x is y:
        return True
    if x is None or y is None:
        return False
    return Eq(x, y)


def difference(x, y, path='', f=None):
    """Where two (concrete) contents differ, for messages."""
    f = f or sys.stderr
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        for i, (p, q) in enumerate(zip(x, y)):
            difference(p, q, path + '/' + (
                str(x[0]) if i and isinstance(x[0], str) else str(i)), f)
    elif x is not y and x != y:
        f.write('%s: %r / %r\n' % (path, x, y))
