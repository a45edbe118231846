"""C25 vetted and restricted dictionaries admit only vetted entries."""
from harness.common import *
from symx.hook import dict_store, op_get, op_subscr

ASSUMPTIONS = ['filters depend on the key or value alone']


class Pairs(object):
    """A mapping given to update()."""
    def __init__(self, pairs):
        self.pairs = pairs

    def keys(self):
        return [k for k, _ in self.pairs]

    def __getitem__(self, key):
        return [v for k, v in self.pairs if k is key][-1]


class Refused(Exception):
    pass


def lookup(ctx, model, key):
    """Index of a key in an association list, or None (forks)."""
    for i, (k, _) in enumerate(model):
        if ctx.decide(Eq(k, key)):
            return i
    return None


def vetted(ctx, ops, setters):
    """A history of writes, removals and look-ups."""
    from ndg.xacml.utils import VettedDict
    how = ctx.choice('filters', ['quiet', 'truthy', 'raising'])
    bad_key = ctx.str('bad-key')
    least = ctx.int('least')

    def verdict(ok):
        if how == 'quiet':
            return ok
        if ctx.decide(ok):
            return 'yes' if how == 'truthy' else True
        if how == 'raising':
            raise Refused()
        return '' if how == 'truthy' else False

    def key_ok(k):
        return verdict(Not(Eq(k, bad_key)))

    def val_ok(v):
        return verdict(v >= least)
    d = VettedDict(key_ok, val_ok)
    model = []
    for s in range(ops):
        tag = 's%d-' % s
        op = ctx.choice(tag + 'op', setters if s < ops - 1 else setters + [
            'del', 'pop', 'pop-default', 'clear', 'get', 'get-default',
            'item', 'in', 'setdefault', 'popitem'])
        n = 2 if op.startswith('update') else 1
        keys = [ctx.str('%sk%d' % (tag, i)) for i in range(n)]
        vals = [ctx.int('%sv%d' % (tag, i)) for i in range(n)]
        before = list(model)
        k, v = keys[0], vals[0]
        if op in ('set', 'setdefault') or op.startswith('update'):
            error = False
            for x, y in zip(keys, vals):
                at = lookup(ctx, model, x)
                if op == 'setdefault' and at is not None:
                    break
                if not ctx.decide(And(Not(Eq(x, bad_key)), y >= least)):
                    error = how == 'raising'
                    if error:
                        break
                elif at is None:
                    model.append((x, y))
                else:
                    model[at] = (model[at][0], y)
            if op == 'set':
                out = ctx.call(d.__setitem__, k, v)
            elif op == 'setdefault':
                out = ctx.call(d.setdefault, k, v)
            elif op == 'update-pairs':
                out = ctx.call(d.update, list(zip(keys, vals)))
            else:
                # a mapping has each key once
                ctx.assume(Not(Eq(*keys)))
                out = ctx.call(d.update, Pairs(list(zip(keys, vals))))
            ctx.check('refusal-is-passed-on', out.raised('Refused') if error
                      else out.ok)
            if op == 'setdefault' and not error:
                at = lookup(ctx, model, k)
                ctx.check('setdefault-gives-the-value', Eq(
                    out.value, v if at is None else model[at][1]))
        elif op == 'clear':
            out = ctx.call(d.clear)
            model = []
        elif op == 'popitem':
            out = ctx.call(d.popitem)
            if not before:
                ctx.check('empty', out.raised(KeyError))
            else:
                ctx.check('popped', Or([And(Eq(out.value[0], x),
                                            Eq(out.value[1], y))
                                        for x, y in before]))
                model.pop(lookup(ctx, model, out.value[0]))
        else:
            at = lookup(ctx, model, k)
            fallback = ctx.int(tag + 'default')
            out = {'del': lambda: ctx.call(d.__delitem__, k),
                   'pop': lambda: ctx.call(d.pop, k),
                   'pop-default': lambda: ctx.call(d.pop, k, fallback),
                   'get': lambda: ctx.call(d.get, k),
                   'get-default': lambda: ctx.call(d.get, k, fallback),
                   'item': lambda: ctx.call(d.__getitem__, k),
                   'in': lambda: ctx.call(d.__contains__, k)}[op]()
            if op == 'in':
                ctx.check('in', out.ok and Iff(out.value, at is not None))
            elif at is not None:
                ctx.check('found', out.ok and (
                    op == 'del' or Eq(out.value, model[at][1])))
                if op in ('del', 'pop', 'pop-default'):
                    model.pop(at)
            elif op in ('get-default', 'pop-default'):
                ctx.check('default', out.ok and Eq(out.value, fallback))
            elif op == 'get':
                ctx.check('no-default', out.ok and out.value is None)
            else:
                ctx.check('not-found-is-a-key-error', out.raised(KeyError))
        ctx.observe(tag, [op, out.exc_name])
        items = d.items()
        ctx.check('holds-what-was-admitted', And(
            [len(items) == len(model), len(d) == len(model)] +
            [And(Eq(a, x), Eq(b_, y))
             for (a, b_), (x, y) in zip(items, model)]))
        ctx.check('only-admitted', And(
            [And(Not(Eq(x, bad_key)), y >= least) for x, y in items]))
        ctx.check('views-agree', And(
            [Eq(list(d.keys()), [x for x, _ in model]),
             Eq(list(d.values()), [y for _, y in model]),
             Eq(list(d), [x for x, _ in model])]))


def separate(ctx, kind):
    """Dictionaries of a kind share neither entries nor filters."""
    from ndg.xacml.utils import RestrictedKeyNamesDict, VettedDict
    kind = ctx.choice('kind', kind)
    late = ctx.choice('made', ['both-first', 'one-later'])
    least = [ctx.int('least%d' % i) for i in range(2)]
    start = [ctx.int('start%d' % i) for i in range(2)]

    def new(i):
        if kind == 'vetted':
            return VettedDict(lambda k: True, lambda v: v >= least[i])
        return RestrictedKeyNamesDict({NAMES[i]: start[i], 'common': 0})
    ds = [new(0), None if late == 'one-later' else new(1)]
    models = [{}, {}] if kind == 'vetted' else [
        {NAMES[i]: start[i], 'common': 0} for i in range(2)]
    for s in range(3):
        which = ctx.choice('which%d' % s, [0, 1] if s else [0])
        if ds[which] is None:
            ds[which] = new(which)
        d, m = ds[which], models[which]
        op = ctx.choice('op%d' % s, [['set'], ['set', 'update'], [
            'set', 'setdefault', 'clear']][s])
        if op == 'clear':
            d.clear()
            m.clear()
        else:
            k = ctx.choice('key%d' % s, [NAMES[0], 'common'])
            v = ctx.int('value%d' % s)
            out = {'set': lambda: ctx.call(d.__setitem__, k, v),
                   'update': lambda: ctx.call(d.update, {k: v}),
                   'setdefault': lambda: ctx.call(d.setdefault, k, v)}[op]()
            if op == 'setdefault' and k in m:
                pass
            elif kind == 'vetted':
                if ctx.decide(v >= least[which]):
                    m[k] = v
            elif k in (NAMES[which], 'common'):
                m[k] = v
            else:
                ctx.check('names-of-its-own', out.raised(KeyError))
        for e, model in zip(ds, models):
            if e is None:
                continue
            items = list(e.items())
            ctx.check('entries-of-its-own', And(
                [sorted(x for x, _ in items) == sorted(model)] +
                [Eq(y, model[x]) for x, y in items if x in model]))
    if ds[1] is None:
        items = new(1).items()
        ctx.check('entries-of-its-own', len(items) == len(models[1]))


def arguments(ctx):
    """Filters must be given, both, and be callable."""
    from ndg.xacml.utils import VettedDict
    n = ctx.choice('n', [0, 1, 2, 3])
    kinds = [ctx.choice('kind%d' % i, ['function', 'class', 'none', 'str',
                                       'list']) for i in range(n)]
    args = [{'function': lambda x: True, 'class': str, 'none': None,
             'str': 'x', 'list': []}[k] for k in kinds]
    out = ctx.call(VettedDict, *args)
    ctx.check('accepted-iff-two-callables', out.ok == (
        n == 2 and all(k in ('function', 'class') for k in kinds)))
    ctx.check('else-a-type-error', out.ok or out.raised(TypeError))


# ------------------------------------------------------- restricted names
NAMES = ['alpha', 'beta']


def dict_of(keys, vals):
    d = {}
    for k, v in zip(keys, vals):
        dict_store(d, k, v)
    return d


def restricted(ctx, ops, first):
    """Writes of known and unknown names by every operation."""
    from ndg.xacml.utils import RestrictedKeyNamesDict
    vals = [ctx.int('start%d' % i) for i in range(2)]
    by = ctx.choice('made', ['dict', 'pairs', 'keywords'])
    start = dict(zip(NAMES, vals))
    d = RestrictedKeyNamesDict(start) if by == 'dict' else \
        RestrictedKeyNamesDict(list(start.items())) if by == 'pairs' else \
        RestrictedKeyNamesDict(**start)
    model = dict(start)
    for s in range(ops):
        tag = 's%d-' % s
        op = ctx.choice(tag + 'op', first if s < ops - 1 else [
                                     'set', 'update', 'update-keywords',
                                     'update-both', 'setdefault', 'ior',
                                     'del', 'get', 'item', 'pop'])
        n = 2 if 'update' in op or op == 'ior' else 1
        keys = []
        for i in range(n):
            k = ctx.choice('%sk%d' % (tag, i), NAMES + ['other'])
            if k == 'other':
                k = ctx.str('%sname%d' % (tag, i)) \
                    if 'keywords' not in op else 'gamma'
                if k != 'gamma':
                    ctx.assume(Not(In(k, NAMES)))
            keys.append(k)
        new = [ctx.int('%sv%d' % (tag, i)) for i in range(n)]
        known = [any(k is x for x in NAMES) for k in keys]
        before = dict(model)
        if n == 2 and keys[0] == keys[1]:
            keys, new, known = keys[:1], new[:1], known[:1]
        if op == 'set':
            out = ctx.call(d.__setitem__, keys[0], new[0])
        elif op in ('update', 'ior'):
            src = dict_of(keys, new)
            if op == 'update':
                out = ctx.call(d.update, src)
            else:
                def ior(x):
                    x |= src
                    return x
                out = ctx.call(ior, d)
                ctx.check('in-place', not out.ok or out.value is d)
        elif op == 'update-keywords':
            out = ctx.call(lambda: d.update({}, **dict(zip(keys, new))))
        elif op == 'update-both':
            if len(keys) == 2 and known[1]:
                out = ctx.call(lambda: d.update(
                    dict_of(keys[:1], new), **{keys[1]: new[1]}))
            else:
                out = ctx.call(d.update, dict_of(keys, new))
        elif op == 'setdefault':
            out = ctx.call(d.setdefault, keys[0], new[0])
        else:
            out = {'del': lambda: ctx.call(op_get, d, '__delitem__', keys[0]),
                   'get': lambda: ctx.call(op_get, d, 'get', keys[0]),
                   'item': lambda: ctx.call(op_subscr, d, keys[0]),
                   'pop': lambda: ctx.call(op_get, d, 'pop', keys[0])}[op]()
        ctx.observe(tag, [op, out.exc_name, sorted(
            k for k in d if k in NAMES)])
        if op in ('del', 'get', 'item', 'pop'):
            there = known[0] and keys[0] in model
            if op == 'get':
                ctx.check('get', out.ok and (
                    Eq(out.value, model[keys[0]]) if there else
                    out.value is None))
            else:
                ctx.check('found-iff-there', out.ok if there else
                          out.raised(KeyError))
                if there and op == 'del' or there and op == 'pop':
                    del model[keys[0]]
        elif not all(known):
            ctx.check('unknown-name-is-a-key-error', out.raised(KeyError))
        else:
            ctx.check('known-names-accepted', out.ok)
            for k, v in zip(keys, new):
                if op != 'setdefault' or k not in model:
                    model[k] = v
        ctx.check('only-known-names', len(d) == len(model) and all(
            any(k is x for x in NAMES) for k in d))
        ctx.check('holds-what-was-written', And(
            [k in d and Eq(dict.__getitem__(d, k), model[k])
             for k in model]))


# ------------------------------------------------- registries of the code
def registries(ctx, which):
    """The registries built on vetted dictionaries."""
    from ndg.xacml.core import XacmlCoreBase
    from ndg.xacml.core.attributevalue import (
        AttributeValue, AttributeValueClassFactory, AttributeValueClassMap)
    from ndg.xacml.core.functions import AbstractFunction, FunctionMap
    from ndg.xacml.core.target import Target
    from ndg.xacml.parsers.etree.attributevaluereader import (
        ETreeDataTypeReaderBase, ETreeDataTypeReaderClassMap)
    from ndg.xacml.parsers.etree.factory import ETreeReaderClassMap
    from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
    from ndg.xacml.parsers.etree.targetreader import TargetReader
    name = ctx.choice('registry', which)
    bases = {'values': (AttributeValueClassMap, AttributeValue),
             'functions': (FunctionMap, AbstractFunction),
             'data-types': (ETreeDataTypeReaderClassMap,
                            ETreeDataTypeReaderBase),
             'readers': (ETreeReaderClassMap, ETreeAbstractReader)}
    cls, base = bases[name]
    own = AttributeValueClassFactory()(AttributeValue.STRING_TYPE_URI)
    subs = {'values': own, 'functions': type('F', (AbstractFunction,), {}),
            'data-types': type('R', (ETreeDataTypeReaderBase,), {}),
            'readers': TargetReader}
    keykind = ctx.choice('key', ['str', 'int', 'none', 'own-class', 'class',
                                 'object'])
    valkind = ctx.choice('value', ['base', 'sub', 'other-registry', 'class',
                                   'instance', 'none', 'str'])
    key = {'str': lambda: ctx.str('k'), 'int': lambda: 1,
           'none': lambda: None, 'own-class': lambda: Target,
           'class': lambda: dict, 'object': object}[keykind]()
    if name == 'functions' and keykind == 'str':
        # not one of the functions there are
        key = Concat('urn:x:', key)
    other = {'values': 'data-types', 'functions': 'readers',
             'data-types': 'values', 'readers': 'functions'}[name]
    val = {'base': base, 'sub': subs[name], 'other-registry': subs[other],
           'class': dict, 'instance': object(), 'none': None,
           'str': 'x'}[valkind]
    m = cls()
    by = ctx.choice('by', ['set', 'update', 'setdefault'])
    out = {'set': lambda: ctx.call(m.__setitem__, key, val),
           'update': lambda: ctx.call(m.update, [(key, val)]),
           'setdefault': lambda: ctx.call(m.setdefault, key, val)}[by]()
    ctx.observe('outcome', out.exc_name)
    ok = keykind == ('own-class' if name == 'readers' else 'str') and \
        valkind in ('base', 'sub')
    if by == 'setdefault' and name == 'functions':
        # looks the name up first, which fails for unknown ones
        ctx.check('never-held', len(m) == 0)
        return
    ctx.check('accepted', Implies(ok, out.ok))
    ctx.check('refused', Implies(not ok, out.raised(TypeError)))
    items = m.items()
    ctx.check('held', And([len(items) == (1 if ok else 0)] + [
        And(k is key or Eq(k, key), v is val) for k, v in items]))
    if ok:
        ctx.check('found-again', m.get(key) is val and m[key] is val)


def add_class(ctx):
    """AttributeValueClassFactory.addClass: only new ones, unless told."""
    from ndg.xacml.core.attributevalue import (AttributeValue,
                                               AttributeValueClassFactory)
    factory = AttributeValueClassFactory
    new = type('NewAttributeValue', (AttributeValue,),
               {'TYPE': str, 'IDENTIFIER': 'urn:new'})
    uri = ctx.str('uri')
    over = ctx.choice('overwrite', [None, False, True])
    old = factory()(uri)
    out = ctx.call(factory.addClass, uri, new) if over is None else \
        ctx.call(factory.addClass, uri, new, overwrite=over)
    ctx.check('accepted', out.ok)
    now = factory()(uri)
    ctx.check('new-unless-there', now is (
        new if old is None or over else old))
    other = ctx.str('other')
    ctx.assume(Not(Eq(uri, other)))
    got = factory()(other)
    ctx.check('others-untouched', got is not new)
    wrong = ctx.choice('wrong', ['class', 'key'])
    out = ctx.call(factory.addClass, uri if wrong == 'class' else 1,
                   dict if wrong == 'class' else new, True)
    ctx.check('refused', out.raised(TypeError))
    ctx.check('refused-changes-nothing', factory()(uri) is now)


def add_reader(ctx):
    """Registered readers replace the ones found by name."""
    from ndg.xacml.core.rule import Rule
    from ndg.xacml.core.target import Target
    from ndg.xacml.parsers.etree.attributevaluereader import (
        DataTypeReaderClassFactory as D, ETreeDataTypeReaderBase)
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    from ndg.xacml.parsers.etree.rulereader import RuleReader
    mine = type('Mine', (RuleReader,), {})
    target = ReaderFactory.getReader(Target)
    ctx.check('by-name', ReaderFactory.getReader(Rule) is RuleReader)
    bad = ctx.call(ReaderFactory.addReader, *ctx.choice(
        'bad', [(Rule, dict), (dict, mine), (Rule, 'x')]))
    ctx.check('refused', bad.raised(TypeError))
    ctx.check('by-name', ReaderFactory.getReader(Rule) is RuleReader)
    ReaderFactory.addReader(Rule, mine)
    ctx.check('registered', ReaderFactory.getReader(Rule) is mine)
    ctx.check('others-untouched', ReaderFactory.getReader(Target) is target)
    dt = type('DT', (ETreeDataTypeReaderBase,), {})
    uri, other = ctx.str('uri'), ctx.str('other')
    ctx.assume(Not(Eq(uri, other)))

    class Value(object):
        dataType = uri

    class Other(object):
        dataType = other
    was = ctx.call(D.getReader, Other)
    D.addReader(uri, dt)
    ctx.check('registered', D.getReader(Value) is dt)
    now = ctx.call(D.getReader, Other)
    ctx.check('others-untouched', was.ok == now.ok and
              was.value is now.value)


def warm_up():
    import ndg.xacml.core.attributevalue                # noqa
    import ndg.xacml.core.functions                     # noqa
    import ndg.xacml.core.rule                          # noqa
    import ndg.xacml.parsers.etree.factory              # noqa
    import ndg.xacml.parsers.etree.attributevaluereader  # noqa
    import ndg.xacml.parsers.etree.targetreader         # noqa
    import ndg.xacml.parsers.etree.rulereader           # noqa


HARNESSES = [
    Harness('vetted', vetted, '2 operations of 13 kinds with any keys and '
            'integer values, filters that refuse any one key and values '
            'below any bound in 3 ways', params=dict(
                ops=2, setters=['set', 'update-pairs', 'update-map']),
            must_reach=('only-admitted', 'found', 'default',
                        'not-found-is-a-key-error')),
    Harness('vetted-deep', vetted, '3 operations', params=dict(
        ops=3, setters=['set', 'update-pairs']),
        must_reach=('only-admitted', 'found'), thorough_only=True),
    Harness('separate', separate, '2 dictionaries of a kind, 3 operations '
            'of 4 kinds on either, any integers', params=dict(
                kind=['vetted', 'restricted']),
            must_reach=('entries-of-its-own', 'names-of-its-own')),
    Harness('arguments', arguments, '0..3 arguments of 5 kinds',
            must_reach=('accepted-iff-two-callables',)),
    Harness('restricted', restricted, '2 operations of 10 kinds on a '
            'dictionary of 2 names, any other name',
            params=dict(ops=2, first=['set', 'del']), must_reach=(
                'unknown-name-is-a-key-error', 'known-names-accepted')),
    Harness('restricted-deep', restricted, '3 operations', params=dict(
        ops=3, first=['set', 'del', 'update']), must_reach=(
            'unknown-name-is-a-key-error', 'known-names-accepted'),
        thorough_only=True),
    Harness('registries', registries, '4 registries, keys of 6 and values '
            'of 7 kinds, any text', params=dict(which=[
                'values', 'functions', 'data-types', 'readers']),
            must_reach=('found-again', 'refused')),
    Harness('add-class', add_class, 'any data types',
            must_reach=('new-unless-there',)),
    Harness('add-reader', add_reader, 'any data types',
            must_reach=('registered',)),
]
