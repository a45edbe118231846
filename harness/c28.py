"""C28 data types, readers and functions an application adds."""
from harness.docs import *

ASSUMPTIONS = [
    'the added classes and readers are stand-ins that keep two texts; what '
    'is added through FunctionMap.load_custom_function is decided by C15',
]


def new_class(tag='Pair', ident='urn:pair', native=None, joined=False):
    """An attribute value class such as an application writes: its value is
    computed from parts of its own, or it only names a native type."""
    from ndg.xacml.core.attributevalue import AttributeValue
    if native is not None:
        return type(tag, (AttributeValue,), {'TYPE': native,
                                             'IDENTIFIER': ident})

    class Pair(AttributeValue):
        TYPE = tuple
        IDENTIFIER = ident
        __slots__ = ('first', 'second')

        def __init__(self, first=None, second=None):
            super(Pair, self).__init__()
            self.first, self.second = first, second

        @property
        def value(self):
            if joined:
                return self.first + '/' + self.second
            return self.first, self.second
    Pair.__name__ = tag
    return Pair


def new_reader():
    from ndg.xacml.parsers import XMLParseError
    from ndg.xacml.parsers.etree.attributevaluereader import \
        ETreeDataTypeReaderBase

    class PairReader(ETreeDataTypeReaderBase):
        @classmethod
        def parse(cls, elem, attributeValue):
            texts = [e.text for e in elem]
            if len(texts) != 2:
                raise XMLParseError('not a pair')
            attributeValue.first, attributeValue.second = texts
    return PairReader


def std_types():
    from ndg.xacml.core.attributevalue import AttributeValue
    return list(AttributeValue.TYPE_URIS)


def probe_of(ctx, idents, maxlen):
    """The identifier looked up: arbitrary."""
    return ctx.str('probe', maxlen=maxlen)


class Table(object):
    """The table of classes as formulas over one identifier looked up."""

    def __init__(self, probe, first):
        self.probe = probe
        self.rows = [(c, Eq(probe, u)) for u, c in first]

    def known(self):
        return Or([f for c, f in self.rows])

    def add(self, ident, cls, overwrite):
        hit = And(Eq(self.probe, ident),
                  True if overwrite else Not(self.known()))
        self.rows = [(c, And(f, Not(hit))) for c, f in self.rows]
        self.rows.append((cls, hit))

    def gives(self, got):
        if got is None:
            return Not(self.known())
        return Or([f for c, f in self.rows if c is got])


def class_table(ctx, ops, free, kinds, looks=False):
    """addClass: a history of additions, then any identifier looked up."""
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory as F
    std = [(u, F()(u)) for u in std_types()]
    std = [(u, c) for u, c in std if c is not None]
    if free:
        probe = ctx.str('probe', maxlen=80)
    else:
        probe = ctx.str('probe', domain=NAMES)
    t = Table(probe, std)
    other = [new_class('Other%d' % i) for i in range(ops)]
    # derived from the first standard class, and from what was added before
    derived = [type('Derived', (other[i - 1] if i else std[0][1],), {})
               for i in range(ops)]
    before = F()
    for n in range(ops):
        kind = ctx.choice('kind%d' % n, kinds)
        ident = ctx.str('id%d' % n, maxlen=80) if free else \
            ctx.str('id%d' % n, domain=NAMES)
        over = ctx.choice('overwrite%d' % n, [None, False, True])
        if looks and ctx.choice('looked%d' % n, [False, True]):
            ctx.call(before, probe)
        cls = {'class': other[n], 'standard': std[0][1],
               'derived': derived[n],
               'foreign': dict, 'instance': other[n](), 'none': None,
               'number': 3, 'key': other[n]}[kind]
        key = {'key': ctx.choice('key%d' % n, [None, 1, b'urn:new'])}.get(
            kind, ident) if kind == 'key' else ident
        kw = {} if over is None else {'overwrite': over}
        out = ctx.call(F.addClass, key, cls, **kw)
        ctx.observe('added%d' % n, out.exc_name)
        if kind in ('class', 'standard', 'derived'):
            ctx.check('added', out.ok)
            t.add(ident, cls, bool(over))
        else:
            ctx.check('refused', out.raised(TypeError))
    got = ctx.call(F(), probe)
    ctx.observe('got', getattr(got.value, '__name__', None) if got.ok
                else got.exc_name)
    ctx.check('class-of-its-identifier', got.ok and t.gives(got.value))
    # factories made before see the same table
    old = ctx.call(before, probe)
    ctx.check('one-table', old.ok and old.value is got.value)


NAMES = [STRING, INTEGER, 'urn:new', 'urn:new ', '']


def own_table(ctx):
    """A factory over a table of its own answers from that table alone."""
    from ndg.xacml.core.attributevalue import (
        AttributeValueClassFactory as F, AttributeValueClassMap as M)
    A, B = new_class('A'), new_class('B')
    m = M()
    own = ctx.str('own', domain=NAMES)
    m[own] = A
    F.addClass('urn:new', B)
    kind = ctx.choice('table', ['own', 'dict', 'none', 'text'])
    out = ctx.call(F, {'own': m, 'dict': {}, 'none': None,
                       'text': 'urn:new'}[kind])
    ctx.observe('ok', out.ok)
    probe = ctx.str('probe', domain=NAMES)
    if kind == 'own':
        got = ctx.call(out.value, probe)
        ctx.check('answers-from-its-table', got.ok and If(
            Eq(probe, own), got.value is A, got.value is None))
    elif kind == 'none':
        got = ctx.call(out.value, probe)
        ctx.check('answers-from-the-shared-table', got.ok and Iff(
            got.value is B, Eq(probe, 'urn:new')))
    else:
        ctx.check('refused', out.raised(TypeError))
    std = ctx.call(F(), probe)
    ctx.check('shared-table-untouched', std.ok and std.value is not A)


def reader_table(ctx, free):
    """addReader: the reader of a value is that of its data type."""
    from ndg.xacml.parsers.etree.attributevaluereader import (
        DataTypeReaderClassFactory as F, ETreeDataTypeReaderBase as Base)
    readers = [new_reader(), new_reader()]
    probe = ctx.str('probe', maxlen=80) if free else \
        ctx.str('probe', domain=NAMES)
    t = Table(probe, [(u, Base) for u in std_types()])
    for n in range(1 if free else 2):
        kind = ctx.choice('kind%d' % n, ['reader', 'foreign', 'none', 'key'])
        ident = ctx.str('id%d' % n, maxlen=80) if free else \
            ctx.str('id%d' % n, domain=NAMES)
        if ctx.choice('looked%d' % n, [False, True]):
            early = new_class()()
            early.dataType = probe
            ctx.call(F.getReader, early)
        out = ctx.call(F.addReader, 7 if kind == 'key' else ident,
                       {'reader': readers[n], 'foreign': dict, 'none': None,
                        'key': readers[n]}[kind])
        ctx.observe('added%d' % n, out.exc_name)
        if kind == 'reader':
            ctx.check('added', out.ok)
            t.add(ident, readers[n], True)
        else:
            ctx.check('refused', out.raised(TypeError))
    v = new_class()()
    v.dataType = probe
    got = ctx.call(F.getReader, v)
    ctx.observe('got', got.exc_name)
    ctx.check('reader-of-its-type', If(
        t.known(), got.ok and t.gives(got.value), not got.ok))


def type_readers(ctx):
    """ReaderFactory.addReader: readers of parts of a policy."""
    from ndg.xacml.parsers.etree.factory import ReaderFactory as F
    from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
    from ndg.xacml.core.rule import Rule
    from ndg.xacml.core.target import Target
    from ndg.xacml.core.condition import Condition
    types = {'rule': Rule, 'target': Target, 'condition': Condition}
    usual = {n: F.getReader(t) for n, t in types.items()}
    last = dict(usual)
    for n in range(2):
        kind = ctx.choice('kind%d' % n, ['reader', 'foreign', 'none', 'key'])
        name = ctx.choice('type%d' % n, sorted(types))
        if ctx.choice('looked%d' % n, [False, True]):
            ctx.call(F.getReader, types[name])

        class Mine(ETreeAbstractReader):
            TYPE = types[name]
        out = ctx.call(F.addReader, dict if kind == 'key' else types[name],
                       {'reader': Mine, 'foreign': dict, 'none': None,
                        'key': Mine}[kind])
        ctx.observe('added%d' % n, out.exc_name)
        if kind == 'reader':
            ctx.check('added', out.ok)
            last[name] = Mine
        else:
            ctx.check('refused', out.raised(TypeError))
    for name, t in types.items():
        got = ctx.call(F.getReader, t)
        ctx.check('reader-of-its-type', got.ok and got.value is last[name])

    class Unknown(Rule):
        pass
    got = ctx.call(F.getReader, Unknown)
    ctx.check('no-reader-is-an-error', not got.ok)


def contents(ctx, tag, n):
    return [(ctx.str('%s%d-first' % (tag, i)),
             ctx.str('%s%d-second' % (tag, i))) for i in range(n)]


def pair_el(pair, ident):
    return E('AttributeValue', E('First', text=pair[0]),
             E('Second', text=pair[1]), DataType=ident)


def functions_of(Pair):
    from ndg.xacml.core.functions import functionMap
    from ndg.xacml.core.functions.v1.bag import BagBase
    from ndg.xacml.core.functions.v1.equal import EqualBase
    from ndg.xacml.core.functions.v1.one_and_only import OneAndOnlyBase
    from ndg.xacml.core.functions.v1.at_least_one_member_of import \
        AtLeastOneMemberOfBase
    for n, base in (('urn:pair-bag', BagBase), ('urn:pair-equal', EqualBase),
                    ('urn:pair-one-and-only', OneAndOnlyBase),
                    ('urn:pair-at-least-one-member-of',
                     AtLeastOneMemberOfBase)):
        functionMap[n] = type(str('P' + base.__name__), (base,), {
            'TYPE': Pair, 'FUNCTION_NS': n})


def decided(ctx, forms, nwrite, nhave):
    """A policy over an added type, decided as it reads."""
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory as F
    from ndg.xacml.parsers.etree.attributevaluereader import \
        DataTypeReaderClassFactory
    from ndg.xacml.core.context.request import Request
    form = ctx.choice('form', forms)
    # joined texts go into sets, tuples of texts would be hashed by value
    Pair = new_class(joined=form == 'at-least-one')
    ident = 'urn:pair'
    F.addClass(ident, Pair)
    DataTypeReaderClassFactory.addReader(ident, new_reader())
    functions_of(Pair)
    written = contents(ctx, 'written', ctx.choice('writes', nwrite)
                       if form == 'at-least-one' else 1)
    have = contents(ctx, 'have', ctx.choice('have', nhave))
    fmt = ctx.choice('type', [ident, STRING])    # of the designator
    if form == 'only':
        doc = policy_el('p', 'deny-overrides', [rule_el(
            'r', PERMIT, None, apply_el(
                'urn:pair-equal', pair_el(written[0], ident),
                apply_el('urn:pair-one-and-only',
                         designator_el('Subject', 'a', fmt))))])
    elif form == 'at-least-one':
        cond = apply_el('urn:pair-at-least-one-member-of',
                        designator_el('Subject', 'a', fmt),
                        apply_el('urn:pair-bag',
                                 *[pair_el(w, ident) for w in written]))
        doc = policy_el('p', 'deny-overrides',
                        [rule_el('r', PERMIT, None, cond)])
    else:
        doc = policy_el('p', 'deny-overrides', [rule_el('r', PERMIT)],
                        E('Target', E('Subjects', E('Subject', E(
                            'SubjectMatch', pair_el(written[0], ident),
                            designator_el('Subject', 'a', fmt),
                            MatchId='urn:pair-equal')))))
    read = ctx.call(pdp_of, doc)
    ctx.observe('read', read.exc_name)
    ctx.check('read', read.ok)
    if not read.ok:
        return
    r = Request()
    s = context_class('Subject')()
    s.attributes.append(make_attribute('a', ident, None,
                                       [Pair(*h) for h in have]))
    s.attributes.append(make_attribute('a', STRING, None, [
        attr_class(STRING)(ctx.str('text'))]))
    add_child(r, 'Subject', s)
    out = ctx.call(read.value.evaluate, r)
    d = single_result_decision(out)
    ctx.observe('decision', d)
    if form == 'at-least-one':
        hit = Or([Eq(Concat(w[0], '/', w[1]), Concat(h[0], '/', h[1]))
                  for w in written for h in have])
    else:
        hit = Or([And(Eq(w[0], h[0]), Eq(w[1], h[1]))
                  for w in written for h in have])
    if form == 'only' and len(have) != 1:
        ctx.check('one-value-needed', Eq(d, IND))
    elif fmt != ident:
        # a designator of another type supplies that type, an error here
        ctx.check('other-types-never-count', Eq(d, IND))
    else:
        ctx.check('decided-as-it-reads', Eq(d, If(hit, PERMIT, NA)))


def refused(ctx):
    """A document is refused when the class or reader of a type it uses is
    not there, or the reader refuses the value."""
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory as F
    from ndg.xacml.parsers.etree.attributevaluereader import \
        DataTypeReaderClassFactory
    Pair = new_class()
    added = ctx.str('added', maxlen=30, minlen=1)
    used = ctx.str('used', maxlen=30, minlen=1)
    for u in std_types():
        ctx.assume(And(Not(Eq(added, u)), Not(Eq(used, u))))
    has_class = ctx.choice('class', [False, True])
    has_reader = ctx.choice('reader', [False, True])
    if has_class:
        F.addClass(added, Pair)
    if has_reader:
        DataTypeReaderClassFactory.addReader(added, new_reader())
    functions_of(Pair)
    good = ctx.choice('good', [False, True])
    where = ctx.choice('where', ['condition', 'match'])
    pair = ('x', ctx.str('second'))
    val = pair_el(pair, used)
    if not good:
        val.children.pop()
    if where == 'condition':
        doc = policy_el('p', 'deny-overrides', [rule_el('r', PERMIT, None,
                        apply_el('urn:pair-equal', val, val))])
    else:
        doc = policy_el('p', 'deny-overrides', [rule_el('r', PERMIT)],
                        E('Target', E('Subjects', E('Subject', E(
                            'SubjectMatch', val,
                            designator_el('Subject', 'a', used),
                            MatchId='urn:pair-equal')))))
    out = ctx.call(pdp_of, doc)
    ctx.observe('read', out.exc_name)
    ctx.check('read-iff-all-is-there', Iff(out.ok, And(
        has_class, has_reader, good, Eq(added, used))))
    if out.ok:
        p = out.value.policy
        v = p.rules[0].condition.expression.expressions[0] \
            if where == 'condition' else \
            p.target.subjects[0].matches[0].attributeValue
        ctx.check('of-the-class-added', isinstance(v, Pair))
        ctx.check('of-the-type-written', Eq(v.dataType, used))
        ctx.check('content-as-read', And(Eq(v.value[0], 'x'),
                                         Eq(v.value[1], pair[1])))


def equal(ctx):
    """Values of an added type are equal iff their contents are."""
    computed = ctx.choice('computed', [True, False])
    if computed:
        Pair = new_class()
        (a, b_), = [contents(ctx, 'v', 2)]
        x, y = Pair(*a), Pair(*b_)
        same = And(Eq(a[0], b_[0]), Eq(a[1], b_[1]))
    else:
        Text = new_class('Text', 'urn:text', str)
        a, b_ = ctx.str('a'), ctx.str('b')
        x, y = Text(a), Text(b_)
        same = Eq(a, b_)
    out = ctx.call(lambda: x == y)
    ctx.observe('equal', out.value if out.ok else out.exc_name)
    ctx.check('equal-iff-contents-are', out.ok and Iff(b(out.value), same))
    out = ctx.call(lambda: x != y)
    ctx.check('unequal-iff-contents-are', out.ok and Iff(b(out.value),
                                                         Not(same)))
    out = ctx.call(lambda: x == x)
    ctx.check('equal-to-itself', out.ok and b(out.value))
    out = ctx.call(lambda: x == new_class('Third')())
    ctx.check('other-types-are-an-error', not out.ok)


def supplied(ctx):
    """An information point's values of an added type add to the request's
    own; one that is there already is not repeated."""
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory as F
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.context.handlerinterface import CtxHandlerInterface
    Pair = new_class()
    F.addClass('urn:pair', Pair)
    own = contents(ctx, 'own', ctx.choice('owns', [0, 1]))
    sup = contents(ctx, 'sup', ctx.choice('supplies', [0, 1, 2]))

    class Handler(CtxHandlerInterface):
        def handlePEPRequest(self, pepRequest):
            raise NotImplementedError()

        def pipQuery(self, request, des):
            return [Pair(*p) for p in sup]
    r = Request()
    s = context_class('Subject')()
    s.attributes.append(make_attribute('a', 'urn:pair', None,
                                       [Pair(*p) for p in own]))
    add_child(r, 'Subject', s)
    r.ctxHandler = Handler()
    d = designator('Subject')
    d.attributeId, d.dataType = 'a', 'urn:pair'
    out = ctx.call(d.evaluate, r)
    ctx.check('no-error', out.ok)
    if not out.ok:
        return
    got = [v.value for v in out.value]
    ctx.observe('bag', got)
    ctx.check('of-the-class-added', out.value.elementType is Pair and
              all(isinstance(v, Pair) for v in out.value))

    def same(p, q):
        return And(Eq(p[0], q[0]), Eq(p[1], q[1]))
    for p in own + sup:
        ctx.check('all-are-there', Or([same(p, g) for g in got]))
    for g in got:
        ctx.check('nothing-else', Or([same(p, g) for p in own + sup]))
    for p in own:
        ctx.check('present-values-not-repeated',
                  Eq(Count([same(p, g) for g in got]), 1))


def typed(ctx):
    """A class that only names its native type takes that type only."""
    from datetime import datetime
    name = ctx.choice('native', ['str', 'int', 'float', 'bool', 'either'])
    native = {'str': str, 'int': int, 'float': float, 'bool': bool,
              'either': (str, int)}[name]
    C = new_class('Native', 'urn:native', native)
    kind = ctx.choice('kind', ['str', 'int', 'float', 'bool', 'none', 'list',
                               'bytes', 'date'])
    v = getattr(ctx, kind)('v') if kind in ('str', 'int', 'float', 'bool') \
        else {'none': None, 'list': ['x'], 'bytes': b'x',
              'date': datetime(2020, 1, 1)}[kind]
    fits = kind == name or (name, kind) in (
        ('either', 'str'), ('either', 'int'), ('either', 'bool'),
        ('int', 'bool'))
    c = C()
    out = ctx.call(setattr, c, 'value', v)
    ctx.observe('ok', out.exc_name)
    if fits:
        ctx.check('accepts-its-native-type', out.ok and c.value is v)
    else:
        ctx.check('refuses-others', out.raised(TypeError) and
                  c.value is None)
    ctx.check('names-its-type', c.dataType == 'urn:native')


def warm_up():
    load_readers()
    import ndg.xacml.parsers.etree.attributevaluereader  # noqa
    from harness.funcs import load_all
    load_all()


HARNESSES = [
    Harness('class-table', class_table, 'one addition and one look-up of any '
            'texts up to 80, 8 kinds of class and key', params=dict(
                ops=1, free=True, kinds=['class', 'derived', 'standard', 'foreign',
                                         'instance', 'none', 'number',
                                         'key']),
            must_reach=('class-of-its-identifier', 'refused', 'added')),
    Harness('class-table-2', class_table, '2 additions and one look-up over '
            '5 identifiers', params=dict(
                ops=2, free=False, looks=True, kinds=['class', 'derived',
                                                  'foreign']),
            must_reach=('class-of-its-identifier', 'refused', 'added')),
    Harness('class-table-3', class_table, '3 additions', params=dict(
        ops=3, free=False, kinds=['class', 'foreign']),
        must_reach=('class-of-its-identifier',), thorough_only=True),
    Harness('own-table', own_table, 'a table of its own over 5 identifiers',
            must_reach=('answers-from-its-table', 'refused')),
    Harness('reader-table', reader_table, 'one addition and one look-up of '
            'any texts up to 80', params=dict(free=True),
            must_reach=('reader-of-its-type', 'refused')),
    Harness('reader-table-2', reader_table, '2 additions over 5 identifiers',
            params=dict(free=False),
            must_reach=('reader-of-its-type', 'refused')),
    Harness('type-readers', type_readers, '2 additions over 3 kinds of part',
            must_reach=('reader-of-its-type', 'refused')),
    Harness('decided', decided, '0..2 values in the request, 1 in the '
            'policy, arbitrary contents, target and condition',
            params=dict(forms=['only', 'match'], nwrite=[1],
                        nhave=[0, 1, 2]),
            must_reach=('decided-as-it-reads', 'one-value-needed',
                        'other-types-never-count')),
    Harness('decided-sets', decided, '0..1 values in the request, 1..2 in '
            'the policy, arbitrary contents, compared as sets',
            params=dict(forms=['at-least-one'], nwrite=[1, 2],
                        nhave=[0, 1]),
            must_reach=('decided-as-it-reads', 'other-types-never-count')),
    Harness('decided-more', decided, '0..2 values in the request, 1..2 in '
            'the policy, arbitrary contents, target and condition',
            params=dict(forms=['at-least-one', 'only', 'match'],
                        nwrite=[1, 2], nhave=[0, 1, 2, 3]),
            thorough_only=True,
            must_reach=('decided-as-it-reads', 'other-types-never-count')),
    Harness('refused', refused, 'the type added and the type used any texts '
            'up to 30, with and without class and reader',
            must_reach=('read-iff-all-is-there', 'of-the-class-added')),
    Harness('equal', equal, 'arbitrary contents, computed and native',
            must_reach=('equal-iff-contents-are',)),
    Harness('supplied', supplied, '0..1 own and 0..2 supplied values of '
            'arbitrary contents',
            must_reach=('all-are-there', 'present-values-not-repeated')),
    Harness('typed', typed, '5 native types, 8 kinds of value',
            must_reach=('accepts-its-native-type', 'refuses-others')),
]
