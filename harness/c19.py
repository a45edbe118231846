"""C19 typed values and containers never hold a foreign type."""
import datetime

from harness.common import *

ASSUMPTIONS = [
    'a value of a Python subclass counts as one of the type (True is an int)',
    'element types that are classes, as all of the repository\'s are']

#: elements to put into a container: name -> (make, its types)
KINDS = ['str', 'int', 'bool', 'float', 'none', 'av', 'ctx-subject']
TYPES = {'str': ('str',), 'int': ('int',), 'bool': ('bool', 'int'),
         'float': ('float',), 'none': (), 'av': ('av',),
         'ctx-subject': ('ctx-subject',)}


def element(ctx, tag, kind):
    if kind == 'str':
        return ctx.str(tag)
    if kind == 'int':
        return ctx.int(tag)
    if kind == 'bool':
        return ctx.bool(tag)
    if kind == 'float':
        return ctx.float(tag)
    if kind == 'av':
        from ndg.xacml.core.attributevalue import (
            AttributeValue, AttributeValueClassFactory)
        return AttributeValueClassFactory()(
            AttributeValue.STRING_TYPE_URI)(value=ctx.str(tag))
    if kind == 'ctx-subject':
        from ndg.xacml.core.context.subject import Subject
        return Subject()
    return None


def element_types():
    from ndg.xacml.core.attributevalue import AttributeValue
    from ndg.xacml.core.context.subject import Subject
    return {'str': str, 'int': int, 'av': AttributeValue,
            'ctx-subject': Subject, 'str-or-int': (str, int)}


def allowed(etype, kind):
    return any(t in TYPES[kind] for t in (
        ('str', 'int') if etype == 'str-or-int' else (etype,)))


def as_given(how, items):
    if how == 'tuple':
        return tuple(items)
    if how == 'generator':
        return (i for i in items)
    return list(items)


def same_items(xs, ys):
    return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))


BULK = ('extend', 'iadd', 'slice')
OPS = ('append', 'insert', 'set', 'new') + BULK


def operate(ctx, tag, lst, model, op, how, items, make):
    """One operation on the container, and on a plain list."""
    given = as_given(how, items)
    if op == 'append':
        model.append(items[0])
        return ctx.call(lst.append, items[0]), lst
    if op == 'extend':
        model.extend(items)
        return ctx.call(lst.extend, given), lst
    if op == 'iadd':
        model += items

        def iadd(x):
            x += given
            return x
        out = ctx.call(iadd, lst)
        return out, out.value if out.ok else lst
    if op == 'insert':
        at = ctx.choice(tag + 'at', [-1, 0, 1, 5])
        model.insert(at, items[0])
        return ctx.call(lst.insert, at, items[0]), lst
    if op == 'set':
        at = ctx.choice(tag + 'at', [-1, 0])
        if model:
            model[at] = items[0]
        return ctx.call(lst.__setitem__, at, items[0]), lst
    if op == 'slice':
        lo, hi = ctx.choice(tag + 'at', [(0, 0), (0, 1), (1, 9), (0, -1)])
        model[lo:hi] = items
        return ctx.call(lst.__setitem__, slice(lo, hi), given), lst
    model[:] = items
    out = ctx.call(make, given)
    return out, out.value if out.ok else lst


def typed(ctx, etypes, ops, bulk, kinds):
    """A history of operations with elements of every type."""
    from ndg.xacml.utils import TypedList
    etype = ctx.choice('type', etypes)
    cls = element_types()[etype]
    good = [k for k in kinds if allowed(etype, k)]
    lst = TypedList(cls)
    model = []
    for s in range(ops):
        tag = 's%d-' % s
        op = ctx.choice(tag + 'op', OPS if s else ('new', 'append', 'iadd'))
        n = ctx.choice(tag + 'n', bulk) if op in BULK + ('new',) else 1
        how = ctx.choice(tag + 'how', ['list', 'tuple', 'generator']) \
            if n and s == ops - 1 and op in BULK + ('new',) else 'list'
        ks = [ctx.choice('%sk%d' % (tag, i), kinds if s == ops - 1 else
                         good[:1]) for i in range(n)]
        items = [element(ctx, '%se%d' % (tag, i), k)
                 for i, k in enumerate(ks)]
        ok = all(allowed(etype, k) for k in ks)
        before = list(lst)
        now = list(before)
        if op == 'set' and not before:
            ok = False
        old = lst
        out, lst = operate(ctx, tag, lst, now, op, how, items,
                           lambda x: TypedList(cls, x))
        if ok:
            ctx.check('accepted', out.ok)
            ctx.check('adds-exactly-these', same_items(lst, now))
        else:
            ctx.check('refused', out.raised(
                'IndexError' if op == 'set' and not before and
                allowed(etype, ks[0]) else TypeError) or
                (op == 'set' and not before and not out.ok))
            ctx.check('refused-changes-nothing', same_items(lst, before))
        if op == 'iadd':
            ctx.check('in-place', lst is old)
        ctx.check('still-typed', isinstance(lst, TypedList) and
                  lst.elementType is cls)
        ctx.observe(tag, [op, out.exc_name, len(lst)])


def unique(ctx, ops, bulk, kinds, last):
    """Histories of elements any of which may be equal."""
    from ndg.xacml.utils import UniqList
    kind = ctx.choice('kind', kinds)
    model = []
    lst = UniqList()
    for s in range(ops):
        tag = 's%d-' % s
        op = ctx.choice(tag + 'op', ['new'] if s == 0 else last or
                        ['append', 'extend', 'iadd', 'insert'])
        n = 1 if op in ('append', 'insert') else ctx.choice(tag + 'n', bulk)
        how = ctx.choice(tag + 'how', ['list', 'generator']) \
            if op in ('extend', 'iadd') else 'list'
        items = [element(ctx, '%se%d' % (tag, i), kind) for i in range(n)]
        before = list(lst)
        old = lst
        if op == 'new':
            model = []
        there = list(model)
        out, lst = operate(ctx, tag, lst, there, op, how, items, UniqList)
        ctx.check('accepted', out.ok)
        if op in ('iadd',):
            ctx.check('in-place', lst is old)
        # the first of equal ones stays, each new one goes to the end
        for x in items:
            if not ctx.decide(In(x, model)):
                if op == 'insert':
                    model = there
                else:
                    model.append(x)
        ctx.check('each-once-in-order', And(
            [len(lst) == len(model)] +
            [Eq(x, y) for x, y in zip(lst, model)]))
        ctx.check('no-element-twice', And(
            [Not(Eq(lst[i], lst[j])) for i in range(len(lst))
             for j in range(i)]))
        ctx.observe(tag, [op, len(lst)])


# -------------------------------------------------------- attribute values
NATIVE = {'String': 'str', 'AnyURI': 'str', 'X500Name': 'str',
          'Rfc822Name': 'str', 'IpAddress': 'str', 'DnsName': 'str',
          'Integer': 'int', 'HexBinary': 'int', 'Boolean': 'bool',
          'Double': 'float', 'Date': 'datetime', 'DateTime': 'datetime',
          'Time': 'datetime', 'DayTimeDuration': 'timedelta',
          'YearMonthDuration': 'timedelta'}
VALUES = ['str', 'int', 'bool', 'float', 'datetime', 'timedelta', 'none',
          'list', 'bytes', 'date', 'object', 'value']
IS_A = {'bool': ('bool', 'int'), 'datetime': ('datetime', 'date')}


def native(ctx, tag, kind):
    if kind in ('str', 'int', 'bool', 'float', 'datetime', 'timedelta'):
        return getattr(ctx, kind)(tag)
    return dict(none=None, list=['a'], bytes=b'a',
                date=datetime.date(2010, 1, 1), object=object(),
                value=element(ctx, tag, 'av') if kind == 'value' else 0
                )[kind]


def attribute_value(ctx, names):
    """Built with one value and assigned others."""
    from ndg.xacml.core.attributevalue import (AttributeValue,
                                               AttributeValueClassFactory)
    name = ctx.choice('type', names)
    uri = AttributeValue.TYPE_URI_MAP[name]
    cls = AttributeValueClassFactory()(uri)
    kinds = [ctx.choice('kind%d' % i, VALUES) for i in range(2)]
    built = None
    cur = None
    for i, kind in enumerate(kinds):
        v = native(ctx, 'v%d' % i, kind)
        ok = NATIVE[name] in IS_A.get(kind, (kind,))
        if i == 0:
            out = ctx.call(cls, value=v)
            if kind == 'none':      # no value yet
                ok = True
            built = out.value if out.ok else cls()
        else:
            out = ctx.call(setattr, built, 'value', v)
        ctx.check('accepts-its-native-type', Implies(ok, out.ok))
        ctx.check('refuses-others', Implies(not ok, out.raised(TypeError)))
        if ok:
            cur = v
        ctx.check('holds-what-was-accepted-last', built.value is cur)
        ctx.check('data-type-stays', Eq(built.dataType, uri))
        ctx.observe('o%d' % i, out.exc_name)


def any_type(ctx):
    """The class for a data type is the one of exactly that name."""
    from ndg.xacml.core.attributevalue import (AttributeValue,
                                               AttributeValueClassFactory)
    uri = ctx.str('uri')
    cls = AttributeValueClassFactory()(uri)
    hit = None
    for name in sorted(list(NATIVE) + ['Base64Binary']):
        known = AttributeValue.TYPE_URI_MAP[name]
        if ctx.decide(Eq(uri, known)):
            hit = known
    ctx.check('class-iff-known', (cls is not None) == (hit is not None))
    if cls is not None:
        ctx.check('of-that-type', cls.IDENTIFIER == hit)


# ------------------------------------------------------- typed attributes
def pool(ctx, kind):
    """One value of each kind there is."""
    from ndg.xacml.core import (action, environment, resource, subject,
                                target, condition, rule, policy, policyset,
                                apply, policydefaults, match,
                                attributedesignator, attributeselector,
                                obligation)
    from ndg.xacml.core.attribute import Attribute
    from ndg.xacml.core.context import (action as ca, environment as ce,
                                        resource as cr, subject as cs,
                                        request, response, result)
    from ndg.xacml.utils import TypedList
    from ndg.xacml.core.attributevalue import AttributeValue
    if kind in ('str', 'int', 'bool', 'float'):
        return getattr(ctx, kind)('v-' + kind)
    if kind == 'value':
        return element(ctx, 'v-av', 'av')
    return {'none': lambda: None, 'list': lambda: [],
            'bytes': lambda: b'a', 'object': object,
            'class': lambda: target.Target, 'dict': dict,
            'typed-list': lambda: TypedList(AttributeValue),
            'list-of-texts': lambda: TypedList(str, ['x']),
            'list-of-either': lambda: TypedList((AttributeValue, str)),
            'list-of-strings': lambda: TypedList(attr_class(STRING)),
            'list-of-two-types': lambda: TypedList((attr_class(STRING),
                                                    attr_class(INTEGER))),
            'target': target.Target, 'condition': condition.Condition,
            'effect': lambda: rule.Effect(PERMIT), 'rule': rule.Rule,
            'decision': lambda: result.Decision(DENY),
            'policy': policy.Policy, 'policyset': policyset.PolicySet,
            'apply': apply.Apply,
            'defaults': policydefaults.PolicyDefaults,
            'designator': attributedesignator.SubjectAttributeDesignator,
            'selector': attributeselector.AttributeSelector,
            'match': match.SubjectMatch,
            'attribute': Attribute, 'subject': subject.Subject,
            'resource': resource.Resource, 'action': action.Action,
            'environment': environment.Environment,
            'ctx-subject': cs.Subject, 'ctx-resource': cr.Resource,
            'ctx-action': ca.Action, 'ctx-environment': ce.Environment,
            'request': request.Request, 'response': response.Response,
            'result': result.Result,
            'status': result.Status.createInitialised,
            'status-code': result.StatusCode,
            'obligation': obligation.Obligation,
            'assignment': obligation.AttributeAssignment}[kind]()


POOL = ['str', 'int', 'bool', 'float', 'value', 'none', 'list', 'bytes',
        'object', 'class', 'dict', 'typed-list', 'list-of-texts',
        'list-of-either', 'list-of-strings', 'list-of-two-types', 'target', 'condition',
        'effect', 'rule', 'decision', 'policy', 'policyset', 'apply',
        'defaults', 'designator', 'selector', 'match', 'attribute',
        'subject', 'resource', 'action', 'environment', 'ctx-subject',
        'ctx-resource', 'ctx-action', 'ctx-environment', 'request',
        'response', 'result', 'status', 'status-code', 'obligation']
TEXT = ('str',)
EXPRESSION = ('value', 'apply', 'designator', 'selector')
SETTERS = [
    ('rule', 'target', ('target',)), ('rule', 'condition', ('condition',)),
    ('rule', 'effect', ('effect',)), ('rule', 'id', TEXT),
    ('rule', 'description', TEXT),
    ('policy', 'policyId', TEXT), ('policy', 'version', TEXT),
    ('policy', 'target', ('target',)), ('policy', 'description', TEXT),
    ('policy', 'policyDefaults', ('defaults',)),
    ('policyset', 'policySetId', TEXT), ('policyset', 'version', TEXT),
    ('policyset', 'target', ('target',)),
    ('policyset', 'description', TEXT),
    ('policyset', 'policySetDefaults', ('defaults',)),
    ('defaults', 'xpathVersion', TEXT),
    ('condition', 'expression', EXPRESSION),
    ('designator', 'attributeId', TEXT), ('designator', 'issuer', TEXT),
    ('designator', 'dataType', TEXT),
    ('designator', 'mustBePresent', ('bool',)),
    ('selector', 'requestContextPath', TEXT),
    ('selector', 'mustBePresent', ('bool',)),
    ('selector', 'dataType', TEXT),
    ('match', 'attributeValue', ('value',)),
    ('match', 'attributeDesignator', ('designator',)),
    ('match', 'attributeSelector', ('selector',)),
    ('attribute', 'attributeId', TEXT), ('attribute', 'dataType', TEXT),
    ('attribute', 'issuer', TEXT),
    ('attribute', 'attributeValues', ('typed-list', 'list-of-strings',
                                      'list-of-two-types')),
    ('ctx-subject', 'subjectCategory', TEXT),
    ('request', 'action', ('ctx-action',)),
    ('request', 'environment', ('ctx-environment',)),
    ('result', 'decision', ('decision',)), ('result', 'status', ('status',)),
    ('result', 'resourceId', TEXT),
    ('result', 'obligations', ('obligation',)),
    ('obligation', 'obligationId', TEXT), ('obligation', 'fulfillOn', TEXT),
    ('status', 'statusCode', ('status-code',)),
    ('status-code', 'statusCode', ('status-code',)),
    ('status', 'statusMessage', TEXT)]


def setters(ctx, which):
    """One typed attribute, assigned anything, before and after a value."""
    owner, name, types = ctx.choice('attribute', which)
    kind = ctx.choice('kind', POOL)
    obj = pool(ctx, owner)
    first = ctx.choice('first', [False, True])
    if first:
        v = 'x' if types == TEXT else True if types == ('bool',) else \
            Sub(ctx).value(types[0])
        setattr(obj, name, v)
    before = getattr(obj, name)
    v = pool(ctx, kind)
    out = ctx.call(setattr, obj, name, v)
    ctx.observe('outcome', out.exc_name)
    if kind in types:
        ctx.check('accepts-its-type', out.ok)
        ctx.check('reads-back', getattr(obj, name) is v)
    else:
        ctx.check('refuses-others', out.raised(TypeError))
        ctx.check('refused-changes-nothing', getattr(obj, name) is before)


class Sub(object):
    """Another value of a kind, with inputs of its own name."""
    def __init__(self, ctx):
        self.ctx = ctx

    def value(self, kind):
        return pool(self, kind)

    def str(self, name):
        return self.ctx.str('first-' + name)


def children(ctx):
    """Lists of parts hold parts of their own kind only."""
    owner, name, type_ = ctx.choice('list', LISTS)
    kind = ctx.choice('kind', POOL)
    how = ctx.choice('how', ['append', 'extend', 'iadd', 'insert', 'slice'])
    obj = pool(ctx, owner)
    lst = getattr(obj, name)
    v = pool(ctx, kind)
    pre = Sub(ctx).value(type_[0])
    lst.append(pre)
    out, now = operate(ctx, '', lst, [pre], how, 'list', [v], None)
    ok = kind in type_
    ctx.observe('outcome', [out.exc_name, len(lst)])
    ctx.check('accepts-its-type', Implies(ok, out.ok))
    ctx.check('refuses-others', Implies(not ok, out.raised(TypeError)))
    items = list(getattr(obj, name))
    if ok:
        ctx.check('adds-exactly-these', any(x is v for x in items))
    else:
        ctx.check('refused-changes-nothing', same_items(items, [pre]))


LISTS = [
    ('request', 'subjects', ('ctx-subject',)),
    ('request', 'resources', ('ctx-resource',)),
    ('ctx-subject', 'attributes', ('attribute',)),
    ('ctx-resource', 'attributes', ('attribute',)),
    ('ctx-action', 'attributes', ('attribute',)),
    ('ctx-environment', 'attributes', ('attribute',)),
    ('attribute', 'attributeValues', ('value',)),
    ('response', 'results', ('result',)),
    ('policy', 'rules', ('rule',)),
    ('policy', 'obligations', ('obligation',)),
    ('policyset', 'obligations', ('obligation',)),
    ('policyset', 'policies', ('policy', 'policyset')),
    ('target', 'subjects', ('subject',)),
    ('target', 'resources', ('resource',)),
    ('target', 'actions', ('action',)),
    ('target', 'environments', ('environment',)),
    ('subject', 'matches', ('match',)),
    ('apply', 'expressions', EXPRESSION)]


def warm_up():
    import ndg.xacml.core.policyset                     # noqa
    import ndg.xacml.core.context.response              # noqa
    import ndg.xacml.utils.xpath_selector               # noqa


HARNESSES = [
    Harness('typed-list', typed, '2 operations of 7 kinds with 0..2 elements '
            'of 7 types given as list, tuple or generator; 3 element types',
            params=dict(etypes=['int', 'av', 'str-or-int'], ops=2, bulk=[0, 1, 2],
                        kinds=KINDS),
            must_reach=('accepted', 'refused', 'in-place')),
    Harness('typed-list-3', typed, '3 operations with 0..2 elements',
            params=dict(etypes=['int', 'av'], ops=3, bulk=[0, 1, 2],
                        kinds=['int', 'str', 'av']),
            must_reach=('accepted', 'refused'), thorough_only=True),
    Harness('unique-list', unique, '3 operations with 0..2 arbitrary '
            'strings', params=dict(
                ops=3, bulk=[0, 1, 2], kinds=['str'], last=None),
            must_reach=('each-once-in-order',)),
    Harness('unique-list-deep', unique, '3 operations with 0..2 arbitrary '
            'strings or integers', params=dict(
                ops=3, bulk=[0, 1, 2], kinds=['str', 'int'], last=None),
            must_reach=('each-once-in-order',), thorough_only=True),
    Harness('attribute-value', attribute_value, '15 data types, 12 kinds of '
            'values, construction and one assignment',
            params=dict(names=sorted(NATIVE)),
            must_reach=('accepts-its-native-type',)),
    Harness('data-type', any_type, 'any identifier',
            must_reach=('of-that-type',)),
    Harness('setters', setters, '%d attributes of policy and request '
            'objects, values of %d kinds' % (len(SETTERS), len(POOL)),
            params=dict(which=SETTERS),
            must_reach=('accepts-its-type', 'refuses-others')),
    Harness('lists', children, '%d lists of parts, values of %d kinds, 5 '
            'operations' % (len(LISTS), len(POOL)),
            must_reach=('accepts-its-type', 'refuses-others')),
]
