"""C08 mandatory attributes; attribute selectors."""
from harness.common import *

ASSUMPTIONS = [
    'a selector engine returns a list of strings for a path (the XPath '
    'engines themselves are outside: lxml is C code, ElementTree the standard '
    'library)',
]


def mandatory(ctx, cats, nattr, nval, absent=False, through=None):
    """MustBePresent: missing-attribute error exactly when nothing is
    found; otherwise the bag."""
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.context.exceptions import MissingAttributeError
    cat = ctx.choice('category', cats)
    must = ctx.choice('must', ['unset', 'false', 'true'])
    d = designator(cat)
    did = ctx.str('id', maxlen=2)
    dtype = ctx.choice('type', (STRING, ANYURI))
    d.attributeId = did
    d.dataType = dtype
    dissuer = None
    if ctx.decide(ctx.bool('has_issuer')):
        dissuer = ctx.str('issuer', maxlen=2)
        d.issuer = dissuer
    if must != 'unset':
        d.mustBePresent = must == 'true'
    request = Request()
    for c in CATEGORIES:
        if c != cat:
            child = context_class(c)()
            child.attributes.append(make_attribute(
                did, dtype, dissuer, [attr_class(dtype)('alien')]))
            add_child(request, c, child)
    expected = []
    hits = []
    if not (absent and ctx.decide(ctx.bool('absent'))):
        child = context_class(cat)()
        n = ctx.choice('attrs', range(nattr[0], nattr[1] + 1))
        for j in range(n):
            aid = ctx.str('id%d' % j, maxlen=2)
            atype = ctx.str('type%d' % j, domain=(STRING, ANYURI))
            aissuer = None
            if ctx.decide(ctx.bool('has_issuer%d' % j)):
                aissuer = ctx.str('issuer%d' % j, maxlen=2)
            k = ctx.choice('values%d' % j, range(nval[0], nval[1] + 1))
            vals = [attr_class(dtype)('v%d_%d' % (j, l)) for l in range(k)]
            child.attributes.append(make_attribute(aid, atype, aissuer, vals))
            hits.append((And(Eq(aid, did), Eq(atype, dtype),
                             True if dissuer is None else
                             (False if aissuer is None
                              else Eq(aissuer, dissuer))), vals))
        add_child(request, cat, child)
    if through == 'rule':
        from ndg.xacml.core.rule import Rule, Effect
        from ndg.xacml.core.policy import Policy
        from ndg.xacml.core.apply import Apply
        from ndg.xacml.core.condition import Condition
        app = Apply()
        app.functionId = FN1 + ('string' if dtype == STRING else 'anyURI') + \
            '-at-least-one-member-of'
        bag = Apply()
        bag.functionId = FN1 + ('string' if dtype == STRING else 'anyURI') + \
            '-bag'
        lit = attr_class(dtype)('v0_0')
        bag.expressions.append(lit)
        app.expressions.append(d)
        app.expressions.append(bag)
        rule = Rule()
        rule.id = 'r'
        rule.effect = Effect(PERMIT)
        rule.condition = Condition()
        rule.condition.expression = app
        p = Policy()
        p.policyId = 'p'
        p.ruleCombiningAlgId = RULE_ALG + 'deny-overrides'
        p.rules.append(rule)
        out = ctx.call(p.evaluate, request)
        v = decision_value(out)
        ctx.observe('decision', v)
        for hit, vals in hits:
            if ctx.decide(hit):
                expected += vals
        ctx.check('missing-is-indeterminate',
                  Implies(must == 'true' and not expected, Eq(v, IND)))
        ctx.check('found-or-optional-decides', Implies(
            must != 'true' or bool(expected),
            Eq(v, PERMIT if any(e.value == 'v0_0' for e in expected)
               else NA)))
        return
    out = ctx.call(d.evaluate, request)
    for hit, vals in hits:
        if ctx.decide(hit):
            expected += vals
    ctx.observe('n', len(out.value) if out.ok else out.exc_name)
    if must == 'true' and not expected:
        ctx.check('missing-is-an-error', out.raised(MissingAttributeError))
    else:
        ctx.check('bag', out.ok and same_bag(out.value, expected))


def selector(ctx):
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.attributeselector import AttributeSelector
    from ndg.xacml.core.context.exceptions import MissingAttributeError
    from ndg.xacml.utils.xpath_selector import XPathSelectorInterface
    from ndg.xacml.utils import TypedList
    paths = []
    n = ctx.choice('n', range(4))
    texts = [ctx.str('t%d' % i, maxlen=3) for i in range(n)]

    class Sel(XPathSelectorInterface):
        def __init__(self):
            pass

        def selectText(self, path):
            paths.append(path)
            return list(texts)
    dtype = ctx.choice('type', (STRING, ANYURI, XS + 'integer', XS + 'double',
                                XS + 'boolean', 'urn:other'))
    must = ctx.choice('must', ['unset', 'false', 'true'])
    s = AttributeSelector()
    s.dataType = dtype
    path = ctx.str('path', maxlen=4)
    s.requestContextPath = path
    if must != 'unset':
        s.mustBePresent = must == 'true'
    request = Request()
    engine = ctx.choice('engine', ['set', 'unset'])
    if engine == 'set':
        request.attributeSelector = Sel()
    out = ctx.call(s.evaluate, request)
    ctx.observe('n', len(out.value) if out.ok else out.exc_name)
    if engine == 'unset':
        ctx.check('no-engine-is-an-error', not out.ok)
    elif dtype == 'urn:other':
        ctx.check('unknown-type-is-an-error', not out.ok)
    elif must == 'true' and n == 0:
        ctx.check('missing-is-an-error', out.raised(MissingAttributeError))
    elif dtype in (STRING, ANYURI) or n == 0:
        C = attr_class(dtype)
        ctx.check('selects', out.ok)
        ctx.check('exactly-the-selected-texts', out.ok and same_bag(
            out.value, [C(t) for t in texts]))
        ctx.check('bag-of-the-type', out.ok and
                  isinstance(out.value, TypedList) and
                  out.value.elementType is C)
        ctx.check('path', And([Eq(p, path) for p in paths]))
    else:
        # text that is not of the data type is never passed for a value of it
        ctx.check('typed-or-error', (not out.ok) or (
            len(out.value) == n and
            all(isinstance(v.value, {'integer': int, 'double': float,
                                     'boolean': bool}[dtype[len(XS):]])
                for v in out.value)))


def selector_arguments(ctx):
    from ndg.xacml.core.attributeselector import AttributeSelector
    kind = ctx.choice('kind', ['none', 'str', 'dict'])
    s = AttributeSelector()
    s.dataType = STRING
    s.requestContextPath = '/x'
    out = ctx.call(s.evaluate, {'none': None, 'str': 'x', 'dict': {}}[kind])
    ctx.check('not-a-request-is-an-error', not out.ok)
    ctx.observe('ok', out.ok)


def flags(ctx):
    """The mark takes booleans only."""
    from ndg.xacml.core.attributeselector import AttributeSelector
    which = ctx.choice('which', CATEGORIES + ('Selector',))
    d = AttributeSelector() if which == 'Selector' else designator(which)
    old = ctx.bool('old')
    d.mustBePresent = old
    kind = ctx.choice('kind', ['bool', 'str', 'int', 'none'])
    v = {'bool': lambda: ctx.bool('b'), 'str': lambda: ctx.str('s', maxlen=5),
         'int': lambda: ctx.int('i', -1, 2), 'none': lambda: None}[kind]()
    out = ctx.call(setattr, d, 'mustBePresent', v)
    ctx.observe('ok', out.ok)
    ctx.check('boolean-only', out.ok == (kind == 'bool'))
    ctx.check('value', Iff(d.mustBePresent, v if kind == 'bool' else old))


def warm_up():
    import ndg.xacml.core.policyset
    import ndg.xacml.core.policy
    import ndg.xacml.core.attributedesignator
    import ndg.xacml.core.functions as f
    for t in ('string', 'anyURI'):
        f.functionMap[FN1 + t + '-bag']
        f.functionMap[FN1 + t + '-at-least-one-member-of']


HARNESSES = [
    Harness('mandatory', mandatory, '0..1 attributes of 0..1 values, ids and '
            'issuers up to 2 characters, two types; like attributes in the '
            'other categories; the category may be absent from the request',
            params=dict(cats=CATEGORIES, nattr=(0, 1), nval=(0, 1),
                        absent=True),
            must_reach=('missing-is-an-error', 'bag')),
    Harness('mandatory-two', mandatory, '2 attributes of 1 value',
            params=dict(cats=CATEGORIES, nattr=(2, 2), nval=(1, 1)),
            must_reach=('missing-is-an-error', 'bag'), thorough_only=True),
    Harness('through-rule', mandatory, 'as mandatory, through a condition, '
            'rule and policy', params=dict(cats=CATEGORIES, nattr=(0, 1),
                                           nval=(0, 1), through='rule'),
            must_reach=('missing-is-indeterminate',
                        'found-or-optional-decides')),
    Harness('selector', selector, 'selections of 0..3 strings up to 3, paths '
            'up to 4, 6 data types', must_reach=(
                'no-engine-is-an-error', 'unknown-type-is-an-error',
                'missing-is-an-error', 'exactly-the-selected-texts',
                'typed-or-error')),
    Harness('selector-arguments', selector_arguments, '3 kinds of argument',
            must_reach=('not-a-request-is-an-error',)),
    Harness('flags', flags, '4 kinds of value', must_reach=('value',)),
]
