"""C06 a single match."""
from harness.common import *

ASSUMPTIONS = [
    'designators and selectors are stand-ins that return an arbitrary bag or '
    'raise (their own behaviour: C07-C09)',
]
CATEGORIES = ('Subject', 'Resource', 'Action', 'Environment')
STRING = 'http://www.w3.org/2001/XMLSchema#string'
FN1 = 'urn:oasis:names:tc:xacml:1.0:function:'
FN2 = 'urn:oasis:names:tc:xacml:2.0:function:'


def attr_class(uri=STRING):
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory
    return AttributeValueClassFactory()(uri)


def match_class(cat):
    import ndg.xacml.core.match as m
    return getattr(m, cat + 'Match')


def source_stub(cat, source, fn):
    """A designator or selector that evaluates to fn(context)."""
    import ndg.xacml.core.attributedesignator as d
    from ndg.xacml.core.attributeselector import AttributeSelector
    base = AttributeSelector if source == 'selector' else \
        getattr(d, cat + 'AttributeDesignator')

    class Stub(base):
        def evaluate(self, context):
            return fn(context)
    return Stub()


def attach(match, source, stub):
    if source == 'selector':
        match.attributeSelector = stub
    else:
        match.attributeDesignator = stub


def stub_function(match, fn):
    from ndg.xacml.core.functions import AbstractFunction, FunctionMap

    class StubFunction(AbstractFunction):
        FUNCTION_NS = 'urn:stub:function'

        def evaluate(self, *args):
            return fn(*args)
    fm = FunctionMap()
    fm['urn:stub:function'] = StubFunction
    match.functionMap = fm
    match.matchId = 'urn:stub:function'


def any_of(ctx, nmax, errors, ns=None, cats=CATEGORIES,
           sources=('designator', 'selector'), few=False):
    """Arbitrary outcomes of the function for each value of the bag; with
    ``few`` it holds for at most two of them, at any places."""
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.utils import TypedList
    S = attr_class()
    cat = ctx.choice('category', cats)
    source = ctx.choice('source', sources)
    n = ctx.choice('n', ns or range(nmax + 1))
    bag = TypedList(S)
    vals, errs = [], []
    if few:
        places = [ctx.int('place%d' % k, -1, n - 1) for k in range(2)]
    for i in range(n):
        bag.append(S('v%d' % i))
        vals.append(Or([Eq(p, i) for p in places]) if few else
                    ctx.bool('holds%d' % i))
        errs.append(ctx.bool('fails%d' % i) if errors else False)
    values = list(bag)
    source_fails = ctx.bool('source_fails') if errors else False
    request = Request()
    match = match_class(cat)()
    policy_value = S('policy')
    match.attributeValue = policy_value
    bad = []

    def fetch(context):
        if context is not request:
            bad.append('request')
        if source_fails:
            raise StubError('source')
        return bag
    attach(match, source, source_stub(cat, source, fetch))

    def fn(*args):
        if len(args) != 2 or args[0] is not policy_value or \
                not any(args[1] is v for v in values):
            bad.append('arguments')
            return True
        i = [args[1] is v for v in values].index(True)
        if errs[i]:
            raise StubError('function')
        return vals[i]
    stub_function(match, fn)
    out = ctx.call(match.evaluate, request)
    ctx.observe('match', out.value if out.ok else out.exc_name)
    lo = Or([And(v, Not(e)) for v, e in zip(vals, errs)])
    hi = Or([Or(v, e) for v, e in zip(vals, errs)])
    if errors:
        anyerr = Or(errs)
        ctx.check('match-or-error', If(
            source_fails, not out.ok, resolved(out, b, lo, hi, anyerr)))
    else:
        ctx.check('no-error', out.ok)
        ctx.check('match', Iff(b(out.value), lo) if out.ok else False)
        again = ctx.call(match.evaluate, request)
        ctx.check('repeatable', Iff(b(again.value), lo) if again.ok else
                  False)
    ctx.check('function-gets-policy-value-then-request-value', not bad)
    ctx.check('bag-unchanged', len(bag) == n and
              all(x is y for x, y in zip(bag, values)))


def real_functions(ctx, fname, dom, nmax):
    """The real match functions: which value is the pattern matters."""
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.utils import TypedList
    S = attr_class()
    cat = ctx.choice('category', CATEGORIES)
    n = ctx.choice('n', range(nmax + 1))
    match = match_class(cat)()
    match.matchId = FN1 + fname
    if fname == 'string-regexp-match':
        pv = ctx.choice('pattern', ['a.c', '^/x/', 'b+$', '[ab]{2}', 'A|B'])
    else:
        pv = ctx.str('policy', maxlen=3)
    match.attributeValue = S(pv)
    bag = TypedList(S)
    vals = []
    for i in range(n):
        v = ctx.str('value%d' % i, maxlen=4)
        vals.append(v)
        bag.append(S(v))
    attach(match, 'designator', source_stub(cat, 'designator',
                                            lambda c: bag))
    out = ctx.call(match.evaluate, Request())
    ctx.observe('match', out.value if out.ok else out.exc_name)
    if fname == 'string-regexp-match':
        ref = Or([ReMatch('match', pv, v) for v in vals])
    else:
        ref = Or([Eq(pv, v) for v in vals])
    ctx.check('match', Iff(b(out.value), ref) if out.ok else False)


def sources(ctx):
    """No source is an error; a new source replaces the old one."""
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.utils import TypedList
    S = attr_class()
    cat = ctx.choice('category', CATEGORIES)
    match = match_class(cat)()
    match.attributeValue = S('policy')
    stub_function(match, lambda a, c: True)
    steps = ctx.choice('steps', range(0, 4))
    last = None
    for i in range(steps):
        src = ctx.choice('source%d' % i, ['designator', 'selector'])
        has = ctx.bool('found%d' % i)

        def fetch(context, has=has):
            bag = TypedList(S)
            if has:
                bag.append(S('x'))
            return bag
        attach(match, src, source_stub(cat, src, fetch))
        last = has
    out = ctx.call(match.evaluate, Request())
    ctx.observe('match', out.value if out.ok else out.exc_name)
    if last is None:
        ctx.check('no-source-is-an-error', not out.ok)
    else:
        ctx.check('last-source-counts',
                  Iff(b(out.value), last) if out.ok else False)


def incomplete(ctx):
    """A match without function or literal never holds."""
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.utils import TypedList
    S = attr_class()
    cat = ctx.choice('category', CATEGORIES)
    match = match_class(cat)()
    what = ctx.choice('missing', ['function', 'value'])
    if what == 'value':
        match.matchId = FN1 + ctx.choice('function', [
            'string-equal', 'string-regexp-match', 'x500Name-match'])
    else:
        match.attributeValue = S(ctx.str('policy', maxlen=3))
    n = ctx.choice('n', range(3))
    bag = TypedList(S)
    for i in range(n):
        bag.append(S(ctx.str('v%d' % i, maxlen=3)))
    attach(match, 'designator', source_stub(cat, 'designator',
                                            lambda c: bag))
    out = ctx.call(match.evaluate, Request())
    ctx.observe('ok', out.ok)
    ctx.check('incomplete-never-holds', Or(not out.ok, Not(b(out.value)))
              if out.ok else True)


def warm_up():
    import ndg.xacml.core.policyset
    import ndg.xacml.core.policy
    import ndg.xacml.core.functions as f
    for n in ('string-equal', 'string-regexp-match', 'x500Name-match'):
        f.functionMap[FN1 + n]


HARNESSES = [
    Harness('any-of', any_of, 'bags of 0..4, every outcome of the function, '
            '4 categories, designator or selector',
            params=dict(nmax=4, errors=False),
            must_reach=('match', 'repeatable',
                        'function-gets-policy-value-then-request-value')),
    Harness('any-of-many', any_of, 'bags of 5, 7, 10 and 16, of '
            'which at most two values match',
            params=dict(ns=(5, 7, 10, 16), nmax=16, errors=False, few=True,
                        cats=['Resource'],
                        sources=['designator']), must_reach=('match',)),
    Harness('errors', any_of, 'bags of 0..3, values and source may fail',
            params=dict(nmax=3, errors=True),
            must_reach=('match-or-error',)),
    Harness('equal', real_functions, 'string-equal, strings up to 4, bags of '
            '0..3', params=dict(fname='string-equal', dom=None, nmax=3),
            must_reach=('match',)),
    Harness('regexp', real_functions, 'string-regexp-match, 5 patterns, '
            'strings up to 4, bags of 0..2',
            params=dict(fname='string-regexp-match', dom=None, nmax=2),
            must_reach=('match',)),
    Harness('sources', sources, 'up to 3 assignments of a source',
            must_reach=('no-source-is-an-error', 'last-source-counts')),
    Harness('incomplete', incomplete, 'literal or function never set',
            must_reach=('incomplete-never-holds',)),
    Harness('any-of-deep', any_of, 'bags of 0..6',
            params=dict(nmax=6, errors=False), thorough_only=True,
            must_reach=('match',)),
    Harness('regexp-deep', real_functions, 'as regexp, bags of 0..4',
            params=dict(fname='string-regexp-match', dom=None, nmax=4),
            thorough_only=True, must_reach=('match',)),
]
