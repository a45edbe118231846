"""C09 attributes supplied by the context handler."""
from harness.common import *

ASSUMPTIONS = [
    'the context handler is a stand-in that supplies arbitrary values',
]
CONTENT = ('x', 'y')


def handler(fn):
    from ndg.xacml.core.context.handlerinterface import CtxHandlerInterface

    class Handler(CtxHandlerInterface):
        def handlePEPRequest(self, pepRequest):
            raise NotImplementedError()

        def pipQuery(self, request, designator):
            return fn(request, designator)
    return Handler()


def supplied(ctx, tag, nmax, C, shapes=('list',)):
    """None or 0..nmax arbitrary values, as one of several containers."""
    from ndg.xacml.utils import TypedList
    n = ctx.choice('supply' + tag, ['none'] + list(range(nmax + 1)))
    if n == 'none':
        return [], lambda: None, []
    vals = [C(ctx.str('s%s_%d' % (tag, i), domain=CONTENT))
            for i in range(n)]
    shape = ctx.choice('shape' + tag, shapes) if len(shapes) > 1 else \
        shapes[0]

    # what the context handler holds itself and may answer with again
    if shape == 'bag':
        held = TypedList(C)
        for v in vals:
            held.append(v)
    else:
        held = list(vals)

    def give():
        if shape == 'tuple':
            return tuple(vals)
        if shape == 'generator':
            return (v for v in vals)
        return held
    return vals, give, held


def count(bag, c):
    return Count([Eq(v.value, c) for v in bag])


def subsequence(short, long):
    """``short`` is a subsequence of ``long``, by content."""
    if not short:
        return True
    if len(short) > len(long):
        return False
    return Or(And(Eq(short[0].value, long[0].value),
                  subsequence(short[1:], long[1:])),
              subsequence(short, long[1:]))


def adds(ctx, nsubj, nval, nsup, shapes=('list',), must=False):
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.context.exceptions import MissingAttributeError
    from ndg.xacml.utils import TypedList
    C = attr_class(STRING)
    d = designator('Subject')
    d.attributeId = 'id'
    d.dataType = STRING
    if must:
        d.mustBePresent = True
    request = Request()
    own = []
    n = ctx.choice('subjects', range(nsubj[0], nsubj[1] + 1))
    for i in range(n):
        s = context_class('Subject')()
        k = ctx.choice('values%d' % i, range(nval + 1))
        vals = [C(ctx.str('v%d_%d' % (i, j), domain=CONTENT))
                for j in range(k)]
        hit = ctx.decide(ctx.bool('hit%d' % i))
        s.attributes.append(make_attribute('id' if hit else 'other', STRING,
                                           None, vals))
        if hit:
            own += vals
        add_child(request, 'Subject', s)
    asked = []
    answers = []
    for i in range(n):
        answers.append(supplied(ctx, '%d' % i, nsup, C, shapes))
    given = []

    def query(r, des):
        asked.append((r, des))
        if len(asked) > n:
            return None
        vals, give, held = answers[len(asked) - 1]
        given.extend(vals)
        return give()
    request.ctxHandler = handler(query)
    before = request_state(request)
    out = ctx.call(d.evaluate, request)
    ctx.observe('bag', [v.value for v in out.value] if out.ok else
                out.exc_name)
    ctx.check('asks-for-this-request-and-designator',
              all(r is request and des is d for r, des in asked))
    ctx.check('asks-when-there-is-a-subject', bool(asked) or n == 0)
    ctx.check('answers-left-as-given', all(
        len(held) == len(vals) and all(a is b for a, b in zip(held, vals))
        for vals, give, held in answers))
    if must and not own and not given:
        ctx.check('missing-is-an-error', out.raised(MissingAttributeError))
        return
    ctx.check('no-error', out.ok)
    if not out.ok:
        return
    bag = list(out.value)
    ctx.check('bag-of-the-type', isinstance(out.value, TypedList) and
              out.value.elementType is C and
              all(type(v) is C for v in bag))
    ctx.check('own-values-kept-in-order', subsequence(own, bag))
    for c in CONTENT:
        cb, co, cg = count(bag, c), count(own, c), count(given, c)
        ctx.check('own-values-kept', cb >= co)
        ctx.check('supplied-values-added', Implies(cg >= 1, cb >= 1))
        ctx.check('nothing-else-added', cb <= co + cg)
        if n == 1:
            ctx.check('present-values-not-repeated',
                      Implies(co >= 1, Eq(cb, co)))
    ctx.check('request-unchanged', same_state(before,
                                              request_state(request)))


def many(ctx, ns, nsubj):
    """Many supplied values, any one of them arbitrary, and many subjects."""
    from ndg.xacml.core.context.request import Request
    C = attr_class(STRING)
    d = designator('Subject')
    d.attributeId, d.dataType = 'id', STRING
    request = Request()
    k, (at,) = sparse(ctx, ns, 1)
    n = ctx.choice('subjects', nsubj)
    special = ctx.str('special', maxlen=3)
    own = []
    for i in range(n):
        s = context_class('Subject')()
        own.append(ctx.str('own', maxlen=3) if i == n - 1 else 'o%d' % i)
        s.attributes.append(make_attribute('id', STRING, None,
                                           [C(own[-1])]))
        add_child(request, 'Subject', s)
    texts = [special if i == at else 's%d' % i for i in range(k)]
    asked = []

    def query(r, des):
        asked.append(1)
        return [C(t) for t in texts] if len(asked) == n else None
    request.ctxHandler = handler(query)
    before = request_state(request)
    out = ctx.call(d.evaluate, request)
    ctx.check('no-error', out.ok)
    bag = [v.value for v in out.value]
    ctx.observe('bag', bag)
    for i, t in enumerate(own):
        ctx.check('own-values-kept', Or([Eq(v, t) for v in bag]))
    for t in texts:
        ctx.check('supplied-values-added', Or([Eq(v, t) for v in bag]))
    ctx.check('nothing-else-added', And([len(bag) <= n + k] + [
        Or([Eq(v, t) for t in own + texts]) for v in bag]))
    ctx.check('request-unchanged', same_state(before,
                                              request_state(request)))


def foreign(ctx):
    """Values of another type, and a failing handler, are errors."""
    from ndg.xacml.core.context.request import Request
    d = designator('Subject')
    d.attributeId = 'id'
    d.dataType = STRING
    C, U, I = attr_class(STRING), attr_class(ANYURI), attr_class(INTEGER)
    request = Request()
    s = context_class('Subject')()
    k = ctx.choice('own', range(3))
    s.attributes.append(make_attribute(
        'id', STRING, None, [C(ctx.str('v%d' % i, maxlen=2))
                             for i in range(k)]))
    add_child(request, 'Subject', s)
    kind = ctx.choice('kind', ['anyURI', 'integer', 'str', 'int', 'mixed',
                               'raises', 'number', 'nested'])
    txt = ctx.str('text', maxlen=2)
    sup = {'anyURI': [U(txt)], 'integer': [I(ctx.int('i', 0, 2))],
           'str': [txt], 'int': [1], 'mixed': [C(txt), U(txt)],
           'raises': None, 'number': 7, 'nested': [[C(txt)]]}[kind]

    def query(r, des):
        if kind == 'raises':
            raise StubError()
        return sup
    request.ctxHandler = handler(query)
    out = ctx.call(d.evaluate, request)
    ctx.observe('ok', out.ok)
    ctx.check('foreign-value-is-an-error', not out.ok)


def others(ctx):
    """The request keeps only context handlers; without one nothing is
    asked."""
    from ndg.xacml.core.context.request import Request
    request = Request()
    kind = ctx.choice('kind', ['none', 'str', 'object', 'function'])
    v = {'none': None, 'str': 'x', 'object': object(),
         'function': (lambda r, d: None)}[kind]
    out = ctx.call(setattr, request, 'ctxHandler', v)
    ctx.observe('ok', out.ok)
    ctx.check('handlers-only', not out.ok and request.ctxHandler is None)


def through_match(ctx):
    """A supplied value makes a match hold, a missing one does not."""
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.match import SubjectMatch
    C = attr_class(STRING)
    m = SubjectMatch()
    m.matchId = FN1 + 'string-equal'
    lit = ctx.str('literal', maxlen=2)
    m.attributeValue = C(lit)
    d = designator('Subject')
    d.attributeId = 'id'
    d.dataType = STRING
    m.attributeDesignator = d
    request = Request()
    n = ctx.choice('subjects', range(1, 3))
    vals = []
    for i in range(n):
        s = context_class('Subject')()
        v = ctx.str('own%d' % i, maxlen=2)
        vals.append(v)
        s.attributes.append(make_attribute('id', STRING, None, [C(v)]))
        add_child(request, 'Subject', s)
    k = ctx.choice('supply', range(3))
    sup = [ctx.str('s%d' % i, maxlen=2) for i in range(k)]
    request.ctxHandler = handler(lambda r, des: [C(x) for x in sup])
    out = ctx.call(m.evaluate, request)
    ctx.observe('match', out.value if out.ok else out.exc_name)
    ctx.check('match', Iff(b(out.value), Or([Eq(lit, v)
                                             for v in vals + sup]))
              if out.ok else False)


def warm_up():
    import ndg.xacml.core.policyset
    import ndg.xacml.core.policy
    import ndg.xacml.core.functions as f
    f.functionMap[FN1 + 'string-equal']


MR = ('own-values-kept', 'supplied-values-added', 'nothing-else-added',
      'own-values-kept-in-order')
HARNESSES = [
    Harness('one-subject', adds, '0..1 subjects of 0..2 values, 0..2 values '
            'supplied as list, tuple, generator or typed list',
            params=dict(nsubj=(0, 1), nval=2, nsup=2,
                        shapes=('list', 'tuple', 'generator', 'bag')),
            must_reach=MR + ('present-values-not-repeated',)),
    Harness('two-subjects', adds, '2 subjects of 0..1 values, 0..1 values '
            'supplied for each', params=dict(nsubj=(2, 2), nval=1, nsup=1),
            must_reach=MR),
    Harness('many', many, '5, 9 or 14 values supplied, any one of them '
            'arbitrary, 1 or 4 subjects', params=dict(
                ns=(5, 9, 14), nsubj=[1, 4]),
            must_reach=('own-values-kept', 'supplied-values-added')),
    Harness('mandatory', adds, '0..1 subjects of 0..1 values, 0..1 supplied, '
            'attribute mandatory',
            params=dict(nsubj=(0, 1), nval=1, nsup=1, must=True),
            must_reach=MR + ('missing-is-an-error',)),
    Harness('foreign', foreign, '8 kinds of foreign answer, 0..2 own values',
            must_reach=('foreign-value-is-an-error',)),
    Harness('others', others, '4 kinds of value',
            must_reach=('handlers-only',)),
    Harness('through-match', through_match, '1..2 subjects, 0..2 supplied, '
            'strings up to 2', must_reach=('match',)),
    Harness('two-subjects-deep', adds, '2 subjects of 0..2 values, 0..2 '
            'values supplied for each',
            params=dict(nsubj=(2, 2), nval=2, nsup=2), must_reach=MR,
            thorough_only=True),
]
