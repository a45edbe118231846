"""C14 function application."""
from harness.funcs import *

ASSUMPTIONS = ['operands and functions of the order and error harnesses are '
               'stand-ins whose results are symbolic; the nested harnesses '
               'use the real functions, designators and requests']


def recording(fn):
    """An Apply of a function that answers fn(*arguments)."""
    from ndg.xacml.core.apply import Apply
    from ndg.xacml.core.functions import AbstractFunction, FunctionMap

    class Recording(AbstractFunction):
        FUNCTION_NS = 'urn:x:recording'

        def evaluate(self, *inputs):
            return fn(*inputs)
    fm = FunctionMap()
    fm['urn:x:recording'] = Recording
    a = Apply()
    a.loadFunctionFromId = False
    a.functionId = 'urn:x:recording'
    a.setFunctionFromMap(fm)
    return a


def apply(ident, *exprs):
    from ndg.xacml.core.apply import Apply
    a = Apply()
    a.functionId = ident
    for e in exprs:
        a.expressions.append(e)
    return a


def order(ctx, nmax):
    n = ctx.choice('n', range(nmax + 1))
    dup = ctx.choice('duplicate', [False, True])
    request = object()
    got, seen = [], []
    values = [ctx.str('v%d' % i, maxlen=3) for i in range(n)]
    result = ctx.str('result', maxlen=3)

    def fn(*args):
        got.append(args)
        return result
    a = recording(fn)

    def operand(i):
        def f(context):
            seen.append(context is request)
            return values[i]
        return make_expr(ctx, f)
    exprs = [operand(i) for i in range(n)]
    if dup and n:                   # the same expression object twice
        exprs.append(exprs[0])
        values.append(values[0])
    for e in exprs:
        a.expressions.append(e)
    for turn in range(2):
        del got[:], seen[:]
        out = ctx.call(a.evaluate, request)
        ctx.check('result', out.ok and out.value is result)
        ctx.check('called-once-with-all', len(got) == 1 and
                  len(got[0]) == len(values))
        ctx.check('in-order', len(got) == 1 and
                  len(got[0]) == len(values) and
                  all(x is y for x, y in zip(got[0], values)))
        ctx.check('request-passed-on', len(seen) == len(values) and
                  all(seen))
    ctx.check('operands-kept', len(a.expressions) == len(exprs) and
              all(x is y for x, y in zip(a.expressions, exprs)))


def many(ctx, ns, depths):
    """Many operands, of which any one may fail; and deep nesting."""
    n, (at,) = sparse(ctx, ns, 1)
    depth = ctx.choice('depth', depths)
    fails, answer = ctx.bool('fails'), ctx.str('answer', maxlen=4)
    seen = []

    def operand(i):
        def f(context):
            seen.append(i)
            if i != at:
                return i
            if fails:
                raise StubError(i)
            return answer
        return make_expr(ctx, f)

    def fn(*args):
        return args
    top = recording(fn)
    for i in range(n):
        top.expressions.append(operand(i))
    for d in range(depth):
        outer = recording(lambda *args: args)
        outer.expressions.append(make_expr(ctx, lambda c: 'first'))
        outer.expressions.append(top)
        top = outer
    for turn in range(2):
        del seen[:]
        out = ctx.call(top.evaluate, object())
        ctx.check('error-of-the-whole', Iff(not out.ok, fails))
        if not out.ok:
            continue
        ctx.check('each-once-in-order', seen == list(range(n)))
        v = out.value
        for d in range(depth):
            ctx.check('in-order', len(v) == 2 and v[0] == 'first')
            v = v[1]
        ctx.check('in-order', len(v) == n and And([
            x is answer if i == at else x == i for i, x in enumerate(v)]))


def errors(ctx, nmax, kinds):
    """Operands or the function fail, possibly several of them."""
    from ndg.xacml.core.rule import Rule, Effect
    from ndg.xacml.core.condition import Condition
    n = ctx.choice('n', range(nmax + 1))
    exc = ctx.choice('kind', kinds)
    exc = [e for e in error_kinds() if e.__name__ == exc][0]
    fails = [ctx.bool('fails%d' % i) for i in range(n)]
    ffails = ctx.bool('function-fails')
    answer = ctx.bool('answer')

    def fn(*args):
        if ffails:
            raise exc('function')
        return answer

    def operand(i):
        def f(context):
            if fails[i]:
                raise exc('operand')
            return i
        return make_expr(ctx, f)
    a = recording(fn)
    for i in range(n):
        a.expressions.append(operand(i))
    top = a
    depth = ctx.choice('depth', [0, 1, 2])
    for d in range(depth):
        outer = recording(lambda *args: args[-1])
        if d:
            outer.expressions.append(make_expr(ctx, lambda c: 'first'))
        outer.expressions.append(top)
        top = outer
    anyfail = Or(list(fails) + [ffails])
    out = ctx.call(top.evaluate, object())
    ctx.observe('ok', out.ok)
    ctx.check('error-of-the-whole', Iff(not out.ok, anyfail))
    if out.ok:
        ctx.check('value-of-the-function', Iff(out.value, answer))
    c = Condition()
    c.expression = top
    r = Rule()
    r.effect = Effect(Effect.PERMIT_STR)
    r.condition = c
    dec = ctx.call(r.evaluate, object())
    ctx.observe('decision', decision_value(dec))
    ctx.check('rule-indeterminate', Eq(decision_value(dec), If(
        anyfail, IND, If(answer, PERMIT, NA))))


def request_of(ctx, subj, res):
    """A request with the given string values of one subject and resource
    attribute."""
    from ndg.xacml.core.context.request import Request
    S = attr_class(STRING)
    r = Request()
    for cat, ident, vals in (('Subject', 'urn:s', subj),
                             ('Resource', 'urn:r', res)):
        child = context_class(cat)()
        child.attributes.append(make_attribute(ident, STRING, None,
                                               [S(v) for v in vals]))
        add_child(r, cat, child)
    return r


def desig(cat, ident, must=False):
    d = designator(cat)
    d.attributeId = ident
    d.dataType = STRING
    d.mustBePresent = must
    return d


def alike(ctx, n):
    """Operands that resemble one another are still evaluated each."""
    from ndg.xacml.core.context.request import Request
    rows = {'Subject': [('urn:x', STRING, None), ('urn:x', STRING, 'i'),
                        ('urn:x', ANYURI, None), ('urn:y', STRING, None)],
            'Resource': [('urn:x', STRING, None)],
            'Environment': [('urn:x', STRING, 'i')]}
    r = Request()
    held = {}
    for cat, attrs in rows.items():
        child = context_class(cat)()
        for i, (ident, dtype, issuer) in enumerate(attrs):
            v = attr_class(dtype)(ctx.str('%s%d' % (cat, i)))
            held[cat, ident, dtype, issuer] = v
            child.attributes.append(make_attribute(ident, dtype, issuer,
                                                   [v]))
        add_child(r, cat, child)
    text = ctx.str('text')
    wants = [('Subject', 'urn:x', STRING, None), ('Resource', 'urn:x',
                                                  STRING, None),
             ('Subject', 'urn:x', STRING, 'i'), ('Subject', 'urn:x', ANYURI,
                                                 None),
             ('Subject', 'urn:y', STRING, None), ('Environment', 'urn:x',
                                                  STRING, 'i'),
             'literal', 'same-literal', 'uri-literal', 'apply', 'apply-2']
    got, inner = [], []

    def outer(*args):
        got.append(args)
        return True

    def inside(*args):
        inner.append(args)
        return attr_class(STRING)(text)
    a = recording(outer)
    picks = [ctx.choice('operand%d' % i, range(len(wants)))
             for i in range(n)]
    expected = []
    for i in picks:
        w = wants[i]
        if w in ('literal', 'same-literal', 'uri-literal'):
            dtype = ANYURI if w == 'uri-literal' else STRING
            e = attr_class(dtype)(text)
            expected.append([e])
        elif w in ('apply', 'apply-2'):
            e = recording(inside)
            for j in range(2 if w == 'apply-2' else 1):
                e.expressions.append(attr_class(STRING)(text))
            expected.append([attr_class(STRING)(text)])
        else:
            cat, ident, dtype, issuer = w
            e = desig(cat, ident)
            e.dataType = dtype
            if issuer is not None:
                e.issuer = issuer
            expected.append([v for k, v in held.items() if k[:3] == w[:3] and
                             (issuer is None or k[3] == issuer)])
        a.expressions.append(e)
    for turn in range(2):
        del got[:], inner[:]
        out = ctx.call(a.evaluate, r)
        ctx.check('called', out.ok and len(got) == 1 and len(got[0]) == n)
        ctx.check('each-its-own-value', And([
            same_bag(g if isinstance(g, list) else [g], x)
            for g, x in zip(got[0], expected)]))
        ctx.check('inner-applied-each-time', [len(x) for x in inner] == [
            2 if wants[i] == 'apply-2' else 1 for i in picks
            if wants[i] in ('apply', 'apply-2')])


def nested(ctx, maxlen):
    """Compositions in which the order and the grouping matter."""
    S = attr_class(STRING)
    x, y, k = (ctx.str(n, maxlen=maxlen) for n in 'xyk')
    subject = lambda: apply(FN1 + 'string-one-and-only',
                            desig('Subject', 'urn:s'))
    resource = lambda: apply(FN1 + 'string-one-and-only',
                             desig('Resource', 'urn:r'))
    cat = lambda *e: apply(FN2 + 'string-concatenate', *e)
    eq = lambda p, q: apply(FN1 + 'string-equal', p, q)
    shape = ctx.choice('shape', ['concat', 'concat-reversed', 'concat-nested',
                                 'concat-nested-right', 'member', 'rxp'])
    lit = S('/')
    if shape == 'concat':
        e = eq(cat(subject(), lit, resource()), S(k))
        ref = Eq(Concat(x, '/', y), k)
    elif shape == 'concat-reversed':
        e = eq(S(k), cat(resource(), lit, subject()))
        ref = Eq(Concat(y, '/', x), k)
    elif shape == 'concat-nested':
        e = eq(cat(cat(subject(), resource()), lit), S(k))
        ref = Eq(Concat(x, y, '/'), k)
    elif shape == 'concat-nested-right':
        e = eq(cat(subject(), cat(lit, resource())), S(k))
        ref = Eq(Concat(x, '/', y), k)
    elif shape == 'member':
        e = apply(FN1 + 'string-at-least-one-member-of',
                  apply(FN1 + 'string-bag', lit, resource(),
                        cat(subject(), lit)),
                  apply(FN1 + 'string-bag', S(k)))
        ref = Or(Eq(k, '/'), Eq(k, y), Eq(k, Concat(x, '/')))
    else:
        e = apply(FN1 + 'string-regexp-match', S('/a+$'),
                  cat(lit, resource()))
        ref = ReMatch('match', 'a+$', y)
    r = request_of(ctx, [x], [y])
    out = ctx.call(e.evaluate, r)
    ctx.observe('value', out.value if out.ok else out.exc_name)
    ctx.check('value', out.ok and IsBool(out.value) and Iff(out.value, ref))
    # the arguments of another request do not linger
    r2 = request_of(ctx, [y], [x])
    ctx.call(e.evaluate, r2)
    again = ctx.call(e.evaluate, r)
    ctx.check('again', again.ok and IsBool(again.value) and
              Iff(again.value, ref))


def bags(ctx, nmax, maxlen):
    """Bags of any size reach the function that wants exactly one."""
    from ndg.xacml.core.rule import Rule, Effect
    from ndg.xacml.core.condition import Condition
    n = ctx.choice('n', range(nmax + 1))
    m = ctx.choice('m', range(nmax + 1))
    must = ctx.choice('must', [False, True])
    xs = [ctx.str('x%d' % i, maxlen=maxlen) for i in range(n)]
    ys = [ctx.str('y%d' % i, maxlen=maxlen) for i in range(m)]
    e = apply(FN1 + 'and',
              apply(FN1 + 'string-equal',
                    apply(FN1 + 'string-one-and-only',
                          desig('Subject', 'urn:s')), attr_class(STRING)('a')),
              apply(FN1 + 'not', apply(
                  FN1 + 'string-at-least-one-member-of',
                  desig('Subject', 'urn:s'),
                  desig('Resource', 'urn:r', must))))
    c = Condition()
    c.expression = e
    r = Rule()
    r.effect = Effect(Effect.PERMIT_STR)
    r.condition = c
    dec = ctx.call(r.evaluate, request_of(ctx, xs, ys))
    d = decision_value(dec)
    ctx.observe('decision', d)
    if n != 1:
        # an error, which may be avoided only when the other operand decides
        ctx.check('not-one-is-an-error', Or(
            Eq(d, IND), And(Eq(d, NA), Or([Eq(x, y) for x in xs
                                           for y in ys]))))
        ctx.check('never-permits', Not(Eq(d, PERMIT)))
    else:
        ref = And(Eq(xs[0], 'a'), Not(Or([Eq(xs[0], y) for y in ys])))
        ok = If(ref, PERMIT, NA)
        if must and not m:
            ctx.check('missing-is-an-error', Or(
                Eq(d, IND), And(Eq(d, NA), Not(Eq(xs[0], 'a')))))
        else:
            ctx.check('decision', Eq(d, ok))


def no_function(ctx):
    """An application whose function was never found answers nothing."""
    from ndg.xacml.core.apply import Apply
    from ndg.xacml.core.rule import Rule, Effect
    from ndg.xacml.core.condition import Condition
    a = Apply()
    n = ctx.choice('n', range(3))
    for i in range(n):
        a.expressions.append(plain_value('string'))
    if ctx.choice('unloaded', [False, True]):
        a.loadFunctionFromId = False
        a.functionId = FN1 + 'string-equal'
    out = ctx.call(a.evaluate, object())
    ctx.observe('ok', out.ok)
    ctx.check('no-function-is-an-error', not out.ok)
    c = Condition()
    c.expression = a
    r = Rule()
    r.effect = Effect(Effect.PERMIT_STR)
    r.condition = c
    ctx.check('rule-indeterminate', Eq(
        decision_value(ctx.call(r.evaluate, object())), IND))


def foreign_operand(ctx):
    """Only expressions are taken as operands."""
    from ndg.xacml.core.apply import Apply
    kind = ctx.choice('kind', NATIVE + ['rule', 'condition'])
    from ndg.xacml.core.rule import Rule
    from ndg.xacml.core.condition import Condition
    bad = {'rule': Rule, 'condition': Condition}[kind]() \
        if kind in ('rule', 'condition') else argument(ctx, 'bad', kind)
    how = ctx.choice('how', ['append', 'insert', 'extend', '+='])
    a = Apply()
    a.expressions.append(plain_value('string'))

    def do():
        e = a.expressions
        if how == 'append':
            e.append(bad)
        elif how == 'insert':
            e.insert(0, bad)
        elif how == 'extend':
            e.extend([bad])
        else:
            e += [bad]
    out = ctx.call(do)
    ctx.observe('ok', out.ok)
    ctx.check('refused', not out.ok and len(a.expressions) == 1)


warm_up = load_all
KINDS = ['StubError', 'MissingAttributeError', 'StopIteration']
ALL = ['StubError', 'XacmlContextError', 'XacmlContextTypeError',
       'MissingAttributeError', 'TypeError', 'ValueError', 'KeyError',
       'AttributeError', 'NotImplementedError', 'StopIteration',
       'UnsupportedStdFunctionError', 'ZeroDivisionError']

HARNESSES = [
    Harness('order', order, '0..5 operands of arbitrary value, one of them '
            'possibly given twice', params=dict(nmax=5),
            must_reach=('in-order', 'result', 'request-passed-on')),
    Harness('many', many, '6, 11 or 20 operands, any one of which may fail, '
            'in 0 or 2 other applications', params=dict(
                ns=(6, 11, 20), depths=(0, 2)),
            must_reach=('in-order', 'error-of-the-whole')),
    Harness('deep', many, '1..2 operands, in 5, 12 or 25 other applications',
            params=dict(ns=(1, 2), depths=(5, 12, 25)),
            must_reach=('in-order', 'error-of-the-whole')),
    Harness('alike', alike, '2 operands out of 11 that resemble each other '
            'in identifier, type, issuer or text', params=dict(n=2),
            must_reach=('each-its-own-value', 'inner-applied-each-time')),
    Harness('alike-3', alike, '3 operands', params=dict(n=3),
            must_reach=('each-its-own-value',), thorough_only=True),
    Harness('errors', errors, '0..3 operands and the function, any of which '
            'fail, 3 kinds of error, nesting of 0..2 applications around',
            params=dict(nmax=3, kinds=KINDS),
            must_reach=('error-of-the-whole', 'rule-indeterminate')),
    Harness('nested', nested, '6 compositions of real functions, strings up '
            'to 4', params=dict(maxlen=4), must_reach=('value', 'again')),
    Harness('bags', bags, 'bags of 0..2 strings up to 2',
            params=dict(nmax=2, maxlen=2),
            must_reach=('not-one-is-an-error', 'decision',
                        'missing-is-an-error')),
    Harness('no-function', no_function, '0..2 operands',
            must_reach=('no-function-is-an-error',)),
    Harness('foreign-operand', foreign_operand, '10 kinds of object',
            must_reach=('refused',)),
    Harness('errors-deep', errors, '0..4 operands, 12 kinds of error',
            params=dict(nmax=4, kinds=ALL), must_reach=('rule-indeterminate',),
            thorough_only=True),
    Harness('nested-deep', nested, 'strings up to 12',
            params=dict(maxlen=12), must_reach=('value',),
            thorough_only=True),
    Harness('bags-deep', bags, 'bags of 0..3 strings up to 3',
            params=dict(nmax=3, maxlen=3), must_reach=('decision',),
            thorough_only=True),
]
