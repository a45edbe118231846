"""C18 the vocabulary of decisions, effects and status codes."""
from harness.common import *

ASSUMPTIONS = []
FOREIGN = ['none', 'int', 'bool', 'float', 'list', 'bytes', 'dict', 'type',
           'other-vocabulary']
STATUS = 'urn:oasis:names:tc:xacml:1.0:status:'
VOCABULARY = {
    'Decision': DECISIONS,
    'Effect': (PERMIT, DENY),
    'ObligationEffect': (PERMIT, DENY),
    'StatusCode': tuple(STATUS + s for s in
                        ('ok', 'missing-attribute', 'processing-error',
                         'syntax-error')),
}
CONSTANTS = {'Decision': ('PERMIT', 'DENY', 'INDETERMINATE',
                          'NOT_APPLICABLE'),
             'Effect': ('PERMIT', 'DENY')}


def cls(name):
    from ndg.xacml.core.rule import Effect
    from ndg.xacml.core.context.result import Decision, StatusCode
    from ndg.xacml.core import obligation
    return dict(Decision=Decision, Effect=Effect, StatusCode=StatusCode,
                ObligationEffect=obligation.Effect)[name]


def foreign(ctx, tag, kind, name):
    if kind == 'int':
        return ctx.int(tag)
    if kind == 'bool':
        return ctx.bool(tag)
    if kind == 'float':
        return ctx.float(tag)
    if kind == 'other-vocabulary':
        other = dict(Decision='Effect', Effect='Decision',
                     StatusCode='Decision', ObligationEffect='Effect')[name]
        return cls(other)(PERMIT)
    return dict(none=None, list=[PERMIT], bytes=b'Permit',
                dict={PERMIT: PERMIT}, type=str)[kind]


def text_of(x):
    return x if not hasattr(x, 'value') else x.value


def constants_intact(ctx, name):
    c = cls(name)
    for k in CONSTANTS.get(name, ()):
        v = dict(zip(CONSTANTS['Decision'],
                     (PERMIT, DENY, IND, NA)))[k]
        ctx.check('constants-intact', Eq(getattr(c, k).value, v))


def construct(ctx, name):
    """Constructors accept exactly the vocabulary."""
    c = cls(name)
    voc = VOCABULARY[name]
    kind = ctx.choice('kind', ['str', 'object'] + (
        ['constant', 'default'] if name in CONSTANTS else []) + FOREIGN)
    if kind == 'str':
        s = ctx.str('s', maxlen=16)
        out = ctx.call(c, s)
        ctx.observe('out', out.value.value if out.ok else out.exc_name)
        ctx.check('vocabulary', Iff(out.ok, In(s, voc)))
        if out.ok:
            ctx.check('value-kept', And(Eq(out.value.value, s),
                                        Eq(str(out.value), s)))
    elif kind == 'object':
        s = ctx.str('s', domain=voc)
        out = ctx.call(c, c(s))
        ctx.observe('out', out.value.value if out.ok else out.exc_name)
        ctx.check('value-kept', out.ok and Eq(out.value.value, s))
    elif kind == 'constant':
        k = ctx.choice('constant', CONSTANTS[name])
        out = ctx.call(c, getattr(c, k))
        ctx.check('value-kept', out.ok and
                  Eq(out.value.value, getattr(c, k).value))
    elif kind == 'default':
        out = ctx.call(c)
        ctx.check('vocabulary', out.ok and In(out.value.value, voc))
        ctx.check('fails-closed-default', Not(Eq(out.value.value, PERMIT)))
    else:
        out = ctx.call(c, foreign(ctx, 'f', kind, name))
        ctx.observe('ok', out.ok)
        ctx.check('foreign-refused', not out.ok)
    constants_intact(ctx, name)


def assignments(ctx, name, n):
    """Sequences of assignments to one object's value."""
    c = cls(name)
    voc = VOCABULARY[name]
    o = c() if name != 'ObligationEffect' else c(DENY)
    expected = o.value
    for i in range(n):
        kind = ctx.choice('kind%d' % i, ['str', 'foreign'] +
                          (['object'] if name != 'StatusCode' else []) +
                          (['constant'] if name in CONSTANTS else []))
        if kind == 'str':
            v = ctx.str('s%d' % i, maxlen=50)
            good, text = In(v, voc), v
        elif kind == 'object':
            text = ctx.str('s%d' % i, domain=voc)
            v, good = c(text), True
        elif kind == 'constant':
            k = ctx.choice('constant%d' % i, CONSTANTS[name])
            v = getattr(c, k)
            good, text = True, v.value
        else:
            k = ctx.choice('foreign%d' % i, FOREIGN)
            v, good, text = foreign(ctx, 'f%d' % i, k, name), False, ''
        out = ctx.call(setattr, o, 'value', v)
        ctx.check('accepted-iff-in-vocabulary', Iff(out.ok, good))
        expected = text if out.ok else expected
        ctx.check('value', Eq(o.value, expected) if o.value is not None
                  else expected is None)
        if o.value is not None:
            ctx.check('in-vocabulary', In(o.value, voc))
    constants_intact(ctx, name)
    ctx.observe('final', o.value)


def constants(ctx, name):
    """No assignment changes a constant; it stays usable as a source."""
    c = cls(name)
    k = ctx.choice('constant', CONSTANTS[name])
    const = getattr(c, k)
    before = const.value
    kind = ctx.choice('kind', ['str', 'object', 'constant', 'foreign'])
    if kind == 'str':
        v = ctx.str('s', maxlen=16)
    elif kind == 'object':
        v = c(ctx.str('s', domain=VOCABULARY[name]))
    elif kind == 'constant':
        v = getattr(c, ctx.choice('other', CONSTANTS[name]))
    else:
        v = foreign(ctx, 'f', ctx.choice('foreign', FOREIGN), name)
    out = ctx.call(setattr, const, 'value', v)
    ctx.observe('ok', out.ok)
    ctx.check('constant-refuses-assignment', not out.ok)
    ctx.check('constant-unchanged', Eq(const.value, before))
    # objects made from the constant, and results holding it, are separate
    o = c(const)
    s = ctx.str('t', domain=VOCABULARY[name])
    o.value = s
    ctx.check('copy-is-separate', And(Eq(const.value, before),
                                      Eq(o.value, s)))
    constants_intact(ctx, name)


def results(ctx):
    """A result made from a decision or constant does not share it."""
    from ndg.xacml.core.context.result import Result, Decision
    kind = ctx.choice('kind', ['str', 'object', 'constant', 'any-str'])
    if kind == 'constant':
        v = getattr(Decision, ctx.choice('constant', CONSTANTS['Decision']))
        text = v.value
    elif kind == 'any-str':
        v = text = ctx.str('s', maxlen=16)
    else:
        text = ctx.str('s', domain=DECISIONS)
        v = text if kind == 'str' else Decision(text)
    out = ctx.call(Result.createInitialised, decision=v)
    ctx.check('accepted-iff-in-vocabulary', Iff(out.ok, In(text, DECISIONS)))
    if not out.ok:
        return
    r = out.value
    ctx.check('decision-kept', isinstance(r.decision, Decision) and
              Eq(r.decision.value, text))
    ctx.check('status-ok', In(r.status.statusCode.value,
                              VOCABULARY['StatusCode']))
    # a caller changing its result
    t = ctx.str('t', domain=DECISIONS)
    ctx.call(setattr, r.decision, 'value', t)
    if kind in ('object', 'constant'):
        ctx.check('source-unchanged', Eq(v.value, text))
    constants_intact(ctx, 'Decision')
    fresh = ctx.call(Result.createInitialised, decision=text)
    ctx.check('fresh-result', fresh.ok and
              Eq(fresh.value.decision.value, text))


def holders(ctx):
    """Results and rules hold only decisions and effects."""
    from ndg.xacml.core.context.result import Result, Decision, Status
    from ndg.xacml.core.rule import Rule, Effect
    from ndg.xacml.core.context.result import StatusCode
    where = ctx.choice('where', ['result', 'rule', 'status', 'code'])
    o, attr, typ, name = {
        'result': (Result(), 'decision', Decision, 'Decision'),
        'rule': (Rule(), 'effect', Effect, 'Effect'),
        'status': (Result(), 'status', Status, 'Decision'),
        'code': (Status(), 'statusCode', StatusCode, 'StatusCode')}[where]
    before = getattr(o, attr)
    kind = ctx.choice('kind', ['good', 'str'] + FOREIGN)
    if kind == 'good':
        v = typ()
    elif kind == 'str':
        v = ctx.str('s', maxlen=16)
    else:
        v = foreign(ctx, 'f', kind, name)
        if isinstance(v, typ):
            ctx.assume(False)
    out = ctx.call(setattr, o, attr, v)
    now = getattr(o, attr)
    ctx.observe('type', type(now).__name__)
    if kind == 'good':
        ctx.check('good-accepted', out.ok and now is v)
    elif out.ok:
        # a setter may convert a text of the vocabulary
        ctx.check('converted', kind == 'str' and isinstance(now, typ) and
                  Eq(now.value, v) if hasattr(typ, 'value') else False)
    else:
        ctx.check('refused-keeps-old', now is before)


def equality(ctx, name):
    c = cls(name)
    voc = VOCABULARY[name]
    x = ctx.str('x', domain=voc)
    o = c(x)
    kind = ctx.choice('kind', ['str', 'object'] + (
        ['constant'] if name in CONSTANTS else []) + FOREIGN)
    if kind == 'str':
        y = ctx.str('y', maxlen=16)
        other = y
    elif kind == 'object':
        y = ctx.str('y', domain=voc)
        other = c(y)
    elif kind == 'constant':
        other = getattr(c, ctx.choice('constant', CONSTANTS[name]))
        y = other.value
    else:
        other = foreign(ctx, 'f', kind, name)
        y = None
    eq = ctx.call(lambda: o == other)
    ne = ctx.call(lambda: o != other)
    ctx.observe('eq', eq.value if eq.ok else eq.exc_name)
    if y is None:
        ctx.check('foreign-comparison-is-an-error', And(
            eq.raised(TypeError), ne.raised(TypeError)))
        return
    ctx.check('error-iff-outside-vocabulary',
              And(Iff(eq.ok, In(y, voc)), Iff(ne.ok, In(y, voc))))
    if eq.ok:
        ctx.check('equal-iff-same-value', Iff(eq.value, Eq(x, y)))
        ctx.check('unequal-iff-not', Iff(ne.value, Not(Eq(x, y))))
    if kind in ('object', 'constant'):
        back = ctx.call(lambda: other == o)
        ctx.check('symmetric', back.ok and Iff(back.value, Eq(x, y)))


def truth(ctx):
    """An effect counts as true exactly if it permits."""
    from ndg.xacml.core.rule import Effect
    x = ctx.str('x', domain=VOCABULARY['Effect'])
    e = Effect(x)
    ctx.check('true-iff-permit', Iff(bool(e), Eq(x, PERMIT)))
    k = ctx.choice('constant', CONSTANTS['Effect'])
    ctx.check('constants', Iff(bool(getattr(Effect, k)), k == 'PERMIT'))


def warm_up():
    import ndg.xacml.core.rule          # noqa: F401
    import ndg.xacml.core.obligation    # noqa: F401
    import ndg.xacml.core.context.result    # noqa: F401


HARNESSES = [
    Harness('construct-decision', construct, 'any string up to 16 '
            'characters, decisions, constants, 9 other kinds',
            params=dict(name='Decision'),
            must_reach=('vocabulary', 'value-kept', 'foreign-refused')),
    Harness('construct-effect', construct, 'as above',
            params=dict(name='Effect'),
            must_reach=('vocabulary', 'value-kept', 'foreign-refused')),
    Harness('assign-decision', assignments, '2 assignments of any strings '
            'up to 50 characters, decisions, constants, 9 other kinds',
            params=dict(name='Decision', n=2), must_reach=('value',)),
    Harness('assign-effect', assignments, '2 assignments',
            params=dict(name='Effect', n=2), must_reach=('value',)),
    Harness('assign-code', assignments, '2 assignments',
            params=dict(name='StatusCode', n=2), must_reach=('value',)),
    Harness('construct-obligation-effect', construct, 'as above',
            params=dict(name='ObligationEffect'),
            must_reach=('vocabulary', 'value-kept', 'foreign-refused')),
    Harness('assign-obligation-effect', assignments, '2 assignments',
            params=dict(name='ObligationEffect', n=2), must_reach=('value',)),
    Harness('equal-obligation-effect', equality, 'as above',
            params=dict(name='ObligationEffect'),
            must_reach=('equal-iff-same-value', 'symmetric',
                        'foreign-comparison-is-an-error')),
    Harness('constants-decision', constants, 'every constant, every kind of '
            'assignment', params=dict(name='Decision'),
            must_reach=('constant-unchanged', 'copy-is-separate')),
    Harness('constants-effect', constants, 'as above',
            params=dict(name='Effect'),
            must_reach=('constant-unchanged', 'copy-is-separate')),
    Harness('results', results, 'any text up to 16 characters, every '
            'decision and constant', must_reach=('source-unchanged',
                                                 'fresh-result')),
    Harness('holders', holders, 'result, rule, status: any string or 9 other '
            'kinds', must_reach=('good-accepted', 'refused-keeps-old')),
    Harness('equal-decision', equality, 'any decision with any string up to '
            '16, decision, constant, 9 other kinds',
            params=dict(name='Decision'),
            must_reach=('equal-iff-same-value', 'symmetric',
                        'foreign-comparison-is-an-error')),
    Harness('equal-effect', equality, 'as above', params=dict(name='Effect'),
            must_reach=('equal-iff-same-value', 'symmetric',
                        'foreign-comparison-is-an-error')),
    Harness('truth', truth, 'every effect', must_reach=('true-iff-permit',)),
    Harness('assign-decision-4', assignments, '4 assignments',
            params=dict(name='Decision', n=4), must_reach=('value',),
            thorough_only=True),
    Harness('assign-effect-4', assignments, '4 assignments',
            params=dict(name='Effect', n=4), must_reach=('value',),
            thorough_only=True),
    Harness('assign-code-4', assignments, '4 assignments',
            params=dict(name='StatusCode', n=4), must_reach=('value',),
            thorough_only=True),
]
