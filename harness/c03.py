"""C03 rule evaluation."""
from harness.common import *

ASSUMPTIONS = [
    'target and condition are stand-ins with an arbitrary outcome; what the '
    'real ones answer is C05 and C14',
    'BaseExceptions that are not Exceptions are outside the property',
]


def setup(ctx, sym_error):
    """A rule with symbolic parts and the reference decision."""
    from ndg.xacml.core.rule import Rule, Effect
    kinds = error_kinds()
    rule = Rule()
    rule.id = 'r'
    eff = ctx.str('effect', domain=(PERMIT, DENY))
    rule.effect = Effect(eff)
    calls = []
    seen = []

    def part(name):
        present = ctx.bool('has_' + name)
        if not ctx.decide(present):
            return None, True, False
        value = ctx.bool(name)
        error = ctx.bool(name + '_error')
        kind = ctx.choice(name + '_error_kind', kinds) if sym_error else \
            StubError

        def fn(context):
            calls.append(name)
            seen.append(context)
            if error:
                raise kind(name)
            return value
        return fn, value, error
    tf, tv, te = part('target')
    if tf is not None:
        rule.target = make_target(ctx, tf)
    cf, cv, ce = part('condition')
    if cf is not None:
        rule.condition = make_condition(ctx, cf)
    expect = If(te, IND, If(Not(tv), NA, If(ce, IND, If(cv, eff, NA))))
    return rule, expect, seen, calls, (tf, tv, te, cf, cv, ce)


def rule_eval(ctx, sym_error):
    from ndg.xacml.core.context.request import Request
    rule, expect, seen, calls, parts = setup(ctx, sym_error)
    request = Request()
    out = ctx.call(rule.evaluate, request)
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.observe('calls', calls)
    ctx.check('never-raises', out.ok)
    ctx.check('returns-a-decision', v is not None)
    ctx.check('decision', Eq(v, expect))
    ctx.check('parts-see-the-request', all(c is request for c in seen))
    # a second evaluation of the same rule answers the same
    v2 = decision_value(ctx.call(rule.evaluate, request))
    ctx.check('repeatable', Eq(v2, expect))


def non_boolean_condition(ctx):
    """A condition that does not come out as a boolean is an error."""
    from ndg.xacml.core.rule import Rule, Effect
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory
    from ndg.xacml.utils import TypedList
    S = AttributeValueClassFactory()('http://www.w3.org/2001/XMLSchema#string')
    B = AttributeValueClassFactory()(
        'http://www.w3.org/2001/XMLSchema#boolean')
    kind = ctx.choice('kind', ['none', 'string', 'int', 'attribute',
                               'boolean-attribute', 'bag', 'list', 'float'])
    if kind == 'none':
        val = None
    elif kind == 'string':
        val = ctx.str('s', maxlen=4)
    elif kind == 'int':
        val = ctx.int('i', -3, 3)
    elif kind == 'attribute':
        val = S(ctx.str('a', maxlen=4))
    elif kind == 'boolean-attribute':
        val = B(ctx.bool('b'))
    elif kind == 'bag':
        val = TypedList(S)
        if ctx.decide(ctx.bool('filled')):
            val.append(S('x'))
    elif kind == 'list':
        val = [ctx.bool('l')]
    else:
        val = 1.5
    rule = Rule()
    rule.id = 'r'
    eff = ctx.str('effect', domain=(PERMIT, DENY))
    rule.effect = Effect(eff)
    rule.condition = make_expr_condition(ctx, lambda c: val)
    v = decision_value(ctx.call(rule.evaluate, Request()))
    ctx.observe('decision', v)
    if kind == 'boolean-attribute':
        # a boolean, if wrapped: its value counts, or it is an error; never
        # the truthiness of the wrapper
        ctx.check('boolean-attribute-value',
                  Or(Eq(v, IND), Eq(v, If(val.value, eff, NA))))
        return
    ctx.check('non-boolean-never-takes-effect',
              And(v is not None, Not(Eq(v, eff))))
    ctx.check('non-boolean-is-indeterminate', Eq(v, IND))


def no_effect(ctx):
    """A rule without an effect never decides Permit or Deny."""
    from ndg.xacml.core.rule import Rule
    from ndg.xacml.core.context.request import Request
    rule = Rule()
    rule.id = 'r'
    cond = ctx.bool('condition')
    rule.condition = make_condition(ctx, lambda c: cond)
    v = decision_value(ctx.call(rule.evaluate, Request()))
    ctx.observe('decision', v)
    ctx.check('no-effect', Eq(v, If(cond, IND, NA)))


def warm_up():
    import ndg.xacml.core.policyset
    import ndg.xacml.core.policy


HARNESSES = [
    Harness('rule', rule_eval, 'target and condition each absent, false, '
            'true or failing; both effects', params=dict(sym_error=False),
            must_reach=('decision', 'repeatable')),
    Harness('rule-errors', rule_eval, 'as rule, failures of 21 exception '
            'types', params=dict(sym_error=True), must_reach=('decision',)),
    Harness('non-boolean-condition', non_boolean_condition,
            '8 kinds of non-boolean result, strings up to 4, ints -3..3',
            must_reach=('non-boolean-is-indeterminate',)),
    Harness('no-effect', no_effect, 'a rule whose effect was never set',
            must_reach=('no-effect',)),
]
