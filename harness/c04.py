"""C04 policy gating by target; what a decision point answers."""
from harness.common import *

ASSUMPTIONS = [
    'targets, rules and combining algorithms below are stand-ins with an '
    'arbitrary outcome (their own behaviour: C01-C03, C05)',
    'BaseExceptions that are not Exceptions are outside the property',
]


def outcome(ctx, name, kinds, log):
    """(fn, value, error) of a stand-in with an arbitrary outcome."""
    value = ctx.bool(name)
    error = ctx.bool(name + '_error')
    kind = ctx.choice(name + '_error_kind', kinds) if len(kinds) > 1 else \
        kinds[0]

    def fn(context):
        log.append((name, context))
        if error:
            raise kind(name)
        return value
    return fn, value, error


def build(ctx, kind, log, kinds, tag=''):
    """A policy or policy set with an arbitrary target and combining outcome;
    returns (policy, expected decision)."""
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.context.result import Decision
    comb = ctx.str('combined' + tag, domain=DECISIONS)
    comb_err = ctx.bool('combining_error' + tag)
    ckind = ctx.choice('combining_error_kind' + tag, kinds) \
        if len(kinds) > 1 else kinds[0]

    def combine(items, context):
        log.append(('combine' + tag, context))
        if comb_err:
            raise ckind('combine' + tag)
        return Decision(comb)
    if kind == 'policy':
        from ndg.xacml.core.rule_combining_alg import (
            RuleCombiningAlgInterface, RuleCombiningAlgClassFactory)

        class Alg(RuleCombiningAlgInterface):
            def evaluate(self, rules, context):
                return combine(rules, context)

        class Factory(RuleCombiningAlgClassFactory):
            def __call__(self, ident):
                return Alg
        p = Policy(ruleCombiningAlgFactory=Factory())
        p.policyId = 'p' + tag
        p.ruleCombiningAlgId = 'urn:stub'
    else:
        from ndg.xacml.core.policy_combining_alg import (
            PolicyCombiningAlgInterface, PolicyCombiningAlgClassFactory)

        class Alg(PolicyCombiningAlgInterface):
            def evaluate(self, policies, context):
                return combine(policies, context)

        class Factory(PolicyCombiningAlgClassFactory):
            def __call__(self, ident):
                return Alg
        p = PolicySet(policyCombiningAlgFactory=Factory())
        p.policySetId = 's' + tag
        p.policyCombiningAlgId = 'urn:stub'
    has = ctx.bool('has_target' + tag)
    if ctx.decide(has):
        tf, tv, te = outcome(ctx, 'target' + tag, kinds, log)
        p.target = make_target(ctx, tf)
    else:
        tv, te = True, False
    expect = If(te, IND, If(Not(tv), NA, If(comb_err, IND, comb)))
    return p, expect, tv, te


def gate(ctx, kind, sym_error):
    from ndg.xacml.core.context.request import Request
    kinds = error_kinds() if sym_error else [StubError]
    log = []
    p, expect, tv, te = build(ctx, kind, log, kinds)
    request = Request()
    out = ctx.call(p.evaluate, request)
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.check('never-raises', out.ok)
    ctx.check('returns-a-decision', v is not None)
    ctx.check('gated-decision', Eq(v, expect))
    combined = any(n == 'combine' for n, _c in log)
    ctx.check('rules-consulted-only-on-match',
              Implies(combined, And(tv, Not(te))))
    ctx.check('parts-see-the-request', all(c is request for _n, c in log))


def responds(ctx, kind, sym_error):
    """Policy.evaluateResponse and the PDP on top."""
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.context.pdp import PDP
    from ndg.xacml.core.context.result import StatusCode
    kinds = error_kinds() if sym_error else [StubError]
    log = []
    p, expect, tv, te = build(ctx, kind, log, kinds)
    request = Request()
    how = ctx.choice('how', ['policy', 'pdp', 'pdp-set'])
    if how == 'policy':
        out = ctx.call(p.evaluateResponse, request)
    elif how == 'pdp':
        out = ctx.call(PDP(policy=p).evaluate, request)
    else:
        other, _e, _t, _u = build(ctx, 'policy', log, [StubError], tag='_old')
        pdp = PDP(policy=other)
        pdp.policy = p
        log.clear()
        out = ctx.call(pdp.evaluate, request)
    ctx.check('never-raises', out.ok)
    v = single_result_decision(out)
    ctx.observe('decision', v)
    ctx.check('one-result', v is not None)
    ctx.check('relayed-decision', Eq(v, expect))
    ctx.check('only-this-policy', not any(n.endswith('_old')
                                          for n, _c in log))
    ctx.check('parts-see-the-request', all(c is request for _n, c in log))
    ctx.check('status-code', out.ok and
              out.value.results[0].status.statusCode.value in
              StatusCode.CODES)


def unset_algorithm(ctx, kind):
    """Without a combining algorithm there is no Permit."""
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.context.request import Request
    eff = ctx.str('effect', domain=(PERMIT, DENY))
    rule = make_rule(ctx, 'r', eff, True, False)
    if kind == 'policy':
        p = Policy()
        p.policyId = 'p'
        p.rules.append(rule)
    else:
        q = Policy()
        q.policyId = 'q'
        q.ruleCombiningAlgId = RULE_ALG + 'deny-overrides'
        q.rules.append(rule)
        p = PolicySet()
        p.policySetId = 's'
        p.policies.append(q)
    how = ctx.choice('how', ['evaluate', 'respond'])
    if how == 'evaluate':
        v = decision_value(ctx.call(p.evaluate, Request()))
    else:
        v = single_result_decision(ctx.call(p.evaluateResponse, Request()))
    ctx.observe('decision', v)
    ctx.check('no-algorithm', Eq(v, IND))


def nested(ctx):
    """Targets at three levels gate what is below them."""
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.context.pdp import PDP
    request = Request()
    log = []
    eff = ctx.str('effect', domain=(PERMIT, DENY))
    rerr = ctx.bool('rule_error')
    rule = make_rule(ctx, 'rule', eff, True, rerr, log=log)
    p = Policy()
    p.policyId = 'p'
    p.ruleCombiningAlgId = RULE_ALG + 'first-applicable'
    p.rules.append(rule)
    inner = PolicySet()
    inner.policySetId = 'inner'
    ialg = ctx.choice('inner_alg', ['first-applicable', 'permit-overrides',
                                    'deny-overrides'])
    inner.policyCombiningAlgId = POLICY_ALG + ialg
    inner.policies.append(p)
    outer = PolicySet()
    outer.policySetId = 'outer'
    outer.policyCombiningAlgId = POLICY_ALG + 'first-applicable'
    outer.policies.append(inner)
    expect = If(rerr, IND, eff)
    all_match = True
    for name, part in (('policy', p), ('inner', inner), ('outer', outer)):
        if name == 'inner':
            expect = POLICY_ORACLES[ialg]([expect])
        present = ctx.bool('has_' + name)
        if ctx.decide(present):
            fn, tv, te = outcome(ctx, name, [StubError], [])
            part.target = make_target(ctx, fn)
            expect = If(te, IND, If(Not(tv), NA, expect))
            all_match = And(all_match, tv, Not(te))
    v = single_result_decision(ctx.call(PDP(outer).evaluate, request))
    ctx.observe('decision', v)
    ctx.check('nested-decision', Eq(v, expect))
    ctx.check('rule-only-below-matching-targets',
              Implies('rule' in log, all_match))


def custom_policy(ctx):
    """A policy of the application's own that fails, below a PDP: an error
    reported by it is never turned into an answer."""
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.context.result import Decision
    from ndg.xacml.core.context.pdp import PDP
    kind = ctx.choice('kind', error_kinds())
    err = ctx.bool('error')
    d = ctx.str('decision', domain=DECISIONS)

    class Custom(Policy):
        def evaluate(self, context):
            if err:
                raise kind('custom')
            return Decision(d)
    out = ctx.call(PDP(Custom()).evaluate, Request())
    v = single_result_decision(out)
    ctx.observe('decision', v)
    ctx.check('custom-decision', If(err, Or(not out.ok, Eq(v, IND)),
                                    Eq(v, d)))


def pdp_policy_type(ctx):
    """A decision point takes policies only."""
    from ndg.xacml.core.context.pdp import PDP
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.rule import Rule
    from ndg.xacml.core.context.request import Request
    kind = ctx.choice('kind', ['none', 'str', 'int', 'rule', 'class', 'list',
                               'request', 'policy', 'set'])
    v = {'none': lambda: None, 'str': lambda: ctx.str('s', maxlen=4),
         'int': lambda: ctx.int('i', 0, 3), 'rule': Rule,
         'class': lambda: Policy, 'list': lambda: [Policy()],
         'request': Request, 'policy': Policy, 'set': PolicySet}[kind]()
    good = kind in ('policy', 'set')
    old = Policy()
    pdp = PDP(old)
    out = ctx.call(setattr, pdp, 'policy', v)
    ctx.check('setter', out.ok == good)
    ctx.check('setter-effect', pdp.policy is (v if good else old))
    if kind != 'none':
        out = ctx.call(PDP, v)
        ctx.check('constructor', out.ok == good)
    ctx.observe('kind', kind)


def warm_up():
    import ndg.xacml.core.policyset
    import ndg.xacml.core.policy
    import ndg.xacml.core.context.pdp


HARNESSES = []
for _k in ('policy', 'set'):
    HARNESSES += [
        Harness('gate-' + _k, gate, 'target absent/matching/not/failing, '
                'combining algorithm answering any decision or failing',
                params=dict(kind=_k, sym_error=False),
                must_reach=('gated-decision',)),
        Harness('gate-errors-' + _k, gate, 'as gate, 21 exception types',
                params=dict(kind=_k, sym_error=True),
                must_reach=('gated-decision',)),
        Harness('responds-' + _k, responds, 'as gate, through '
                'evaluateResponse, a PDP, a PDP whose policy was replaced',
                params=dict(kind=_k, sym_error=False),
                must_reach=('relayed-decision',)),
        Harness('unset-algorithm-' + _k, unset_algorithm,
                'a policy or set without a combining algorithm',
                params=dict(kind=_k), must_reach=('no-algorithm',)),
    ]
HARNESSES += [
    Harness('nested', nested, 'rule in policy in set in set, targets at '
            'each level', must_reach=('nested-decision',)),
    Harness('custom-policy', custom_policy, 'an application-defined policy '
            'answering any decision or raising 21 exception types',
            must_reach=('custom-decision',)),
    Harness('pdp-policy-type', pdp_policy_type, '9 kinds of value',
            must_reach=('setter', 'constructor')),
]
