"""C01 rule combining algorithms."""
from harness.common import *

ASSUMPTIONS = [
    'a rule with effect E decides E, NotApplicable or Indeterminate (that is '
    'what C03 establishes)',
    'logging is disabled and traceback formatting is stubbed',
]


def combine(ctx, alg, nmax):
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.context.request import Request
    n = ctx.choice('n', range(nmax + 1))
    policy = Policy()
    policy.policyId = 'p'
    policy.ruleCombiningAlgId = RULE_ALG + alg
    rs = []
    order = []
    for i in range(n):
        eff = ctx.str('effect%d' % i, domain=(PERMIT, DENY))
        app = ctx.bool('applies%d' % i)
        err = ctx.bool('error%d' % i)
        policy.rules.append(make_rule(ctx, 'r%d' % i, eff, app, err, order))
        rs.append((rule_decision(eff, app, err), eff))
    out = ctx.call(policy.evaluate, Request())
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.check('returns-a-decision', v is not None)
    ctx.check('combined-decision', Eq(v, RULE_ORACLES[alg](rs)))


def alike(ctx, n):
    """Rules that share identifier or are listed again: each has its say."""
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.context.request import Request
    alg = ctx.choice('alg', sorted(RULE_ORACLES))
    policy = Policy()
    policy.policyId = 'a'
    policy.ruleCombiningAlgId = RULE_ALG + alg
    rs = []
    for i in range(n):
        ident = ctx.choice('id%d' % i, ['a', 'b', 'again'])
        if ident == 'again' and rs:
            policy.rules.append(policy.rules[-1])
            rs.append(rs[-1])
            continue
        eff = ctx.str('effect%d' % i, domain=(PERMIT, DENY))
        app = ctx.bool('applies%d' % i)
        err = ctx.bool('error%d' % i)
        policy.rules.append(make_rule(ctx, ident, eff, app, err, []))
        rs.append((rule_decision(eff, app, err), eff))
    out = ctx.call(policy.evaluate, Request())
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.check('combined-decision', Eq(v, RULE_ORACLES[alg](rs)))


def direct(ctx, alg, nmax):
    """The algorithm object itself, as handed out by the default factory."""
    from ndg.xacml.core.rule_combining_alg import RuleCombiningAlgClassFactory
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.rule import Rule
    from ndg.xacml.utils import TypedList
    n = ctx.choice('n', range(nmax + 1))
    rules = TypedList(Rule)
    rs = []
    for i in range(n):
        eff = ctx.str('effect%d' % i, domain=(PERMIT, DENY))
        app = ctx.bool('applies%d' % i)
        err = ctx.bool('error%d' % i)
        rules.append(make_rule(ctx, 'r%d' % i, eff, app, err))
        rs.append((rule_decision(eff, app, err), eff))
    cls = RuleCombiningAlgClassFactory()(RULE_ALG + alg)
    out = ctx.call(lambda: cls().evaluate(rules, Request()))
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.check('returns-a-decision', v is not None)
    ctx.check('combined-decision', Eq(v, RULE_ORACLES[alg](rs)))


FILLERS = [(PERMIT, True, False), (DENY, True, False), (PERMIT, False, False),
           (PERMIT, False, True), (DENY, False, True)]


def long_list(ctx, alg, ns, specials):
    """Long policies: all rules alike but for a few anywhere."""
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.context.request import Request
    n, places = sparse(ctx, ns, specials)
    filler = ctx.choice('others', FILLERS)
    policy = Policy()
    policy.policyId = 'p'
    policy.ruleCombiningAlgId = RULE_ALG + alg
    rs = []
    for i in range(n):
        if i in places:
            eff = ctx.str('effect%d' % i, domain=(PERMIT, DENY))
            app = ctx.bool('applies%d' % i)
            err = ctx.bool('error%d' % i)
        else:
            eff, app, err = filler
        policy.rules.append(make_rule(ctx, 'r%d' % i, eff, app, err))
        rs.append((rule_decision(eff, app, err), eff))
    out = ctx.call(policy.evaluate, Request())
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.check('combined-decision', Eq(v, RULE_ORACLES[alg](rs)))


def warm_up():
    import ndg.xacml.core.policy


HARNESSES = []
for _alg in ('deny-overrides', 'permit-overrides', 'first-applicable'):
    HARNESSES.append(Harness(
        'policy-' + _alg, combine, '0..4 rules', params=dict(alg=_alg, nmax=4),
        must_reach=('returns-a-decision', 'combined-decision')))
    HARNESSES.append(Harness(
        'long-' + _alg, long_list, '5, 8, 12, 17 or 33 rules, all alike (5 '
        'kinds) but for any one', params=dict(alg=_alg, ns=LONG, specials=1),
        must_reach=('combined-decision',)))
    HARNESSES.append(Harness(
        'long-two-' + _alg, long_list, '6 rules, all alike (5 kinds) but for '
        'any two', params=dict(alg=_alg, ns=(6,), specials=2),
        must_reach=('combined-decision',)))
    HARNESSES.append(Harness(
        'direct-' + _alg, direct, '0..3 rules, the algorithm object itself',
        params=dict(alg=_alg, nmax=3),
        must_reach=('returns-a-decision', 'combined-decision')))
    HARNESSES.append(Harness(
        'deep-' + _alg, combine, '0..6 rules', params=dict(alg=_alg, nmax=6),
        must_reach=('returns-a-decision', 'combined-decision'),
        thorough_only=True))
    HARNESSES.append(Harness(
        'long-three-' + _alg, long_list, '7 or 10 rules, all alike (5 kinds) '
        'but for any three', params=dict(alg=_alg, ns=(7, 10), specials=3),
        must_reach=('combined-decision',), thorough_only=True))
HARNESSES.append(Harness(
    'alike', alike, '3 rules, alike or not in their identifiers, or one '
    'listed again, any algorithm', params=dict(n=3),
    must_reach=('combined-decision',)))
