"""C02 policy combining algorithms."""
from harness.common import *

ASSUMPTIONS = [
    'a policy or policy set evaluates to one of the four decisions (C04)',
    'logging is disabled and traceback formatting is stubbed',
]


def combine(ctx, alg, nmax, nmin=0):
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.context.request import Request
    n = ctx.choice('n', range(nmin, nmax + 1))
    ps = PolicySet()
    ps.policySetId = 'ps'
    ps.policyCombiningAlgId = POLICY_ALG + alg
    ds = []
    seen = []
    request = Request()
    for i in range(n):
        d = ctx.str('decision%d' % i, domain=DECISIONS)
        ds.append(d)

        def ev(context, d=d, i=i):
            seen.append((i, context is request))
            return d
        ps.policies.append(make_policy_stub(ctx, 'p%d' % i, ev))
    out = ctx.call(ps.evaluate, request)
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.check('returns-a-decision', v is not None)
    ctx.check('combined-decision', Eq(v, POLICY_ORACLES[alg](ds)))
    ctx.check('children-see-the-request', all(s for _i, s in seen))


def long_list(ctx, alg, ns, specials):
    """Long policy sets: all children alike but for a few anywhere."""
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.context.request import Request
    n, places = sparse(ctx, ns, specials)
    filler = ctx.choice('others', DECISIONS)
    ps = PolicySet()
    ps.policySetId = 'ps'
    ps.policyCombiningAlgId = POLICY_ALG + alg
    ds = []
    for i in range(n):
        d = ctx.str('decision%d' % i, domain=DECISIONS) if i in places \
            else filler
        ds.append(d)
        ps.policies.append(make_policy_stub(ctx, 'p%d' % i,
                                            lambda context, d=d: d))
    out = ctx.call(ps.evaluate, Request())
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.check('combined-decision', Eq(v, POLICY_ORACLES[alg](ds)))


def chain(ctx, depths):
    """Sets nested deeply, a policy next to the inner set at every level."""
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.context.request import Request
    depth = ctx.choice('depth', depths)
    alg = ctx.choice('alg', sorted(POLICY_ORACLES))
    at = ctx.choice('at', range(max(depths)))
    ctx.assume(at < depth)
    first = ctx.choice('first', [False, True])
    filler = ctx.choice('others', DECISIONS)
    inner = None
    d = None
    for i in range(depth):
        ps = PolicySet()
        ps.policySetId = 's%d' % i
        ps.policyCombiningAlgId = POLICY_ALG + alg
        e = ctx.str('decision', domain=DECISIONS) if i == at else filler
        p = make_policy_stub(ctx, 'p%d' % i, lambda context, e=e: e)
        both = [(p, e)] + ([(inner, d)] if inner is not None else [])
        if not first:
            both.reverse()
        for x, _d in both:
            ps.policies.append(x)
        d = POLICY_ORACLES[alg]([_d for _x, _d in both])
        inner = ps
    out = ctx.call(inner.evaluate, Request())
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.check('nested-decision', Eq(v, d))


def alike(ctx, n):
    """Children that share identifier, version or everything: each still has
    its say."""
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.context.request import Request
    alg = ctx.choice('alg', sorted(POLICY_ORACLES))
    ps = PolicySet()
    ps.policySetId = 'a'
    ps.policyCombiningAlgId = POLICY_ALG + alg
    ds = []
    for i in range(n):
        same = ctx.choice('kind%d' % i, ['policy', 'set', 'again'])
        if same == 'again' and ds:
            ps.policies.append(ps.policies[-1])
            ds.append(ds[-1])
            continue
        d = ctx.str('decision%d' % i, domain=DECISIONS)
        p = make_policy_stub(ctx, ctx.choice('id%d' % i, ['a', 'b']),
                             lambda context, d=d: d, set_=same == 'set')
        ps.policies.append(p)
        ds.append(d)
    out = ctx.call(ps.evaluate, Request())
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.check('combined-decision', Eq(v, POLICY_ORACLES[alg](ds)))


def nested(ctx, nouter, ninner):
    """Sets of sets and policies, real rules at the leaves."""
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.context.request import Request
    algs = sorted(POLICY_ORACLES)

    def leaf(tag):
        eff = ctx.str('effect' + tag, domain=(PERMIT, DENY))
        app = ctx.bool('applies' + tag)
        err = ctx.bool('error' + tag)
        p = Policy()
        p.policyId = 'p' + tag
        p.ruleCombiningAlgId = RULE_ALG + 'first-applicable'
        p.rules.append(make_rule(ctx, 'r' + tag, eff, app, err))
        return p, rule_decision(eff, app, err)

    outer = PolicySet()
    outer.policySetId = 'outer'
    oalg = ctx.choice('outer', algs)
    outer.policyCombiningAlgId = POLICY_ALG + oalg
    ds = []
    for i in range(nouter):
        kind = ctx.choice('kind%d' % i, ['policy', 'set'])
        if kind == 'policy':
            p, d = leaf('%d' % i)
        else:
            p = PolicySet()
            p.policySetId = 's%d' % i
            ialg = ctx.choice('inner%d' % i, algs)
            p.policyCombiningAlgId = POLICY_ALG + ialg
            inner = []
            for j in range(ninner):
                q, e = leaf('%d_%d' % (i, j))
                p.policies.append(q)
                inner.append(e)
            d = POLICY_ORACLES[ialg](inner)
        outer.policies.append(p)
        ds.append(d)
    out = ctx.call(outer.evaluate, Request())
    v = decision_value(out)
    ctx.observe('decision', v)
    ctx.check('returns-a-decision', v is not None)
    ctx.check('nested-decision', Eq(v, POLICY_ORACLES[oalg](ds)))


def warm_up():
    import ndg.xacml.core.policyset
    import ndg.xacml.core.policy


MR = ('returns-a-decision', 'combined-decision')
HARNESSES = []
for _alg in sorted(POLICY_ORACLES):
    HARNESSES.append(Harness(
        'set-' + _alg, combine, '0..5 children, every decision of each',
        params=dict(alg=_alg, nmax=5), must_reach=MR))
HARNESSES.append(Harness(
    'alike', alike, '3 children, policies, sets and one child listed again, '
    'alike or not in their identifiers, any algorithm', params=dict(n=3),
    must_reach=('combined-decision',)))
HARNESSES.append(Harness(
    'nested', nested, '2 children, each a policy or a set of 1, any '
    'algorithms', params=dict(nouter=2, ninner=1),
    must_reach=('nested-decision',)))
HARNESSES.append(Harness(
    'nested-deep', nested, '2 children, each a policy or a set of 2',
    params=dict(nouter=2, ninner=2), thorough_only=True,
    must_reach=('nested-decision',)))
HARNESSES.append(Harness(
    'chain', chain, 'sets nested 1..4 or 8 deep with a policy at every level, '
    'all alike but for any one', params=dict(depths=(1, 2, 3, 4, 8)),
    must_reach=('nested-decision',)))
for _alg in sorted(POLICY_ORACLES):
    HARNESSES.append(Harness(
        'long-' + _alg, long_list, '8, 12, 17 or 33 children, all alike but '
        'for any one', params=dict(alg=_alg, ns=LONG[1:], specials=1),
        must_reach=('combined-decision',)))
    HARNESSES.append(Harness(
        'long-two-' + _alg, long_list, '9 children, all alike but for any '
        'two', params=dict(alg=_alg, ns=(9,), specials=2),
        must_reach=('combined-decision',)))
    HARNESSES.append(Harness(
        'set-large-' + _alg, combine, '6..7 children',
        params=dict(alg=_alg, nmax=7, nmin=6), must_reach=MR,
        thorough_only=True))
