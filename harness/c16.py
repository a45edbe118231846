"""C16 the decision point decides as the policy document reads."""
import os

from harness.docs import *
from symx import hook

ASSUMPTIONS = [
    'documents use string-like data types only (the reader knows no others)',
    'patterns of the documents are read over characters up to U+007E']
RES = 'urn:oasis:names:tc:xacml:1.0:resource:resource-id'
ACT = 'urn:oasis:names:tc:xacml:1.0:action:action-id'
ROLE = 'urn:ndg:security:authz:1.0:attr'
ENV = 'urn:oasis:names:tc:xacml:1.0:environment:current-time'
TESTS = os.path.join(hook.REPO, 'ndg', 'xacml', 'test')
ASCII = [('\n', '\n'), (' ', '~')]


def check_decision(ctx, pdp, node, req, lookup=None):
    out = ctx.call(pdp.evaluate, req.build())
    d = single_result_decision(out)
    ctx.observe('decision', d)
    ctx.check('decides', d is not None)
    ctx.check('as-the-document-reads',
              Eq(d, ref_policy(node, req, lookup)))


def one_attr(ctx, tag, ident, dtype, n, domain=None, maxlen=None):
    return (ident, dtype, None,
            [ctx.str('%s%d' % (tag, i), domain=domain, maxlen=maxlen,
                     chars=None) for i in range(n)])


# -------------------------------------------- documents with unknown parts
def requests(ctx, roles, maxlen=4):
    """A request with 0..roles roles, one resource and action, perhaps not."""
    n = ctx.choice('n-roles', range(roles + 1))
    return Req({
        'Subject': [[one_attr(ctx, 'role', ROLE, STRING, n, maxlen=maxlen)]],
        'Resource': [[one_attr(ctx, 'res', RES, ANYURI,
                               ctx.choice('n-res', [1, 0]),
                               maxlen=maxlen)]],
        'Action': [[one_attr(ctx, 'act', ACT, STRING, 1, maxlen=maxlen)]]})


def sym_rule(ctx, i, shapes):
    effect = ctx.str('effect%d' % i, domain=[PERMIT, DENY])
    shape = ctx.choice('shape%d' % i, shapes)
    lit = [ctx.str('lit%d%s' % (i, c), maxlen=4, minlen=1) for c in 'ab']
    role = designator_el('Subject', ROLE)
    t = c = None
    if shape == 'target':
        t = target_el(Subject=[[match_el('Subject', ROLE, lit[0])],
                               [match_el('Subject', ROLE, lit[1])]])
    elif shape == 'target-and':
        t = target_el(Resource=[[match_el(
            'Resource', RES, lit[0], ANYURI, FN1 + 'anyURI-equal')]],
            Action=[[match_el('Action', ACT, lit[1])]])
    elif shape == 'target-mixed':
        # the same alternatives in either category, or in two of them
        orders = [(0, 1), (1, 0), (1, 2), (2, 1)]
        cats = ctx.choice('cats%d' % i, [('Subject',), ('Action',),
                                         ('Resource',), ('Subject', 'Action')])
        sections = {}
        for k, (cat, ident) in enumerate([('Subject', ROLE), ('Action', ACT),
                                          ('Resource', RES)]):
            if cat in cats:
                ty = [ANYURI, FN1 + 'anyURI-equal'] if ident is RES else []
                a, b = [match_el(cat, ident, l, *ty) for l in lit]
                which = ctx.choice('alts%d-%d' % (i, k), orders)
                sections[cat] = [[[a, b], [b], []][n] for n in which]
        t = target_el(**sections)
    elif shape == 'member':
        c = apply_el(FN1 + 'string-at-least-one-member-of', role,
                     apply_el(FN1 + 'string-bag', *map(value_el, lit)))
    elif shape == 'only':
        c = apply_el(FN1 + 'not', apply_el(
            FN1 + 'string-equal', apply_el(FN1 + 'string-one-and-only', role),
            value_el(lit[0])))
    elif shape == 'concatenate':
        c = apply_el(FN1 + 'string-equal', apply_el(
            FN2 + 'string-concatenate', value_el(lit[0]), apply_el(
                FN1 + 'string-one-and-only', designator_el('Action', ACT))),
            value_el(lit[1]))
    elif shape == 'mandatory':
        c = apply_el(FN1 + 'string-at-least-one-member-of', designator_el(
            'Subject', ROLE, MustBePresent='true'), apply_el(
            FN1 + 'string-bag', value_el(lit[0])))
    elif shape == 'both':
        t = target_el(Action=[[match_el('Action', ACT, lit[0])]])
        c = apply_el(FN1 + 'and', apply_el(
            FN1 + 'string-equal', apply_el(FN1 + 'string-one-and-only', role),
            value_el(lit[1])), apply_el(FN1 + 'not', apply_el(
                FN1 + 'string-at-least-one-member-of', designator_el(
                    'Action', ACT), apply_el(FN1 + 'string-bag',
                                             value_el(lit[1])))))
    return rule_el('rule%d' % i, effect, t, c)


def symbolic_policy(ctx, n, shapes, roles):
    alg = ctx.choice('alg', sorted(RULE_ORACLES))
    rules = [sym_rule(ctx, i, shapes) for i in range(n)]
    target = None
    if ctx.choice('target', [False, True]):
        target = target_el(Resource=[[match_el(
            'Resource', RES, ctx.str('lit', maxlen=4, minlen=1), ANYURI,
            FN1 + 'anyURI-equal')]])
    node = policy_el('policy', alg, rules, target)
    pdp = pdp_of(node)
    check_decision(ctx, pdp, node, requests(ctx, roles))


def symbolic_set(ctx, n, shapes):
    """Policies of one rule, two of them in a nested set."""
    rule_alg = ctx.str('rule-alg', domain=[RULE_ALG + a
                                           for a in sorted(RULE_ORACLES)])
    algs = [ctx.choice('alg%d' % i, sorted(POLICY_ORACLES)) for i in range(2)]
    ps = []
    for i in range(n):
        p = policy_el('policy%d' % i, '', [sym_rule(ctx, i, shapes)])
        p.attrib['RuleCombiningAlgId'] = rule_alg
        ps.append(p)
    inner = policyset_el('inner', algs[1], ps[1:])
    refer = ctx.choice('reference', ['none', 'policy', 'set'])
    children = [ps[0], inner]
    if refer == 'policy':
        children = [inner, ps[0], E('PolicyIdReference', text='policy1')]
    elif refer == 'set':
        children = [inner, ps[0], E('PolicySetIdReference', text='inner')]
    node = policyset_el('outer', algs[0], children)
    pdp = pdp_of(node)
    check_decision(ctx, pdp, node, requests(ctx, 1), index(node))


def long_policy(ctx, ns, shapes):
    """Many rules, all alike but for one."""
    alg = ctx.choice('alg', sorted(RULE_ORACLES))
    n, (at,) = sparse(ctx, ns, 1)
    other = ctx.choice('others', ['applies', 'does-not', 'fails'])
    effect = ctx.choice('effect', [PERMIT, DENY])
    act = apply_el(FN1 + 'string-one-and-only', designator_el('Action', ACT))
    rules = []
    for i in range(n):
        if i == at:
            rules.append(sym_rule(ctx, i, shapes))
        elif other == 'applies':
            rules.append(rule_el('rule%d' % i, effect, None, apply_el(
                FN1 + 'string-equal', act, act)))
        elif other == 'does-not':
            rules.append(rule_el('rule%d' % i, effect, target_el(
                Action=[[match_el('Action', 'urn:nobody', 'x%d' % i)]])))
        else:
            rules.append(rule_el('rule%d' % i, effect, None, apply_el(
                FN1 + 'string-equal', act, apply_el(
                    FN1 + 'string-one-and-only',
                    designator_el('Subject', 'urn:nobody')))))
    node = policy_el('policy', alg, rules)
    check_decision(ctx, pdp_of(node), node, requests(ctx, 1))


def deep_set(ctx, depths, shapes):
    """Policy sets inside each other, policies on the way."""
    depth = ctx.choice('depth', depths)
    algs = [ctx.choice('alg%d' % i, sorted(POLICY_ORACLES)) for i in range(2)]
    at = ctx.choice('at', range(max(depths)))
    ctx.assume(at < depth)
    first = ctx.choice('policy-first', [True, False])
    node = policy_el('innermost', 'permit-overrides', [sym_rule(
        ctx, depth, shapes)])
    for i in range(depth):
        p = policy_el('p%d' % i, 'deny-overrides', [
            sym_rule(ctx, i, shapes) if i == at else rule_el(
                'r', PERMIT if i % 2 else DENY, None, apply_el(
                    FN1 + 'string-equal', value_el('a'), value_el('b')))])
        t = target_el(Action=[[match_el('Action', ACT, ctx.str(
            'act', maxlen=4, minlen=1))]]) if i == at else None
        node = policyset_el('s%d' % i, algs[i % 2],
                            [p, node] if first else [node, p], t)
    check_decision(ctx, pdp_of(node), node, requests(ctx, 1))


# --------------------------------------------------- documents as they are
def one_value(node):
    """Drop all but the last value of a match (the standard allows one)."""
    if node.tag in MATCH_OF.values():
        for v in node.all('AttributeValue')[:-1]:
            node.children.remove(v)
    for c in node.children:
        one_value(c)
    return node


def document(ctx, path, limits=None, noise=False, finder=None, extra=()):
    """A document of the test-suite with arbitrary requests."""
    node = one_value(from_file(os.path.join(TESTS, path)))
    limits = limits or {}
    content = {}
    for i, (cat, ident, dtype) in enumerate(designators(node)):
        lo, hi = limits.get(cat, (0, 1))
        n = ctx.choice('n%d' % i, range(lo, hi + 1))
        content.setdefault(cat, [[]])[0].append(
            one_attr(ctx, 'v%d-' % i, ident, dtype, n, maxlen=None))
        if noise and cat == 'Subject':
            # the same attribute of another type says nothing
            content[cat][0].append(one_attr(
                ctx, 'noise%d-' % i, ident, ANYURI if dtype == STRING
                else STRING, 1, maxlen=40))
    if noise:
        content.setdefault('Resource', [[]])[0].append(
            one_attr(ctx, 'other', ROLE, STRING, 1, maxlen=40))
    fnd = None
    nodes = [node]
    if finder:
        from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
        fnd = UrlPolicyFinder(os.path.join(TESTS, os.path.dirname(path)))
        nodes += [from_file(os.path.join(TESTS, os.path.dirname(path), e))
                  for e in extra]
    pdp = pdp_of(node, fnd)
    check_decision(ctx, pdp, node, Req(content), index(*nodes))


warm_up = load_readers
SHAPES = ['plain', 'target', 'target-and', 'member', 'only', 'concatenate',
          'mandatory', 'both']
BASIC = ['plain', 'target', 'only']
ONE = {'Resource': (1, 1), 'Action': (1, 1)}


def doc(name, path, bounds, thorough=False, **params):
    return Harness(name, document, path + ': ' + bounds + ', every value an '
                   'arbitrary string of any length',
                   params=dict(path=path, **params),
                   must_reach=('as-the-document-reads',),
                   thorough_only=thorough)


HARNESSES = [
    Harness('policy-1', symbolic_policy, 'a policy of 1 rule of 8 shapes, '
            'arbitrary effect and literals up to 4 characters, 3 algorithms, '
            'with and without target; 0..2 roles',
            params=dict(n=1, shapes=SHAPES, roles=2),
            must_reach=('as-the-document-reads',)),
    Harness('policy-2', symbolic_policy, '2 rules of 3 shapes, 0..1 roles',
            params=dict(n=2, shapes=BASIC, roles=1),
            must_reach=('as-the-document-reads',)),
    Harness('policy-targets', symbolic_policy, 'a rule whose target has two '
            'alternatives of 0..2 matches in any order, for one category or '
            'for two', params=dict(
                n=1, shapes=['target-mixed'], roles=2),
            must_reach=('as-the-document-reads',)),
    Harness('set-2', symbolic_set, '2 policies, one in a nested set, '
            'references to either, all algorithms', params=dict(
                n=2, shapes=['plain', 'only']),
            must_reach=('as-the-document-reads',)),
    Harness('long-policy', long_policy, '6 or 10 rules, all alike (applying, '
            'not applying or failing) but for any one of 2 shapes; every '
            'algorithm', params=dict(ns=(6, 10), shapes=['plain', 'only']),
            must_reach=('as-the-document-reads',)),
    Harness('deep-set', deep_set, '3..4 policy sets inside each other with a '
            'policy in each, of which two are arbitrary', params=dict(
                depths=(3, 4), shapes=['plain', 'target']),
            must_reach=('as-the-document-reads',)),
    doc('ndg1', 'ndg1.xml', '0..2 roles, resource and action present or not',
        limits={'Subject': (0, 2)}),
    doc('firstapplicable', 'firstapplicable.xml', '0..1 roles', limits=ONE),
    doc('subjectmatch', 'subjectmatch.xml', '0..2 roles',
        limits=dict(ONE, Subject=(0, 2))),
    doc('not', 'functions/policy_not.xml', '0..2 roles',
        limits=dict(ONE, Subject=(0, 2))),
    doc('and', 'functions/policy_and.xml', '0..1 values of each attribute',
        limits=ONE),
    doc('concatenate', 'functions/policy_concatenate.xml',
        '0..1 values of each attribute', limits=ONE),
    doc('nested', 'policy_set_nested_only.xml', '0..1 roles', limits=ONE),
    doc('references', 'policy_set_internal_references.xml', '0..1 roles',
        limits=ONE),
    doc('url-references', 'policy_set_url_references.xml', '0..1 roles; '
        'policies found by reference in files', limits=ONE, finder=True,
        extra=['urn:ndg:security:1.0:authz:test:policy-set-2']),
    doc('noise', 'policy_set_nested_only.xml', '0..1 roles, and the '
        'attributes again with another data type or category', limits=ONE,
        noise=True),
]
