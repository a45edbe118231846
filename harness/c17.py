"""C17 decisions depend on the policy and the request only."""
from harness.docs import *
from harness.objects import content, same

ASSUMPTIONS = ['one thread; histories of the listed shapes']
RES = 'urn:oasis:names:tc:xacml:1.0:resource:resource-id'
ROLE = 'urn:ndg:security:authz:1.0:attr'


def policy_doc(kind, word, effects):
    """Policies that are alike in everything but ``word`` and effects."""
    target = target_el(Resource=[[match_el(
        'Resource', RES, word + '+', ANYURI, FN2 + 'anyURI-regexp-match')]])
    cond = apply_el(FN1 + 'string-at-least-one-member-of',
                    designator_el('Subject', ROLE),
                    apply_el(FN1 + 'string-bag', value_el(word)))
    rules = [rule_el('one', effects[0], None, cond),
             rule_el('two', effects[1])]
    p = policy_el('policy', 'first-applicable', rules, target)
    if kind == 'set':
        return policyset_el('set', 'first-applicable', [p])
    if kind == 'same-rules':
        p.attrib['RuleCombiningAlgId'] = RULE_ALG + 'deny-overrides'
    return p


class World(object):
    """Two decision points, made when first used."""

    def __init__(self, ctx, kinds, words, effects):
        self.ctx = ctx
        self.docs = [policy_doc(k, w, e)
                     for k, w, e in zip(kinds, words, effects)]
        self.pdps, self.was = {}, {}
        self.reqs = []

    def pdp(self, i):
        if i not in self.pdps:
            self.pdps[i] = pdp_of(self.docs[i])
            self.was[i] = content(self.pdps[i].policy)
        return self.pdps[i]

    def request(self, k):
        """Request number k (made when first used) and its description."""
        while len(self.reqs) <= k:
            i = len(self.reqs)
            plain = Req({
                'Subject': [[(ROLE, STRING, None,
                              [self.ctx.str('role%d' % i)])]],
                'Resource': [[(RES, ANYURI, None,
                               [self.ctx.str('res%d' % i)])]],
                'Action': [[]]})
            self.reqs.append((plain, plain.build()))
        return self.reqs[k]

    def evaluate(self, i, k, label='independent-of-history'):
        ctx = self.ctx
        plain, built = self.request(k)
        before = content(built)
        out = ctx.call(self.pdp(i).evaluate, built)
        d = single_result_decision(out)
        ctx.check('decides', d is not None)
        ctx.check(label, Eq(d, ref_policy(self.docs[i], plain)))
        ctx.check('request-unchanged', same(content(built), before))
        ctx.check('policy-unchanged', same(content(self.pdps[i].policy),
                                           self.was[i]))
        return out.value, d


#: (decision point, request) in turn
SCRIPTS = [
    ((0, 0), (1, 0), (0, 0)),
    ((0, 0), (0, 1), (0, 0)),
    ((0, 0), (1, 1), (0, 1)),
    ((1, 0), (0, 1), (1, 1)),
    ((0, 0), (0, 0), (1, 0)),
]
WORDS = [('a', 'A'), ('a', 'a'), ('a', 'a ')]
EFFECTS = [(('Permit', 'Deny'), ('Deny', 'Permit')),
           (('Permit', 'Deny'), ('Permit', 'Deny'))]


def history(ctx, kinds, words, scripts):
    w = World(ctx, ctx.choice('kinds', kinds), ctx.choice('words', words),
              ctx.choice('effects', EFFECTS))
    seen = []
    for i, k in ctx.choice('script', scripts):
        r, d = w.evaluate(i, k)
        seen.append((r, d, i, k))
        ctx.observe('decision%d' % len(seen), d)
    for n, (r, d, i, k) in enumerate(seen):
        ctx.check('earlier-responses-stay', Eq(r.results[0].decision.value,
                                               d))
        for r2, d2, i2, k2 in seen[:n]:
            if (i, k) == (i2, k2):
                ctx.check('same-question-same-answer', Eq(d, d2))
            ctx.check('responses-are-separate', r is not r2 and
                      r.results is not r2.results and
                      r.results[0] is not r2.results[0])


def spoil(ctx, how, response):
    """What a caller may do to a response it received."""
    from ndg.xacml.core.context.result import Decision, Result, Status
    res = response.results[0]
    if how == 'decision':
        res.decision = Decision('Permit')
    elif how == 'decision-value':
        ctx.call(setattr, res.decision, 'value', 'Permit')
    elif how == 'decision-init':
        ctx.call(res.decision.__init__, 'Permit')
    elif how == 'no-results':
        ctx.call(response.results.pop)
    elif how == 'more-results':
        ctx.call(response.results.append, Result.createInitialised(
            decision=Decision.PERMIT))
    elif how == 'status':
        ctx.call(setattr, res.status.statusCode, 'value',
                 'urn:oasis:names:tc:xacml:1.0:status:processing-error')
        ctx.call(setattr, res.status, 'statusMessage', 'spoilt')
    elif how == 'resource':
        ctx.call(setattr, res, 'resourceId', 'spoilt')


SPOIL = ['decision', 'decision-value', 'decision-init', 'no-results',
         'more-results', 'status', 'resource']


def spoilt_response(ctx):
    """A caller changes the response it got; later answers do not change."""
    w = World(ctx, ('policy', 'set'), ('a', 'b'), EFFECTS[0])
    how = ctx.choice('how', SPOIL)
    first = ctx.choice('first', [0, 1])
    second = ctx.choice('second', [0, 1])
    r, d = w.evaluate(first, 0)
    spoil(ctx, how, r)
    r2, d2 = w.evaluate(second, ctx.choice('request', [0, 1]))
    ctx.observe('decision', d2)
    st = r2.results[0].status
    ctx.check('status-is-fresh', And(
        Eq(st.statusCode.value, 'urn:oasis:names:tc:xacml:1.0:status:ok'),
        Eq(st.statusMessage, '')))
    ctx.check('resource-is-fresh', not r2.results[0].resourceId)


def changed_request(ctx):
    """A request that the caller changes is decided as it now is."""
    w = World(ctx, ctx.choice('kinds', [('policy', 'set')]), ('a', 'b'),
              EFFECTS[0])
    i = ctx.choice('pdp', [0, 1])
    how = ctx.choice('how', ['add-role', 'replace-role', 'remove-role',
                             'replace-resource', 'add-subject', 'retype'])
    w.evaluate(i, 0)
    plain, built = w.reqs[0]
    new = ctx.str('new')
    subj, res = built.subjects[0], built.resources[0]
    role = plain.content['Subject'][0][0][3][0]
    resource = plain.content['Resource'][0][0][3][0]
    rows, rres = [(ROLE, STRING, None, [role])], [
        (RES, ANYURI, None, [resource])]
    subjects = [rows]
    if how == 'add-role':
        subj.attributes[0].attributeValues.append(attr_class(STRING)(new))
        rows[0] = (ROLE, STRING, None, [role, new])
    elif how == 'replace-role':
        subj.attributes[0].attributeValues[0].value = new
        rows[0] = (ROLE, STRING, None, [new])
    elif how == 'remove-role':
        subj.attributes.pop()
        rows.pop()
    elif how == 'replace-resource':
        res.attributes[0].attributeValues[0].value = new
        rres[0] = (RES, ANYURI, None, [new])
    elif how == 'retype':
        subj.attributes[0].dataType = ANYURI
        subj.attributes[0].attributeValues[0] = attr_class(STRING)(new)
        rows[0] = (ROLE, ANYURI, None, [new])
    elif how == 'add-subject':
        o = context_class('Subject')()
        o.attributes.append(make_attribute(ROLE, STRING, None,
                                           [attr_class(STRING)(new)]))
        built.subjects.append(o)
        subjects.append([(ROLE, STRING, None, [new])])
    w.reqs[0] = (Req({'Subject': subjects, 'Resource': [rres],
                      'Action': [[]]}), built)
    r, d = w.evaluate(i, 0, 'decided-as-it-is-now')
    ctx.observe('decision', d)


def handler(ctx):
    """What the information point supplied once is not kept."""
    from ndg.xacml.core.context.handlerinterface import CtxHandlerInterface
    supply = [[], []]

    class Handler(CtxHandlerInterface):
        def handlePEPRequest(self, pepRequest):
            raise NotImplementedError()

        def pipQuery(self, request, designator):
            from ndg.xacml.utils import TypedList
            out = TypedList(attr_class(STRING))
            for t in supply[0]:
                out.append(attr_class(STRING)(t))
            return out
    w = World(ctx, ('policy', 'set'), ('a', 'b'), EFFECTS[0])
    extra = ctx.str('extra')
    other = ctx.str('other')
    plain, built = w.request(0)
    if ctx.choice('handled', [True, False]):
        built.ctxHandler = Handler()
        role = plain.content['Subject'][0][0][3][0]
        res = plain.content['Resource']
        for n, vals in enumerate(ctx.choice('supplies', [
                ([extra], []), ([], [extra]), ([extra], [other])])):
            supply[0] = vals
            w.reqs[0] = (Req({'Subject': [[(ROLE, STRING, None,
                                            [role] + vals)]],
                              'Resource': res, 'Action': [[]]}), built)
            r, d = w.evaluate(0, 0, 'nothing-kept-from-information-point')
            ctx.observe('decision%d' % n, d)
    else:
        # another request without a handler, after one with
        supply[0] = [extra]
        built.ctxHandler = Handler()
        ctx.call(w.pdp(0).evaluate, built)
        r, d = w.evaluate(0, 1, 'nothing-kept-from-information-point')
        ctx.observe('decision', d)


def kept_answer(ctx, shapes, scripts):
    """An information point that answers with the list it keeps, asked for
    several requests in turn."""
    from ndg.xacml.core.context.handlerinterface import CtxHandlerInterface
    from ndg.xacml.utils import TypedList
    S = attr_class(STRING)
    texts = [ctx.str('supplied%d' % i) for i in range(
        ctx.choice('supplies', [1, 2]))]
    kept = [S(t) for t in texts]
    if ctx.choice('shape', shapes) == 'bag':
        bag = TypedList(S)
        for v in kept:
            bag.append(v)
    else:
        bag = list(kept)

    class Handler(CtxHandlerInterface):
        def handlePEPRequest(self, pepRequest):
            raise NotImplementedError()

        def pipQuery(self, request, designator):
            return bag
    w = World(ctx, ('policy', 'set'), ('a', 'b'), EFFECTS[0])
    asker = Handler()
    for k in range(2):
        plain, built = w.request(k)
        built.ctxHandler = asker
        role = plain.content['Subject'][0][0][3][0]
        w.reqs[k] = (Req({
            'Subject': [[(ROLE, STRING, None, [role] + texts)]],
            'Resource': plain.content['Resource'], 'Action': [[]]}), built)
    for n, (i, k) in enumerate(ctx.choice('script', scripts)):
        r, d = w.evaluate(i, k, 'independent-of-earlier-answers')
        ctx.observe('decision%d' % n, d)
        ctx.check('information-point-unchanged', And(
            [len(bag) == len(texts)] +
            [Eq(v.value, t) for v, t in zip(bag, texts)]))


def shared_parts(ctx, n):
    """Two policies that share rule objects, and errors in between."""
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.context.pdp import PDP
    from ndg.xacml.core.context.request import Request
    eff = [ctx.str('effect%d' % i, domain=[PERMIT, DENY]) for i in range(2)]
    outcome = [ctx.str('outcome%d' % i, domain=['yes', 'no', 'fails'])
               for i in range(2)]

    def cond(i):
        def f(context):
            if outcome[i] == 'fails':
                raise StubError(i)
            return outcome[i] == 'yes'
        return f
    from ndg.xacml.core.rule import Rule, Effect
    rules = []
    for i in range(2):
        r = Rule()
        r.id, r.effect = 'r%d' % i, Effect(eff[i])
        r.condition = make_condition(ctx, cond(i))
        rules.append(r)
    pols, algs = [], []
    for i in range(2):
        algs.append(ctx.choice('alg%d' % i, sorted(RULE_ORACLES)))
        p = Policy()
        p.policyId = 'p'
        p.ruleCombiningAlgId = RULE_ALG + algs[-1]
        p.rules.extend(rules if i == 0 else rules[::-1])
        pols.append(PDP(p))
    for n in range(n):
        i = n % 2
        outcome = [ctx.str('outcome%d-%d' % (n, j), domain=[
            'yes', 'no', 'fails']) for j in range(2)] if n else outcome
        rs = [(If(Eq(outcome[j], 'fails'), IND, If(
            Eq(outcome[j], 'yes'), eff[j], NA)), eff[j]) for j in range(2)]
        d = single_result_decision(ctx.call(pols[i].evaluate, Request()))
        ctx.check('shared-rules', Eq(d, RULE_ORACLES[algs[i]](
            rs if i == 0 else rs[::-1])))


def alternatives(ctx, cats, steps):
    """Targets with several alternatives, matches, rules and policies, for
    requests any of them may apply to."""
    ids = {c: 'urn:%s' % c for c in CATEGORIES}
    cat, deep = ctx.choice('category', cats), ctx.choice(
        'where', ['policy', 'rule', 'set'])

    def alt(*texts):
        return [match_el(cat, ids[cat], t, STRING, FN1 + 'string-equal')
                for t in texts]
    target = target_el(**{cat: [alt('a'), alt('b', 'b'), alt('c', 'd'),
                                alt('a')]})
    if deep == 'rule':
        doc = policy_el('p', 'deny-overrides', [
            rule_el('one', PERMIT, target), rule_el('two', DENY, target_el(
                **{cat: [alt('d'), alt('b')]})), rule_el('three', PERMIT)])
    elif deep == 'policy':
        doc = policy_el('p', 'first-applicable', [
            rule_el('one', PERMIT)], target)
    else:
        kids = [policy_el('p%d' % i, 'first-applicable', [
            rule_el('r', eff)], target_el(**{cat: [alt(t)]}))
            for i, (t, eff) in enumerate([('a', PERMIT), ('b', DENY),
                                          ('a', DENY)])]
        doc = policyset_el('s', 'first-applicable', kids, target)
    pdp = pdp_of(doc)
    was = content(pdp.policy)
    reqs = []
    for i in range(2):
        plain = Req(dict({c: [[]] for c in CATEGORIES}, **{cat: [[
            (ids[cat], STRING, None, [ctx.str('v%d%d' % (i, j)) for j in
                                      range(2 - i)])]]}))
        reqs.append((plain, plain.build()))
    for n, i in enumerate(steps):
        plain, built = reqs[i]
        d = single_result_decision(ctx.call(pdp.evaluate, built))
        ctx.observe('decision%d' % n, d)
        ctx.check('alternatives', Eq(d, ref_policy(doc, plain)))
        ctx.check('policy-as-it-was', same(content(pdp.policy), was))


def repeated(ctx, turns, kinds):
    """Many questions, each asked with a request of its own that is dropped
    afterwards (so that another may take its place in memory)."""
    kind = ctx.choice('kind', kinds)
    doc = policy_doc(kind, 'a', EFFECTS[0][0])
    pdp = pdp_of(doc)
    was = content(pdp.policy)
    plain = [Req({
        'Subject': [[(ROLE, STRING, None, [ctx.str('role%d' % i)])]],
        'Resource': [[(RES, ANYURI, None, [ctx.str('res%d' % i)])]],
        'Action': [[]]}) for i in range(2)]
    same_object = ctx.choice('same-object', [False, True])
    kept = [p.build() for p in plain]
    refs = [ref_policy(doc, p) for p in plain]
    for n in range(turns):
        i = n % 2 if n < 6 else (n // 3) % 2
        out = ctx.call(pdp.evaluate,
                       kept[i] if same_object else plain[i].build())
        ctx.check('every-time', Eq(single_result_decision(out), refs[i]))
        del out
    ctx.check('policy-as-it-was', same(content(pdp.policy), was))


warm_up = load_readers

HARNESSES = [
    Harness('history', history, '5 histories of 3 evaluations on two '
            'decision points, 3 pairs of patterns and literals, 2 pairs of '
            'effects; roles and resources arbitrary strings',
            params=dict(kinds=[('policy', 'policy'), ('policy', 'set')],
                        words=WORDS, scripts=SCRIPTS),
            must_reach=('independent-of-history', 'earlier-responses-stay',
                        'same-question-same-answer')),
    Harness('spoilt-response', spoilt_response, '7 ways to change a '
            'response, then any of two decision points and two requests',
            must_reach=('independent-of-history', 'status-is-fresh')),
    Harness('changed-request', changed_request, '6 ways to change a request '
            'between two evaluations, arbitrary strings',
            must_reach=('decided-as-it-is-now',)),
    Harness('handler', handler, 'an information point that supplies 0..1 '
            'arbitrary values, differently each time',
            must_reach=('nothing-kept-from-information-point',)),
    Harness('kept-answer', kept_answer, 'an information point that answers '
            'with the list of 1..2 values it keeps, 2 histories of 2..3 '
            'evaluations of two requests', params=dict(
                shapes=['list', 'bag'], scripts=[((0, 0), (0, 1)),
                                                 ((1, 0), (0, 1), (0, 0))]),
            must_reach=('independent-of-earlier-answers',
                        'information-point-unchanged')),
    Harness('repeated', repeated, '20 evaluations of two arbitrary '
            'requests, as the same or as new objects', params=dict(
                turns=20, kinds=['policy', 'set']),
            must_reach=('every-time', 'policy-as-it-was')),
    Harness('repeated-long', repeated, '150 evaluations', params=dict(
                turns=150, kinds=['set']),
            must_reach=('every-time',), thorough_only=True),
    Harness('alternatives', alternatives, 'targets of 2..4 alternatives, '
            'matches, rules and policies, 2 requests of 2 and 1 arbitrary '
            'values, in turn', params=dict(
                cats=['Subject', 'Environment'], steps=(0, 1, 0)),
            must_reach=('alternatives', 'policy-as-it-was')),
    Harness('alternatives-4', alternatives, 'as alternatives, every '
            'category, 4 evaluations', params=dict(
                cats=CATEGORIES, steps=(0, 0, 1, 0)),
            must_reach=('alternatives',), thorough_only=True),
    Harness('shared-parts', shared_parts, '2 policies over the same 2 rules, '
            'every outcome, 2 evaluations, all algorithms', params=dict(n=2),
            must_reach=('shared-rules',)),
    Harness('shared-parts-3', shared_parts, '3 evaluations',
            params=dict(n=3), must_reach=('shared-rules',),
            thorough_only=True),
    Harness('history-4', history, 'histories of 4 evaluations', params=dict(
        kinds=[('policy', 'policy'), ('policy', 'same-rules'),
               ('set', 'set')], words=WORDS,
        scripts=[((0, 0), (1, 1), (0, 1), (1, 0)),
                 ((0, 0), (0, 1), (1, 0), (0, 0)),
                 ((0, 0), (1, 0), (1, 1), (0, 0))]),
            must_reach=('independent-of-history',), thorough_only=True),
]
