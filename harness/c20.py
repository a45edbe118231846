"""C20 a parsed policy says what the document says."""
import os

from harness.docs import *
from symx import hook

ASSUMPTIONS = [
    'documents are given as element trees (the XML parser itself is C code)',
    'literals are of the string-like data types (the readers that come with '
    'the package know no others) and not empty',
    'descriptions without text and attributes beyond the schema are not '
    'looked at']
TESTS = os.path.join(hook.REPO, 'ndg', 'xacml', 'test')
LIKE_STRING = [STRING, ANYURI, 'urn:oasis:names:tc:xacml:1.0:data-type:x500Name',
               'urn:oasis:names:tc:xacml:1.0:data-type:rfc822Name',
               'urn:oasis:names:tc:xacml:2.0:data-type:ipAddress',
               'urn:oasis:names:tc:xacml:2.0:data-type:dnsName']
TRUE = ['true', '1', ' true ', 'true\n']
FALSE = ['false', '0', ' false', '\t0 ']
PLAIN = ['true', '1', 'false', '0']


# --------------------------------------------- what the document says
def whole_text(node):
    parts = [node.text] + [c.tail for c in node.children]
    parts = [p for p in parts if p is not None]
    return Concat(*parts) if len(parts) > 1 else parts[0]


class Reading(object):
    """Compares an object with the element it was read from."""

    def __init__(self, ctx, lookup=None):
        self.ctx = ctx
        self.todo = []
        self.lookup = lookup

    def eq(self, label, got, want):
        if got is None or want is None:
            c = got is None and want is None
        else:
            c = Eq(got, want)
        self.todo.append((label, c))

    def done(self):
        by = {}
        for label, c in self.todo:
            by.setdefault(label, []).append(c)
        for label in sorted(by):
            self.ctx.check(label, And(by[label]))

    def kind(self, obj, name):
        c = type(obj).__name__ == name
        self.todo.append(('kinds-of-parts', c))
        return c

    def flag(self, node):
        m = node.attrib.get('MustBePresent')
        return None if m is None else In(m, TRUE)

    def value(self, node, obj):
        self.todo.append(('values', isinstance(obj, attr_class(STRING).
                                               __mro__[1])))
        self.eq('data-types', obj.dataType, node.attrib['DataType'])
        self.eq('values', obj.value, whole_text(node))

    def source(self, node, obj):
        if not self.kind(obj, node.tag):
            return
        self.eq('data-types', obj.dataType, node.attrib['DataType'])
        flag = self.flag(node)
        if node.tag == 'AttributeSelector':
            self.eq('paths', obj.requestContextPath,
                    node.attrib['RequestContextPath'])
        else:
            self.eq('attribute-ids', obj.attributeId,
                    node.attrib['AttributeId'])
            self.eq('issuers', obj.issuer, node.attrib.get('Issuer'))
        if flag is None:
            self.todo.append(('mandatory-marks', not obj.mustBePresent))
        else:
            self.todo.append(('mandatory-marks', IsBool(obj.mustBePresent)))
            self.todo.append(('mandatory-marks', Iff(obj.mustBePresent,
                                                     flag)))

    def match(self, node, obj):
        if not self.kind(obj, node.tag):
            return
        self.eq('function-ids', obj.matchId, node.attrib['MatchId'])
        self.value(node.one('AttributeValue'), obj.attributeValue)
        for c in node.children:
            if c.tag.endswith('Designator'):
                self.source(c, obj.attributeDesignator)
                self.todo.append(('kinds-of-parts',
                                  obj.attributeSelector is None))
            elif c.tag == 'AttributeSelector':
                self.source(c, obj.attributeSelector)
                self.todo.append(('kinds-of-parts',
                                  obj.attributeDesignator is None))

    def children(self, nodes, objs, read, label):
        self.todo.append((label, len(objs) == len(nodes)))
        for n, o in zip(nodes, objs):
            read(n, o)

    def target(self, node, obj):
        self.todo.append(('targets', (obj is None) == (node is None)))
        if obj is None or node is None:
            return
        for cat, objs in (('Subject', obj.subjects),
                          ('Resource', obj.resources),
                          ('Action', obj.actions),
                          ('Environment', obj.environments)):
            sec = node.one(cat + 's')
            alts = sec.all(cat) if sec is not None else []
            self.children(
                alts, objs, lambda n, o: self.children(
                    n.all(MATCH_OF[n.tag]), o.matches, self.match,
                    'matches'), 'alternatives')

    def expression(self, node, obj):
        if node.tag == 'AttributeValue':
            self.value(node, obj)
        elif node.tag == 'Apply':
            if self.kind(obj, 'Apply'):
                self.eq('function-ids', obj.functionId,
                        node.attrib['FunctionId'])
                self.children([c for c in node.children
                               if c.tag[:1] != '#'], obj.expressions,
                              self.expression, 'operands')
        else:
            self.source(node, obj)

    def description(self, node, obj):
        d = node.one('Description')
        if d is not None:
            self.eq('descriptions', obj.description, d.stripped)
        else:
            self.todo.append(('descriptions', not obj.description))

    def rule(self, node, obj):
        if not self.kind(obj, 'Rule'):
            return
        self.eq('ids', obj.id, node.attrib['RuleId'])
        self.eq('effects', obj.effect.value, node.attrib['Effect'])
        self.description(node, obj)
        self.target(node.one('Target'), obj.target)
        c = node.one('Condition')
        self.todo.append(('conditions', (obj.condition is None) ==
                          (c is None)))
        if c is not None and obj.condition is not None:
            if self.kind(obj.condition, 'Condition'):
                self.expression(c.one('Apply'), obj.condition.expression)

    def defaults(self, node, obj):
        self.todo.append(('defaults', (node is None) == (obj is None)))
        if node is not None and obj is not None:
            self.eq('defaults', obj.xpathVersion,
                    whole_text(node.one('XPathVersion')))

    def policy(self, node, obj):
        if node.tag.endswith('Reference'):
            node = self.lookup(node.tag, whole_text(node))
        if not self.kind(obj, node.tag):
            return
        v = node.attrib.get('Version')
        default = type(obj).DEFAULT_XACML_VERSION
        self.eq('versions', obj.version,
                default if v is None else If(Eq(v, ''), default, v))
        self.description(node, obj)
        self.target(node.one('Target'), obj.target)
        if node.tag == 'Policy':
            self.eq('ids', obj.policyId, node.attrib['PolicyId'])
            self.eq('algorithms', obj.ruleCombiningAlgId,
                    node.attrib['RuleCombiningAlgId'])
            self.defaults(node.one('PolicyDefaults'), obj.policyDefaults)
            self.children(node.all('Rule'), obj.rules, self.rule, 'rules')
        else:
            self.eq('ids', obj.policySetId, node.attrib['PolicySetId'])
            self.eq('algorithms', obj.policyCombiningAlgId,
                    node.attrib['PolicyCombiningAlgId'])
            self.defaults(node.one('PolicySetDefaults'),
                          obj.policySetDefaults)
            self.children(node.all('Policy', 'PolicySet',
                                   'PolicyIdReference',
                                   'PolicySetIdReference'), obj.policies,
                          self.policy, 'policies')


# ------------------------------------------------------ ways of reading
def by_policy(e):
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    return Policy.fromSource(e, ReaderFactory)


def by_set(e):
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    return PolicySet.fromSource(e, ReaderFactory)


def by_pdp(e):
    from ndg.xacml.core.context.pdp import PDP
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    return PDP.fromPolicySource(e, ReaderFactory).policy


READ = {'policy': by_policy, 'set': by_set, 'pdp': by_pdp}


def check_reading(ctx, node, how='pdp', ns=NS, lookup=None):
    out = ctx.call(READ[how], to_element(node, ns))
    ctx.observe('read', out.exc_name)
    ctx.check('read', out.ok)
    r = Reading(ctx, lookup)
    r.policy(node, out.value)
    r.done()
    return out.value


# ----------------------------------------------------------- documents
class Parts(object):
    """Makes parts of documents with arbitrary content."""

    def __init__(self, ctx, maxlen=None):
        self.ctx, self.n, self.maxlen = ctx, 0, maxlen

    def s(self, what, domain=None, minlen=0):
        self.n += 1
        return self.ctx.str('%s%d' % (what, self.n), domain=domain,
                            minlen=minlen, maxlen=self.maxlen)

    def pick(self, what, options):
        self.n += 1
        return self.ctx.choice('%s%d' % (what, self.n), options)

    def value(self, dtype=STRING):
        return value_el(self.s('text', minlen=1), dtype)

    def source(self, kind, flag=None, issuer=False):
        if kind == 'AttributeSelector':
            n = E(kind, RequestContextPath=self.s('path'),
                  DataType=self.s('dtype'))
        else:
            n = E(kind, AttributeId=self.s('attribute'),
                  DataType=self.s('dtype'))
            if issuer:
                n.attrib['Issuer'] = self.s('issuer')
        if flag is not None:
            n.attrib['MustBePresent'] = flag
        return n

    def match(self, cat, fn=FN1 + 'string-equal', source=None):
        return E(MATCH_OF[cat], self.value(), source or
                 self.source(cat + 'AttributeDesignator'), MatchId=fn)

    def description(self, shape):
        if shape == 'none':
            return []
        w = [self.s('word', minlen=1) for i in range(2)]
        for x in w:
            self.ctx.assume(ReMatch('fullmatch', '[!-~]+', x))
        if shape == 'plain':
            text, core = w[0], w[0]
        elif shape == 'padded':
            core = Concat(w[0], '\n  ', w[1])
            text = Concat('\n  ', core, ' \t')
        n = E('Description', text=text)
        n.stripped = core
        return [n]


def minimal(ctx, rules, target=None, **kw):
    n = policy_el('policy', 'deny-overrides', rules, target)
    n.attrib.update(kw)
    return n


SOURCES = [c + 'AttributeDesignator' for c in CATEGORIES] + [
    'AttributeSelector']


def matches(ctx, vary):
    """One match of every category, function and source of values."""
    p = Parts(ctx)
    every = lambda what, options: (                       # noqa: E731
        p.pick(what, options) if vary == what else options[0])
    cat = p.pick('cat', CATEGORIES)
    kind = p.pick('source', [cat + 'AttributeDesignator',
                             'AttributeSelector'])
    mark = every('mark', [None, 'arbitrary'] + TRUE + FALSE)
    src = p.source(kind, p.s('mark', PLAIN) if mark == 'arbitrary' else mark,
                   kind !=
                   'AttributeSelector' and every('mark', [True, False]))
    fns = every('function', [MATCH_FUNCTIONS[:1], MATCH_FUNCTIONS])
    v = p.value(every('literal', LIKE_STRING))
    m = E(MATCH_OF[cat], v, src, MatchId=p.s('fn', fns))
    if every('literal', [0, 1]):
        m.children.reverse()
    check_reading(ctx, minimal(ctx, [], E('Target', E(cat + 's', E(cat, m)))),
                  'policy')


def targets(ctx, alts, ms, where, cats=CATEGORIES):
    """Sections with any number of alternatives of any number of matches."""
    p = Parts(ctx)
    secs = []
    for cat in cats:
        n = p.pick('alternatives', range(alts + 1))
        if n:
            secs.append(E(cat + 's', *[E(cat, *[
                p.match(cat) for k in range(p.pick('matches', ms))])
                for i in range(n)]))
    t = E('Target', *secs)
    w = p.pick('where', where)
    if w == 'policy':
        node = minimal(ctx, [], t)
    elif w == 'rule':
        node = minimal(ctx, [rule_el('rule', 'Permit', t)])
    else:
        node = policyset_el('set', 'first-applicable', [], t)
    check_reading(ctx, node)


def rules(ctx, n):
    """Rules with and without each of their parts."""
    p = Parts(ctx)
    out = []
    for i in range(ctx.choice('n', range(n + 1))):
        parts = p.description(p.pick('description', ['none', 'plain',
                                                     'padded']))
        if p.pick('target', [False, True]):
            parts.append(target_el(Subject=[[p.match('Subject')]]))
        if p.pick('condition', [False, True]):
            parts.append(E('Condition', apply_el(
                FN1 + 'string-at-least-one-member-of',
                p.source('SubjectAttributeDesignator'), p.value())))
        out.append(E('Rule', *parts, RuleId=p.s('rule'),
                     Effect=p.s('effect', [PERMIT, DENY])))
    for i, x in enumerate(out):
        for y in out[:i]:
            ctx.assume(Not(Eq(x.attrib['RuleId'], y.attrib['RuleId'])))
    check_reading(ctx, minimal(ctx, out))


def expressions(ctx, kinds, depth, widths, marks=False, functions=False):
    """Expressions over every kind of operand."""
    p = Parts(ctx)

    def operand(d):
        kind = p.pick('kind', kinds if d < depth else
                      [k for k in kinds if k != 'Apply'])
        if kind == 'AttributeValue':
            return p.value(p.pick('literal-type', LIKE_STRING)
                           if depth == 1 else ANYURI)
        if kind == 'Apply':
            return application(d + 1)
        return p.source(kind, p.s('mark', PLAIN) if marks
                        else None, kind != 'AttributeSelector')

    def application(d):
        fn = p.s('fn', APPLY_FUNCTIONS) if functions else FN1 + 'and'
        return apply_el(fn, *[operand(d) for i in
                              range(p.pick('n', widths))])
    check_reading(ctx, minimal(ctx, [rule_el('rule', 'Deny', None,
                                             application(1))]))


def policies(ctx):
    """The attributes and optional parts of a policy or policy set."""
    p = Parts(ctx)
    tag = p.pick('tag', ['Policy', 'PolicySet'])
    parts = p.description(p.pick('description', ['none', 'plain', 'padded']))
    if p.pick('defaults', [False, True]):
        parts.append(E(tag + 'Defaults', E('XPathVersion',
                                           text=p.s('xpath', minlen=1))))
    if p.pick('target', [False, True]):
        parts.append(target_el(Resource=[[p.match('Resource')]]))
    if tag == 'Policy':
        how = p.pick('how', ['policy', 'pdp'])
        node = E(tag, *parts, PolicyId=p.s('id'), RuleCombiningAlgId=p.s(
            'alg', [RULE_ALG + a for a in sorted(RULE_ORACLES)]))
    else:
        how = p.pick('how', ['set', 'pdp'])
        node = E(tag, *parts, PolicySetId=p.s('id'), PolicyCombiningAlgId=p.s(
            'alg', [POLICY_ALG + a for a in sorted(POLICY_ORACLES)]))
    if p.pick('version', [False, True]):
        node.attrib['Version'] = p.s('version')
    check_reading(ctx, node, how)


def sets(ctx, n):
    """Policies and policy sets in a policy set, and references to them."""
    p = Parts(ctx)
    kids, ids = [], []
    for i in range(ctx.choice('n', range(1, n + 1))):
        kind = p.pick('kind', ['Policy', 'PolicySet', 'nested'])
        ident = p.s('id')
        if kind == 'Policy':
            k = policy_el(ident, 'first-applicable', [rule_el(
                'rule', p.s('effect', [PERMIT, DENY]))])
        elif kind == 'PolicySet':
            k = policyset_el(ident, 'deny-overrides', [])
        else:
            k = policyset_el(ident, 'deny-overrides', [policy_el(
                Concat(ident, '-inner'), 'permit-overrides', [])])
        kids.append(k)
        ids.append(ident)
    for i, x in enumerate(ids):
        ctx.assume(Not(Eq(x, 'set')))
        for y in ids[:i]:
            ctx.assume(And(Not(Eq(x, y)), Not(Eq(x, Concat(y, '-inner'))),
                           Not(Eq(Concat(x, '-inner'), y))))
    named = {id(x): k for x, k in zip(ids, kids)}
    if p.pick('refer', [False, True]):
        i = p.pick('which', range(len(kids)))
        kids.append(E(kids[i].tag + 'IdReference', text=ids[i]))
    node = policyset_el('set', 'permit-overrides', kids)
    check_reading(ctx, node, p.pick('how', ['set', 'pdp']),
                  lookup=lambda tag, t: named[id(t)])


def family(ctx, kinds, parts):
    """What one policy or set says, those next to it or inside do not."""
    p = Parts(ctx)
    names = []

    def ident():
        names.append(p.s('id'))
        return names[-1]

    def dress(tag, node):
        what = p.pick('has', parts)
        kids = []
        if what == 'description':
            kids = p.description('plain')
        elif what == 'defaults':
            kids = [E(tag + 'Defaults', E('XPathVersion',
                                          text=p.s('xpath', minlen=1)))]
        elif what == 'target':
            kids = [target_el(Resource=[[p.match('Resource')]])]
        elif what == 'version':
            node.attrib['Version'] = p.s('version')
        node.children[:0] = kids
        return node

    def member(kind):
        if kind == 'Policy':
            return dress(kind, policy_el(ident(), 'deny-overrides', [
                rule_el('rule', 'Permit')]))
        if kind == 'nested':
            return dress('PolicySet', policyset_el(
                ident(), 'deny-overrides', [policy_el(
                    ident(), 'deny-overrides', [])]))
        return dress(kind, policyset_el(ident(), 'deny-overrides', []))
    kids = [member(k) for k in ctx.choice('kinds', kinds)]
    node = dress('PolicySet', policyset_el(ident(), 'permit-overrides', kids))
    for i, x in enumerate(names):
        for y in names[:i]:
            ctx.assume(Not(Eq(x, y)))
    check_reading(ctx, node, p.pick('how', ['set', 'pdp']))


def texts(ctx, n):
    """Text in several pieces, with comments between them."""
    p = Parts(ctx)
    where = ctx.choice('where', ['value', 'operand', 'description', 'xpath',
                                 'reference'])
    pieces = [p.s('piece', minlen=1) for i in range(n)]
    first = p.pick('text-first', [True, False])
    node = E('x', text=pieces[0] if first else None)
    for i in range(1 if first else 0, n):
        c = Node(p.pick('between', ['#comment', '#pi']))
        c.tail = pieces[i]
        node.children.append(c)
    if p.pick('comment-last', [False, True]):
        node.children.append(Node('#comment'))
    lookup = None
    if where == 'value':
        node.tag, node.attrib = 'AttributeValue', {'DataType': STRING}
        doc = minimal(ctx, [], target_el(Subject=[[E(
            'SubjectMatch', node, p.source('SubjectAttributeDesignator'),
            MatchId=FN1 + 'string-equal')]]))
    elif where == 'operand':
        node.tag, node.attrib = 'AttributeValue', {'DataType': STRING}
        doc = minimal(ctx, [rule_el('rule', 'Deny', None, apply_el(
            FN1 + 'string-bag', node))])
    elif where == 'description':
        for x in pieces:
            ctx.assume(ReMatch('fullmatch', '[!-~]+', x))
        node.tag, node.stripped = 'Description', whole_text(node)
        doc = minimal(ctx, [])
        doc.children.append(node)
    elif where == 'xpath':
        node.tag = 'XPathVersion'
        doc = minimal(ctx, [])
        doc.children.append(E('PolicyDefaults', Node('#comment'), node))
    else:
        node.tag = 'PolicyIdReference'
        target = policy_el(whole_text(node), 'first-applicable', [])
        doc = policyset_el('set', 'first-applicable', [target, node])
        lookup = lambda tag, t: target                  # noqa: E731
    check_reading(ctx, doc, lookup=lookup)


def blanks(ctx, maxlen):
    """White space within texts and attributes is content."""
    p = Parts(ctx)
    where = ctx.choice('where', ['policy', 'set', 'rule', 'value',
                                 'attributes'])
    core = Concat('a', ctx.str('blanks', chars=' \n\tb', maxlen=maxlen,
                               vector=True), 'a')
    d = E('Description', text=Concat(ctx.choice('before', ['', '\n ']), core,
                                     ctx.choice('after', ['', ' \t'])))
    d.stripped = core
    if where == 'rule':
        rule = rule_el('rule', 'Deny')
        rule.children.insert(0, d)
        doc = minimal(ctx, [rule])
    elif where == 'value':
        node = E('AttributeValue', text=d.text, DataType=STRING)
        doc = minimal(ctx, [rule_el('rule', 'Deny', None, apply_el(
            FN1 + 'string-bag', node))])
    elif where == 'attributes':
        rule = rule_el(core, 'Deny', None, apply_el(
            FN1 + 'string-bag', E('SubjectAttributeDesignator',
                                  AttributeId=core, DataType=STRING,
                                  Issuer=core)))
        doc = minimal(ctx, [rule], PolicyId=core, Version=core)
    elif where == 'policy':
        doc = minimal(ctx, [])
        doc.children.insert(0, d)
    else:
        doc = policyset_el('set', 'first-applicable', [])
        doc.children.insert(0, d)
    check_reading(ctx, doc)


def commented(node, how):
    """White space and comments between the elements of a document."""
    kids = []
    for c in node.children:
        commented(c, how)
        if how == 'comments':
            kids += [Node('#comment'), Node('#pi')]
        c.tail = '\n  '
        kids.append(c)
    if kids:
        node.text = '\n  '
        if how == 'comments':
            kids.append(Node('#comment'))
    node.children = kids
    return node


def document(ctx, paths, spacing, every):
    """A document of the test-suite, its strings made arbitrary."""
    path = ctx.choice('path', paths)
    node = from_file(os.path.join(TESTS, path))
    k = ctx.choice('spacing', spacing)
    ns = ctx.choice('namespace', [NS, ''])
    p = Parts(ctx)
    count = [0]

    def change(n):
        """Arbitrary strings for a share of the document's."""
        for a in ('AttributeId', 'Issuer', 'Version'):
            if a in n.attrib:
                count[0] += 1
                if count[0] % every == 0:
                    n.attrib[a] = p.s(a)
        if n.tag == 'AttributeValue':
            count[0] += 1
            if count[0] % every == 0:
                n.text = p.s('text', minlen=1)
        elif n.tag == 'Description':
            n.stripped = (n.text or '').strip()
        for c in n.children:
            change(c)
        for t in MATCH_OF.values():
            if n.tag == t:
                for v in n.all('AttributeValue')[:-1]:
                    n.children.remove(v)
    change(node)
    lookup = index(node)
    if k != 'none':
        commented(node, k)
    check_reading(ctx, node, ns=ns, lookup=lookup)


def large(ctx, whats, counts):
    """Many parts of one kind, or deep nesting; the strings of one arbitrary
    part among them are arbitrary."""
    p = Parts(ctx)
    what = ctx.choice('what', whats)
    n, (special,) = sparse(ctx, counts, 1)

    arbitrary = p.s('id', minlen=1), p.s('text', minlen=1)
    ctx.assume(Not(StartsWith(arbitrary[0], 'urn:id:')))
    ctx.assume(And(Not(Eq(arbitrary[0], 'set')),
                   Not(Eq(arbitrary[0], 'innermost'))))

    def texts(i):
        if i == special:
            return arbitrary
        return 'urn:id:%d' % i, 'text %d' % i

    def match(i, cat='Subject'):
        ident, text = texts(i)
        return E(MATCH_OF[cat], value_el(text), designator_el(
            cat, ident, STRING), MatchId=FN1 + 'string-equal')

    def rule(i):
        ident, text = texts(i)
        return rule_el(ident, PERMIT if i % 2 else DENY, None, apply_el(
            FN1 + 'string-bag', value_el(text)))
    if what == 'rules':
        node = minimal(ctx, [rule(i) for i in range(n)])
    elif what == 'alternatives':
        node = minimal(ctx, [], target_el(Subject=[[match(i)]
                                                   for i in range(n)]))
    elif what == 'matches':
        node = minimal(ctx, [], target_el(Action=[[
            match(i, 'Action') for i in range(n)]]))
    elif what == 'operands':
        node = minimal(ctx, [rule_el('rule', DENY, None, apply_el(
            FN1 + 'string-bag', *[value_el(texts(i)[1])
                                  for i in range(n)]))])
    elif what == 'policies':
        node = policyset_el('set', 'first-applicable', [
            policy_el(texts(i)[0], 'deny-overrides', [])
            for i in range(n)])
    elif what == 'nested-applications':
        a = value_el('innermost')
        for i in range(n):
            a = apply_el(FN1 + 'string-bag', value_el(texts(i)[1]), a)
        node = minimal(ctx, [rule_el('rule', DENY, None, a)])
    else:
        node = policy_el('innermost', 'deny-overrides', [])
        for i in range(n):
            node = policyset_el(texts(i)[0], 'first-applicable', [node])
    check_reading(ctx, node)


def supported_ids():
    """Function identifiers that C15 shows to be supported."""
    types = ['string', 'anyURI', 'boolean', 'integer', 'double', 'date',
             'dateTime', 'time', 'x500Name', 'rfc822Name']
    return [FN1 + t + '-equal' for t in types]


MATCH_FUNCTIONS = supported_ids() + [
    FN1 + 'string-regexp-match', FN2 + 'anyURI-regexp-match',
    FN1 + 'rfc822Name-match']
APPLY_FUNCTIONS = supported_ids() + [
    FN1 + 'and', FN1 + 'not', FN1 + 'string-bag', FN1 + 'anyURI-one-and-only',
    FN1 + 'string-at-least-one-member-of', FN2 + 'string-concatenate']
LARGE = ['rules', 'alternatives', 'matches', 'operands', 'policies',
         'nested-applications', 'nested-sets']
DOCS = ['ndg1.xml', 'firstapplicable.xml', 'subjectmatch.xml', 'rule1.xml',
        'rule2.xml', 'rule4.xml',
        'policy_attributeselector_1.xml', 'policy_attributeselector_4.xml',
        'policy_attributeselector_6.xml',
        'policy_set_internal_references.xml', 'policy_set_nested_only.xml',
        'functions/policy_and.xml', 'functions/policy_not.xml',
        'functions/policy_concatenate.xml']

warm_up = load_readers
HARNESSES = [
    Harness('match-marks', matches, 'one match of every category with '
            'designator or selector, with and without mark and issuer',
            params=dict(vary='mark'), must_reach=('paths', 'issuers')),
    Harness('match-functions', matches, 'one match of every category of %d '
            'functions' % len(MATCH_FUNCTIONS), params=dict(vary='function'),
            must_reach=('function-ids',)),
    Harness('match-literals', matches, 'one match of every category, with '
            'literals of 6 types, before or after the source',
            params=dict(vary='literal'), must_reach=('values',)),
    Harness('targets', targets, '0..2 alternatives of 0..1 matches in each '
            'section, in policies', params=dict(
                alts=2, ms=[0, 1], where=['policy']),
            must_reach=('alternatives', 'matches')),
    Harness('targets-where', targets, '0..1 alternatives of 1..2 matches in '
            'each section, in rules and policy sets', params=dict(
                alts=1, ms=[1, 2], where=['rule', 'set']),
            must_reach=('alternatives', 'matches')),
    Harness('rules', rules, '0..2 rules with and without description, '
            'target, condition', params=dict(n=2), must_reach=('rules',)),
    Harness('operands', expressions, 'an application to 0..2 operands of '
            'every kind', params=dict(
                kinds=SOURCES + ['AttributeValue'], depth=1,
                widths=[0, 1, 2]), must_reach=('operands',)),
    Harness('operand-marks', expressions, 'an application to one operand of '
            'every kind with every mark', params=dict(
                kinds=SOURCES, depth=1, widths=[1], marks=True),
            must_reach=('mandatory-marks',)),
    Harness('functions', expressions, 'an application of %d functions' %
            len(APPLY_FUNCTIONS), params=dict(
                kinds=['AttributeValue'], depth=1, widths=[1],
                functions=True), must_reach=('function-ids',)),
    Harness('nested', expressions, 'applications nested to depth 3 with '
            '0..2 operands each', params=dict(
                kinds=['Apply', 'AttributeValue'], depth=3, widths=[0, 2]),
            must_reach=('operands',)),
    Harness('nested-kinds', expressions, 'applications nested '
            'to depth 2 with 1..2 operands each of 4 kinds', params=dict(
                kinds=['Apply', 'AttributeValue', 'AttributeSelector',
                       'ResourceAttributeDesignator'],
                depth=2, widths=[1, 2]), must_reach=('operands',)),
    Harness('policies', policies, 'policies and policy sets with and without '
            'each optional part', must_reach=('versions', 'defaults')),
    Harness('sets', sets, 'a policy set of 1..2 policies, policy sets, '
            'nested ones, and perhaps a reference', params=dict(n=2),
            must_reach=('policies',)),
    Harness('family', family, 'a policy set of 2 policies or sets, each of '
            'the 3 with one of 4 optional parts or none', params=dict(
                kinds=[('Policy', 'Policy'), ('PolicySet', 'Policy'),
                       ('Policy', 'nested')],
                parts=['none', 'version', 'description', 'defaults',
                       'target']),
            must_reach=('versions', 'policies', 'defaults', 'targets')),
    Harness('texts', texts, 'text in 2 pieces with comments and processing '
            'instructions, in every place where text is read',
            params=dict(n=2), must_reach=('read',)),
    Harness('blanks', blanks, 'descriptions, values and attributes with up '
            'to 4 blanks, tabs, line breaks and letters inside',
            params=dict(maxlen=4), must_reach=('read', 'descriptions')),
    Harness('large', large, '3, 6 or 11 rules, alternatives, matches, '
            'operands or policies, or as many applications or policy sets '
            'inside each other; the strings of any one of them arbitrary',
            params=dict(whats=LARGE, counts=(3, 6, 11)),
            must_reach=('rules', 'policies', 'operands', 'matches')),
    Harness('larger', large, '17 or 40 of them',
            params=dict(whats=LARGE, counts=(17, 40)),
            must_reach=('rules', 'policies', 'operands', 'matches'),
            thorough_only=True),
    Harness('documents', document, '%d documents of the test-suite, with '
            'every third string arbitrary, with and without comments and '
            'name space' % len(DOCS), params=dict(paths=DOCS, spacing=['none', 'comments'],
                                      every=3), must_reach=('rules',)),
]
HARNESSES += [under_lxml(h) for h in HARNESSES if h.name in (
    'match-marks', 'match-literals', 'targets', 'rules', 'operands',
    'operand-marks', 'policies', 'sets', 'texts', 'documents')]
