"""C21 a malformed or unsupported policy is refused when parsed."""
from harness.c20 import *

ASSUMPTIONS = [
    'documents are given as element trees (the XML parser itself is C code)',
    'each document has one defect at a time',
    'children of designators and selectors, and attributes beyond the '
    'schema, are not looked at',
    'letter case folds are those of ASCII for the mandatory mark']
REQUIRED = dict(
    Rule=['RuleId', 'Effect'], Policy=['PolicyId', 'RuleCombiningAlgId'],
    PolicySet=['PolicySetId', 'PolicyCombiningAlgId'],
    AttributeSelector=['RequestContextPath', 'DataType'],
    AttributeValue=['DataType'], Apply=['FunctionId'])
ALLOWED = dict(
    Rule=['Description', 'Target', 'Condition'],
    Policy=['Description', 'PolicyDefaults', 'Target', 'Rule'],
    PolicySet=['Description', 'PolicySetDefaults', 'Target', 'Policy',
               'PolicySet', 'PolicyIdReference', 'PolicySetIdReference'],
    Target=[c + 's' for c in CATEGORIES],
    Apply=SOURCES + ['Apply', 'AttributeValue'],
    Condition=[], AttributeValue=[], Description=[], PolicyDefaults=[],
    PolicySetDefaults=[], XPathVersion=[], PolicyIdReference=[],
    PolicySetIdReference=[])
for _c in CATEGORIES:
    REQUIRED[MATCH_OF[_c]] = ['MatchId']
    REQUIRED[_c + 'AttributeDesignator'] = ['AttributeId', 'DataType']
    ALLOWED[_c + 's'] = [_c]
    ALLOWED[_c] = [MATCH_OF[_c]]
    ALLOWED[MATCH_OF[_c]] = ['AttributeValue', _c + 'AttributeDesignator',
                             'AttributeSelector']
#: elements of the standard, each in some place where it does not belong
STANDARD = sorted(set(sum(ALLOWED.values(), [])) | set([
    'Obligations', 'CombinerParameters', 'RuleCombinerParameters',
    'PolicyCombinerParameters', 'PolicySetCombinerParameters',
    'VariableDefinition', 'VariableReference', 'Function', 'Condition',
    'Expression']))
UNSUPPORTED_TYPES = [
    XS + t for t in ('integer', 'boolean', 'double', 'date', 'time',
                     'dateTime', 'hexBinary', 'base64Binary')] + [
    'http://www.w3.org/TR/2002/WD-xquery-operators-20020816'
    '#dayTimeDuration', 'http://www.w3.org/TR/2002/WD-xquery-operators-'
    '20020816#yearMonthDuration']


def selector_el(path='//x', dtype=STRING, **kw):
    return E('AttributeSelector', RequestContextPath=path, DataType=dtype,
             **kw)


def text_el(tag, text='text'):
    return E(tag, text=text)


def sample(kind):
    """A document with every supported element."""
    target = target_el(**{c: [[match_el(c, 'urn:id', 'value')]]
                          for c in CATEGORIES})
    cond = apply_el(
        FN1 + 'and', apply_el(
            FN1 + 'string-equal', value_el('text'), selector_el()),
        apply_el(FN1 + 'not', *[designator_el(c, 'urn:id')
                                for c in CATEGORIES]))
    rule = rule_el('rule', 'Permit', target, cond)
    rule.children.insert(0, text_el('Description'))
    other = rule_el('other', 'Deny', None, apply_el(FN1 + 'and'))
    if kind == 'rule':
        return policy_el('policy', 'deny-overrides', [rule])
    p = policy_el('policy', 'deny-overrides', [
        rule_el('rule', 'Permit', target_el(Subject=[[E(
            'SubjectMatch', value_el('x'), selector_el(),
            MatchId=FN1 + 'string-equal')]])), other])
    p.children[:0] = [text_el('Description'),
                      E('PolicyDefaults', text_el('XPathVersion')),
                      target_el(Resource=[[match_el('Resource', 'urn:id',
                                                    'value')]])]
    if kind == 'policy':
        return p
    s = policyset_el('set', 'first-applicable', [
        policy_el('one', 'permit-overrides', [other]),
        policyset_el('inner', 'deny-overrides', [
            policy_el('two', 'first-applicable', [])]),
        text_el('PolicyIdReference', 'two'),
        text_el('PolicySetIdReference', 'inner')])
    s.children[:0] = [text_el('Description'),
                      E('PolicySetDefaults', text_el('XPathVersion')),
                      target_el(Action=[[match_el('Action', 'urn:id',
                                                  'value')]])]
    return s


KINDS = ['rule', 'policy', 'set']


def nodes(node):
    return [node] + [d for c in node.children for d in nodes(c)]


def refused(ctx, node, how='pdp'):
    out = ctx.call(READ[how], to_element(node))
    ctx.observe('outcome', out.exc_name)
    return not out.ok


def must_refuse(ctx, node, label='refused', how='pdp'):
    ctx.check(label, refused(ctx, node, how))


def readers_of(kind):
    return ['pdp', 'set'] if kind == 'set' else ['pdp', 'policy']


def sound(ctx, kinds):
    """The samples are read, so what is refused is refused for its defect."""
    kind = ctx.choice('kind', kinds)
    how = ctx.choice('how', readers_of(kind))
    ctx.check('sample-is-read', not refused(ctx, sample(kind), how))


def missing_attribute(ctx, kinds):
    kind = ctx.choice('kind', kinds)
    doc = sample(kind)
    spots = [(n, a) for n in nodes(doc) for a in REQUIRED.get(n.tag, ())]
    n, a = ctx.choice('spot', spots)
    del n.attrib[a]
    must_refuse(ctx, doc)


def unknown_child(ctx, kinds, names):
    """An element where it does not belong, at any place of the document."""
    kind = ctx.choice('kind', kinds)
    doc = sample(kind)
    seen, spots = set(), []
    for n in nodes(doc):
        if n.tag in ALLOWED and n.tag not in seen:
            seen.add(n.tag)
            spots.append(n)
    n = ctx.choice('spot', spots)
    if names == 'arbitrary':
        w = ctx.choice('word', (ALLOWED[n.tag] or ['Apply']) + ['?'])
        at = ctx.choice('at', sorted(set([0, len(w) // 2, len(w) - 1])))
        c = ctx.str('letter', maxlen=2 if w == '?' else 1, vector=True,
                    chars=[('a', 'z'), ('A', 'Z')])
        tag = Concat(w[:at], c, w[at + 1:])
        ctx.assume(Not(Eq(tag, '')))
        ctx.assume(And([Not(Eq(tag, t)) for t in ALLOWED[n.tag]]))
        new = Node(Concat(NS, tag))
    else:
        new = ctx.choice('new', [t for t in STANDARD
                                 if t not in ALLOWED[n.tag]])
        new = sample_of(new)
    first = names != 'standard' or ctx.choice('first', [True, False])
    n.children.insert(0 if first else len(n.children), new)
    must_refuse(ctx, doc)


def sample_of(tag):
    for k in KINDS:
        for n in nodes(sample(k)):
            if n.tag == tag:
                return n
    return E(tag)


def twice(ctx, kinds):
    """An element that may occur only once, a second time."""
    kind = ctx.choice('kind', kinds)
    doc = sample(kind)
    once = ['Target', 'Condition', 'Apply'] + SOURCES
    spots = [(n, c) for n in nodes(doc) for c in n.children
             if c.tag in once and n.tag != 'Apply']
    n, c = ctx.choice('spot', spots)
    new = {'Target': lambda: E('Target'),
           'Condition': lambda: E('Condition', apply_el(FN1 + 'and')),
           'Apply': lambda: apply_el(FN1 + 'and'),
           'AttributeSelector': lambda: selector_el('//y')}.get(
               c.tag, lambda: designator_el(c.tag[:-19], 'urn:other'))()
    i = n.children.index(c)
    n.children.insert(i + ctx.choice('after', [0, 1]), new)
    must_refuse(ctx, doc)


def both_sources(ctx):
    """A match with a designator and a selector, in either order."""
    cat = ctx.choice('cat', CATEGORIES)
    parts = [value_el('x'), designator_el(cat, 'urn:id'), selector_el()]
    order = ctx.choice('order', [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0),
                                 (2, 0, 1), (2, 1, 0)])
    m = E(MATCH_OF[cat], *[parts[i] for i in order],
          MatchId=FN1 + 'string-equal')
    must_refuse(ctx, minimal(ctx, [], E('Target', E(cat + 's', E(cat, m)))))


def missing_child(ctx, kinds):
    """A match or condition without a part it needs."""
    kind = ctx.choice('kind', kinds)
    doc = sample(kind)
    spots = [(n, c) for n in nodes(doc) for c in n.children
             if n.tag in MATCH_OF.values() or
             n.tag in ('Condition', 'PolicyDefaults', 'PolicySetDefaults')]
    n, c = ctx.choice('spot', spots)
    n.children.remove(c)
    must_refuse(ctx, doc)


def condition(ctx):
    """A condition that is not one application."""
    kind = ctx.choice('kind', SOURCES + ['AttributeValue', 'Condition',
                                         'VariableReference', 'Function'])
    c = sample_of(kind)
    must_refuse(ctx, minimal(ctx, [rule_el('rule', 'Permit', None, c)]))


def no_text(ctx, kinds):
    """Elements that need text, without it or with elements in it."""
    kind = ctx.choice('kind', kinds)
    doc = sample(kind)
    spots = [n for n in nodes(doc) if n.tag in (
        'AttributeValue', 'XPathVersion', 'PolicyIdReference',
        'PolicySetIdReference')]
    n = ctx.choice('spot', spots)
    n.text = None
    how = ctx.choice('how', ['empty', 'comment', 'element'])
    if how == 'comment':
        n.children = [Node('#comment')]
    elif how == 'element':
        n.text = 'text'
        n.children = [E('{urn:other}b', text='text')]
    must_refuse(ctx, doc)


def bad_effect(ctx):
    doc = sample('rule')
    e = ctx.str('effect')
    n = [x for x in nodes(doc) if x.tag == 'Rule'][0]
    n.attrib['Effect'] = e
    ctx.check('effect-vocabulary', Iff(
        refused(ctx, doc), Not(In(e, (PERMIT, DENY)))))


def bad_algorithm(ctx, kinds):
    """An algorithm identifier is accepted iff it is one of the three."""
    kind = ctx.choice('kind', kinds)
    tag, attr, prefix, table = {
        'policy': ('Policy', 'RuleCombiningAlgId', RULE_ALG, RULE_ORACLES),
        'set': ('PolicySet', 'PolicyCombiningAlgId', POLICY_ALG,
                POLICY_ORACLES)}[kind]
    doc = sample(kind)
    spots = [n for n in nodes(doc) if n.tag == tag]
    n = ctx.choice('spot', spots)
    alg = n.attrib[attr] = ctx.str('alg')
    ctx.check('algorithm-vocabulary', Iff(refused(ctx, doc), Not(In(
        alg, [prefix + a for a in table]))))


def bad_type(ctx, types):
    """A literal's type is accepted iff values of it can be read."""
    where = ctx.choice('where', ['match', 'operand'])
    v = value_el('1')
    if types == 'known':
        t = ctx.str('type', domain=UNSUPPORTED_TYPES)
    else:
        t = ctx.str('type')
    v.attrib['DataType'] = t
    if where == 'match':
        doc = minimal(ctx, [], E('Target', E('Subjects', E('Subject', E(
            'SubjectMatch', v, designator_el('Subject', 'urn:id'),
            MatchId=FN1 + 'string-equal')))))
    else:
        doc = minimal(ctx, [rule_el('rule', 'Deny', None, apply_el(
            FN1 + 'string-bag', v))])
    ctx.check('type-vocabulary', Iff(refused(ctx, doc),
                                     Not(In(t, LIKE_STRING))))


def bad_function(ctx, maxlen):
    """A function identifier is accepted iff there is such a function."""
    from harness.c15 import provided
    where = ctx.choice('where', ['match', 'apply'])
    how = ctx.choice('how', ['foreign', 'tail', 'typo'])
    if how == 'foreign':
        f = ctx.str('name')
        ctx.assume(Not(StartsWith(f, FN1)))
        ctx.assume(Not(StartsWith(f, FN2)))
    elif how == 'tail':
        f = Concat(ctx.choice('base', [FN1 + 'string-equal', FN1 + 'and',
                                       FN2 + 'string-concatenate']),
                   ctx.str('tail', maxlen=maxlen, vector=True,
                           chars=[(' ', '~')]))
    else:
        f = Concat(FN1, ctx.str('typo', maxlen=maxlen, vector=True,
                                chars=[(' ', '~')]), 'tring-equal')
    if where == 'match':
        doc = minimal(ctx, [], target_el(Subject=[[match_el(
            'Subject', 'urn:id', 'x', fn=f)]]))
    else:
        doc = minimal(ctx, [rule_el('rule', 'Deny', None, apply_el(f))])
    ctx.check('function-vocabulary', Iff(refused(ctx, doc), Not(Or(
        [Eq(f, x) for x in provided()]))))


def bad_mark(ctx, maxlen, words=None):
    """The mandatory mark is a boolean."""
    where = ctx.choice('where', ['AttributeSelector',
                                 'ActionAttributeDesignator'])
    m = ctx.str('mark', maxlen=maxlen, vector=True, chars=[
        ('!', '~'), (' ', ' '), ('\n', '\n')])
    if words:
        w = ctx.choice('word', words)
        i = ctx.choice('at', range(len(w) + 1))
        m = Concat(w[:i], m, w[i + 1:])
    low = '[ \\n]*(true|t|yes|1|false|f|no|0)'.replace('true', '[tT][rR][uU][eE]').replace(
        '|t|', '|[tT]|').replace('yes', '[yY][eE][sS]').replace(
            'false', '[fF][aA][lL][sS][eE]').replace('|f|', '|[fF]|').replace(
                'no', '[nN][oO]') + '[ \\n]*'
    n = sample_of(where)
    n.attrib['MustBePresent'] = m
    doc = minimal(ctx, [rule_el('rule', 'Deny', None, apply_el(
        FN1 + 'and', n))])
    ctx.check('mark-vocabulary', Iff(refused(ctx, doc), Not(ReMatch(
        'fullmatch', low, m))))


def duplicate_rules(ctx, n):
    ids = [ctx.str('id%d' % i) for i in range(n)]
    doc = minimal(ctx, [rule_el(x, 'Permit') for x in ids])
    dup = Or([Eq(x, y) for i, x in enumerate(ids) for y in ids[:i]])
    ctx.check('duplicate-rule', Iff(refused(ctx, doc, ctx.choice(
        'how', ['pdp', 'policy'])), dup))


def duplicate_policies(ctx, shapes):
    """Two policies, or two sets, of one name anywhere in the document."""
    shape = ctx.choice('shape', shapes)
    kind = ctx.choice('kind', ['Policy', 'PolicySet'])
    x, y = ctx.str('x'), ctx.str('y')

    def make(ident, kids=()):
        if kind == 'Policy':
            return policy_el(ident, 'deny-overrides', [])
        return policyset_el(ident, 'deny-overrides', list(kids))

    def wrap(name, *kids):
        return policyset_el(name, 'deny-overrides', list(kids))
    for i in (x, y):
        ctx.assume(Not(In(i, ('top', 'a', 'b'))))
    if shape == 'siblings':
        doc = wrap('top', make(x), make(y))
    elif shape == 'apart':
        doc = wrap('top', wrap('a', make(x)), wrap('b', make(y)))
    elif shape == 'up':
        doc = wrap('top', make(x), wrap('a', make(y)))
    else:
        doc = wrap('top', make(x, [make(y)] if kind == 'PolicySet' else []),
                   *([make(y)] if kind == 'Policy' else []))
    ctx.check('duplicate-policy', Iff(refused(ctx, doc, ctx.choice(
        'how', ['pdp', 'set'])), Eq(x, y)))


def wrong_root(ctx):
    """A document element that is no policy."""
    how = ctx.choice('how', ['pdp', 'policy', 'set'])
    kind = ctx.choice('kind', ['policy', 'set'])
    doc = sample(kind)
    tag = ctx.str('tag')
    ctx.assume(ReMatch('fullmatch', '[A-Za-z]+', tag))
    ctx.assume(Not(In(tag, ('Policy', 'PolicySet'))))
    doc.tag = Concat(NS, tag)
    must_refuse(ctx, doc, how=how)


def other_root(ctx):
    """A policy read as a policy set and the other way round."""
    kind, how = ctx.choice('pair', [('policy', 'set'), ('set', 'policy'),
                                    ('rule', 'set')])
    must_refuse(ctx, sample(kind), how=how)


HARNESSES = [
    Harness('samples', sound, '3 documents of every supported element are '
            'read', params=dict(kinds=KINDS), must_reach=('sample-is-read',)),
    Harness('missing-attribute', missing_attribute, 'every required '
            'attribute in every place of 3 documents', params=dict(
                kinds=KINDS), must_reach=('refused',)),
    Harness('misplaced-element', unknown_child, 'every element of the '
            'standard in every other one, first or last', params=dict(
                kinds=KINDS, names='standard'), must_reach=('refused',)),
    Harness('unknown-element', unknown_child, 'an element of any other name '
            'of up to 2 ASCII letters, or of a known name with any letter '
            'replaced or dropped at 3 places, in every place', params=dict(
                kinds=KINDS, names='arbitrary'), must_reach=('refused',)),
    Harness('twice', twice, 'every target, condition, application, '
            'designator, selector a second time, before or after',
            params=dict(kinds=KINDS), must_reach=('refused',)),
    Harness('both-sources', both_sources, 'designator, selector and value '
            'in every order and category', must_reach=('refused',)),
    Harness('missing-child', missing_child, 'every match, condition and '
            'defaults without one of their children', params=dict(
                kinds=KINDS), must_reach=('refused',)),
    Harness('condition', condition, 'conditions of 9 other expressions',
            must_reach=('refused',)),
    Harness('no-text', no_text, 'literals, references and versions without '
            'text or with elements', params=dict(kinds=KINDS),
            must_reach=('refused',)),
    Harness('effect', bad_effect, 'any string as effect',
            must_reach=('effect-vocabulary',)),
    Harness('algorithm', bad_algorithm, 'any string as algorithm of a policy '
            'or set, at any level', params=dict(kinds=['policy', 'set']),
            must_reach=('algorithm-vocabulary',)),
    Harness('typed-literals', bad_type, 'literals of the 10 other standard '
            'types', params=dict(types='known'),
            must_reach=('type-vocabulary',)),
    Harness('types', bad_type, 'literals of any type', params=dict(
        types='any'), must_reach=('type-vocabulary',)),
    Harness('functions', bad_function, 'any function outside the two name '
            'spaces, and provided ones with ASCII text up to 1 added',
            params=dict(maxlen=1), must_reach=('function-vocabulary',)),
    Harness('mark', bad_mark, 'any mandatory mark of up to 2 printable '
            'characters and white space', params=dict(maxlen=2),
            must_reach=('mark-vocabulary',)),
    Harness('mark-deep', bad_mark, 'any mandatory mark of up to 3 printable '
            'characters and white space', params=dict(maxlen=3),
            must_reach=('mark-vocabulary',), thorough_only=True),
    Harness('mark-words', bad_mark, 'true, false, yes and no with one '
            'character replaced by any, or dropped', params=dict(
                maxlen=1, words=['true', 'false', 'yes', 'No']),
            must_reach=('mark-vocabulary',)),
    Harness('duplicate-rules', duplicate_rules, '3 rules of any identifiers',
            params=dict(n=3), must_reach=('duplicate-rule',)),
    Harness('duplicate-policies', duplicate_policies, '2 policies or sets of '
            'any identifiers, in the same set or apart', params=dict(
                shapes=['siblings', 'apart', 'up', 'inside']),
            must_reach=('duplicate-policy',)),
    Harness('wrong-root', wrong_root, 'a document element of any other name',
            must_reach=('refused',)),
    Harness('other-root', other_root, 'policies for sets and sets for '
            'policies', must_reach=('refused',)),
]
