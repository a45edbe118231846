"""C27 attribute selectors retrieve just what their path selects."""
from harness.docs import *

ASSUMPTIONS = [
    'paths of child and descendant steps by expanded name or *, with '
    'attribute and position predicates; the path evaluation of the standard '
    'library (ElementPath) is executed; lxml is compiled, a stand-in '
    '(symx/fakelxml.py) takes its place in the -lxml harnesses and the paths '
    'explored are run again on lxml itself',
    'a path from the root (/..) is read relative to the request element, as '
    'the selector documents',
]
C = '{urn:oasis:names:tc:xacml:2.0:context:schema:os}'
M = '{urn:m}'


class Step(object):
    def __init__(self, name, deep=False, attr=None, pos=None):
        self.name, self.deep, self.attr, self.pos = name, deep, attr, pos

    def text(self):
        t = self.name
        if self.attr:
            t += "[@%s='%s']" % self.attr
        if self.pos:
            t += '[%d]' % self.pos
        return t


def path_text(start, steps):
    out = start
    for i, s in enumerate(steps):
        if i or start == '.':
            out += '//' if s.deep else '/'
        out += s.text()
    return out


def below(node, deep):
    for c in node.children:
        if c.tag[0] == '#':
            continue
        yield node, c
        if deep:
            for x in below(c, True):
                yield x


def select(root, steps):
    """[(condition, node)] in document order."""
    now = [(True, root)]
    for s in steps:
        new = []
        for cond, n in now:
            count = {}
            for parent, c in below(n, s.deep):
                if s.name != '*' and c.tag != s.name:
                    continue
                k = count[id(parent)] = count.get(id(parent), 0) + 1
                if s.pos and k != s.pos:
                    continue
                ok = cond
                if s.attr:
                    a, want = s.attr
                    if a not in c.attrib:
                        continue
                    ok = And(ok, Eq(c.attrib[a], want))
                new.append((ok, c))
        now = new
    return now


def tree(ctx, records, texts, marks=(None,)):
    """A request of some records, each with owners in several places."""
    def t(tag):
        k = ctx.choice(tag + 'text', texts)
        return k and ctx.str(tag, minlen=1)

    def owner(tag):
        n = E(M + 'owner', kind=ctx.str('kind' + tag), text=t('own' + tag))
        mark = ctx.choice('mark' + tag, marks)
        if mark:                 # the text goes on after a comment
            n.children = [Node(mark)]
            n.children[0].tail = ctx.str('tail' + tag, minlen=1)
        return n
    recs = []
    for i in range(records):
        recs.append(E(
            M + 'record',
            E(M + 'id', text=ctx.str('id%d' % i, minlen=1)),
            owner('%d' % i),
            E('owner', text=ctx.str('plain%d' % i, minlen=1)),
            E(M + 'sub', E(M + 'owner', text=ctx.str('sub%d' % i,
                                                     minlen=1))),
            text='\n'))
    return E(C + 'Request', E(C + 'Subject', E(
        C + 'Attribute', E(C + 'AttributeValue', text=ctx.str(
            'subject', minlen=1)))), E(C + 'Resource', E(
                C + 'ResourceContent', *recs)), E(C + 'Action'))


RC = [Step(C + 'Resource'), Step(C + 'ResourceContent')]
REC = RC + [Step(M + 'record')]
PATHS = {
    'child': ('', REC + [Step(M + 'owner')]),
    'from-root': ('./', REC + [Step(M + 'owner')]),
    'absolute': ('/', REC + [Step(M + 'owner')]),
    'anywhere': ('//', [Step(M + 'owner', True)]),
    'anywhere-relative': ('.//', [Step(M + 'owner', True)]),
    'below': ('', RC + [Step(M + 'owner', True)]),
    'below-record': ('//', [Step(M + 'record', True), Step(M + 'owner')]),
    'no-namespace': ('//', [Step('owner', True)]),
    'star': ('', RC + [Step('*'), Step(M + 'id')]),
    'star-last': ('', REC + [Step(M + 'sub'), Step('*')]),
    'kind': ('//', [Step(M + 'owner', True, attr=('kind', 'x'))]),
    'kind-child': ('', REC + [Step(M + 'owner', attr=('kind', ''))]),
    'second': ('', RC + [Step(M + 'record', pos=2), Step(M + 'owner')]),
    'first': ('//', [Step(M + 'record', True, pos=1), Step(M + 'id')]),
    'subject': ('//', [Step(C + 'Subject', True), Step(C + 'Attribute'),
                       Step(C + 'AttributeValue')]),
    'nothing': ('//', [Step(M + 'nobody', True)]),
    'other-namespace': ('', REC + [Step(C + 'owner')]),
    'own-subject': ('', [Step(C + 'Subject'), Step(M + 'owner', True)]),
}


def selector(path, dtype=STRING, must=None):
    from ndg.xacml.core.attributeselector import AttributeSelector
    s = AttributeSelector()
    s.dataType, s.requestContextPath = dtype, path
    if must is not None:
        s.mustBePresent = must
    return s


def request_for(elem):
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
    r = Request()
    r.attributeSelector = EtreeXPathSelector(elem)
    return r


def found_in(ctx, root, steps):
    """The nodes selected on this path (forks on the predicates)."""
    return [n for cond, n in select(root, steps) if ctx.decide(cond)]


def text_of(node):
    parts = [p for p in [node.text] + [c.tail for c in node.children
                                       if c.tag[0] == '#'] if p is not None]
    return Concat(*parts) if len(parts) > 1 else parts[0] if parts else None


def values(ctx, names, records, texts, marks=(None,)):
    """The bag of one selector."""
    root = tree(ctx, ctx.choice('records', records), texts, marks)
    name = ctx.choice('path', names)
    start, steps = PATHS[name]
    path = start + path_text('', steps)
    dtype = ctx.choice('type', [STRING, ANYURI])
    must = ctx.choice('must', [None, False, True])
    elem = to_element(root, '')
    before = content_of(elem)
    out = ctx.call(selector(path, dtype, must).evaluate, request_for(elem))
    want = [text_of(n) for n in found_in(ctx, root, steps)]
    ctx.observe('bag', [v.value for v in out.value] if out.ok
                else out.exc_name)
    ctx.check('request-unchanged', same_state(content_of(elem), before))
    if any(w is None for w in want):
        # an element without text is an empty string, or an error
        want = ['' if w is None else w for w in want]
        ctx.check('empty-element-never-a-value', Or(not out.ok, And(
            [out.ok and same_bag(out.value, [attr_class(dtype)(w)
                                             for w in want])])))
        return
    if not want and must:
        ctx.check('missing-is-an-error', out.raised('MissingAttributeError'))
        return
    ctx.check('selects', out.ok)
    ctx.check('just-what-is-selected', out.ok and same_bag(
        out.value, [attr_class(dtype)(w) for w in want]))


def content_of(elem):
    return [elem.tag if isinstance(elem.tag, str) else '#', elem.text,
            elem.tail, sorted(elem.attrib), [
        elem.attrib[k] for k in sorted(elem.attrib)],
        [content_of(c) for c in elem]]


def matching(ctx, names):
    """A policy whose match compares with what a selector finds."""
    root = tree(ctx, 2, ['arbitrary'])
    start, steps = PATHS[ctx.choice('path', names)]
    cat = ctx.choice('category', CATEGORIES)
    literal = ctx.str('literal')
    must = ctx.choice('must', [False, True])
    m = E(MATCH_OF[cat], value_el(literal), E(
        'AttributeSelector', RequestContextPath=start + path_text('', steps),
        DataType=STRING, MustBePresent='true' if must else 'false'),
        MatchId=FN1 + 'string-equal')
    eff = ctx.choice('effect', [PERMIT, DENY])
    pdp = pdp_of(policy_el('p', 'first-applicable', [rule_el(
        'r', eff, target_el(**{cat: [[m]]}))]))
    d = single_result_decision(ctx.call(pdp.evaluate, request_for(
        to_element(root, ''))))
    ctx.observe('decision', d)
    found = found_in(ctx, root, steps)
    holds = Or([Eq(n.text, literal) for n in found])
    ctx.check('decides-by-what-is-selected', Eq(
        d, IND if must and not found else If(holds, eff, NA)))


def history(ctx, names):
    """One selector, two requests, and content changed in between."""
    from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
    start, steps = PATHS[ctx.choice('path', names)]
    s = selector(start + path_text('', steps))
    roots = [tree(ctx, 1, ['arbitrary'])]
    two = E(C + 'Request', E(C + 'Resource', E(C + 'ResourceContent', E(
        M + 'record', E(M + 'owner', text=ctx.str('other', minlen=1)),
        E(M + 'id', text=ctx.str('other-id', minlen=1))))))
    roots.append(two)
    elems = [to_element(r, '') for r in roots]
    reqs = [request_for(e) for e in elems]
    new = ctx.str('new', minlen=1)
    for turn, (i, change) in enumerate(ctx.choice('script', [
            [(0, None), (1, None), (0, None)],
            [(0, None), (0, 'text'), (1, None)],
            [(0, None), (0, 'element'), (0, None)],
            [(0, None), (0, 'engine'), (0, None)],
            [(1, None), (1, 'remove'), (0, None)]])):
        rec = roots[i].children[-2 if i == 0 else -1].children[0].children[0]
        erec = elems[i].find('.//' + M + 'record')
        if change == 'text':
            for n, e in zip(rec.children, erec):
                if n.tag == M + 'owner':
                    n.text = e.text = new
        elif change == 'element':
            rec.children.append(E(M + 'owner', text=new))
            erec.append(to_element(rec.children[-1], ''))
        elif change == 'remove':
            k = [j for j, n in enumerate(rec.children)
                 if n.tag == M + 'owner'][0]
            del rec.children[k]
            erec.remove(erec[k])
        elif change == 'engine':
            reqs[i].attributeSelector = EtreeXPathSelector(elems[1])
            out = ctx.call(s.evaluate, reqs[i])
            want = [n.text for n in found_in(ctx, two, steps)]
            ctx.check('the-selector-set', out.ok and same_bag(
                out.value, [attr_class(STRING)(w) for w in want]))
            reqs[i].attributeSelector = EtreeXPathSelector(elems[i])
        out = ctx.call(s.evaluate, reqs[i])
        want = [n.text for n in found_in(ctx, roots[i], steps)]
        ctx.observe('n%d' % turn, len(want))
        ctx.check('as-the-request-now-is', out.ok and same_bag(
            out.value, [attr_class(STRING)(w) for w in want]))


def bad_paths(ctx, paths):
    """A path that cannot be evaluated is an error, so Indeterminate."""
    root = tree(ctx, 1, ['arbitrary'])
    path = ctx.choice('path', paths)
    r = request_for(to_element(root, ''))
    out = ctx.call(selector(path).evaluate, r)
    ctx.observe('ok', out.ok)
    ctx.check('error', not out.ok)
    m = E('ResourceMatch', value_el(ctx.str('literal')), E(
        'AttributeSelector', RequestContextPath=path, DataType=STRING),
        MatchId=FN1 + 'string-equal')
    eff = ctx.choice('effect', [PERMIT, DENY])
    pdp = pdp_of(policy_el('p', 'first-applicable', [rule_el(
        'r', eff, target_el(Resource=[[m]]))]))
    d = single_result_decision(ctx.call(pdp.evaluate, r))
    ctx.check('indeterminate', Eq(d, IND))


def engine_arguments(ctx):
    """Only elements are searched, only selectors are set."""
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
    kind = ctx.choice('kind', ['none', 'str', 'list', 'element'])
    from ndg.xacml import importElementTree
    ET = importElementTree()
    bad = {'none': None, 'str': '<a/>', 'list': [], 'element': ET.Element(
        'a')}[kind]
    out = ctx.call(EtreeXPathSelector, bad)
    ctx.check('elements-only', out.ok if kind == 'element' else
              out.raised(TypeError))
    r = Request()
    out = ctx.call(setattr, r, 'attributeSelector', bad)
    ctx.observe('ok', out.ok)
    ctx.check('selectors-only', out.raised(TypeError))


def texts_and_attributes(ctx, records):
    """Paths that end in text() or an attribute (lxml only)."""
    root = tree(ctx, ctx.choice('records', records), ['arbitrary'])
    start, steps = PATHS[ctx.choice('path', ['child', 'absolute', 'anywhere',
                                             'below', 'second', 'kind',
                                             'no-namespace', 'nothing'])]
    last = ctx.choice('last', ['text()', '@kind', '@none'])
    must = ctx.choice('must', [None, True])
    elem = to_element(root, '')
    before = content_of(elem)
    out = ctx.call(selector(start + path_text('', steps) + '/' + last,
                            must=must).evaluate, request_for(elem))
    found = found_in(ctx, root, steps)
    want = [n.text if last == 'text()' else n.attrib[last[1:]]
            for n in found if last == 'text()' or last[1:] in n.attrib]
    ctx.observe('bag', [v.value for v in out.value] if out.ok
                else out.exc_name)
    ctx.check('request-unchanged', same_state(content_of(elem), before))
    if not want and must:
        ctx.check('missing-is-an-error', out.raised('MissingAttributeError'))
        return
    ctx.check('just-what-is-selected', out.ok and same_bag(
        out.value, [attr_class(STRING)(w) for w in want]))


warm_up = load_readers
HARNESSES = [
    Harness('values', values, '%d paths, 0..2 records with arbitrary texts '
            'and attributes, 2 data types, every mark' % len(PATHS),
            params=dict(names=sorted(PATHS), records=[0, 1, 2],
                        texts=['arbitrary']),
            must_reach=('just-what-is-selected', 'missing-is-an-error',
                        'request-unchanged')),
    Harness('empty', values, 'elements without text among them',
            params=dict(names=['child', 'anywhere', 'second'],
                        records=[1, 2], texts=['arbitrary', None]),
            must_reach=('empty-element-never-a-value',)),
    Harness('interrupted', values, 'texts with a comment or processing '
            'instruction inside', params=dict(
                names=['child', 'anywhere', 'star-last', 'kind'],
                records=[1, 2], texts=['arbitrary', None],
                marks=['#comment', '#pi']),
            must_reach=('just-what-is-selected',)),
    Harness('matching', matching, '%d paths, a match of every category' %
            len(PATHS), params=dict(names=sorted(PATHS)),
            must_reach=('decides-by-what-is-selected',)),
    Harness('history', history, '5 histories of 3 evaluations on 2 requests',
            params=dict(names=['child', 'anywhere', 'star', 'kind',
                               'no-namespace']),
            must_reach=('as-the-request-now-is', 'the-selector-set')),
    Harness('bad-paths', bad_paths, '4 paths', params=dict(
        paths=['//' + M + 'owner[', '//owner/@x', '//p:owner',
               'owner[foo()]']),
            must_reach=('error', 'indeterminate')),
    Harness('engine-arguments', engine_arguments, '4 kinds of object',
            must_reach=('elements-only', 'selectors-only')),
]
HARNESSES += [under_lxml(h) for h in HARNESSES if h.name in (
    'values', 'interrupted', 'matching', 'history', 'engine-arguments')]
HARNESSES.append(Harness(
    'bad-paths-lxml', bad_paths, '4 paths; with lxml', lxml=True,
    params=dict(paths=['//' + M + 'owner[', '//owner/@', '//p:owner',
                       '//owner[foo()]']), must_reach=(
                           'error', 'indeterminate')))
HARNESSES.append(Harness(
    'texts-and-attributes-lxml', texts_and_attributes, 'paths that end in '
    'text() or an attribute, 1..2 records; with lxml', lxml=True,
    params=dict(records=[1, 2]), must_reach=(
        'just-what-is-selected', 'missing-is-an-error')))
