"""C23 requests and responses survive conversion to XML and back."""
from harness.docs import *
from harness.objects import content, same

ASSUMPTIONS = [
    'converting to and from XML means to and from element trees; writing '
    'and parsing the text of an element tree is the XML library\'s',
    'in the -lxml harnesses a stand-in (symx/fakelxml.py) takes the place of '
    'lxml; the paths explored are run again on lxml itself',
    'attribute values of string-like data types']
CNS = '{urn:oasis:names:tc:xacml:2.0:context:schema:os}'
XS = 'http://www.w3.org/2001/XMLSchema#'
TYPES = [XS + 'string', XS + 'anyURI',
         'urn:oasis:names:tc:xacml:1.0:data-type:rfc822Name']
ACCESS = 'urn:oasis:names:tc:xacml:1.0:subject-category:access-subject'
CATS = ('Subject', 'Resource', 'Action', 'Environment')


def to_plain(elem):
    """[tag, attributes, text, children] of an element."""
    return [elem.tag, [[k, v] for k, v in sorted(elem.attrib.items())],
            elem.text, [to_plain(c) for c in elem]]


def node_plain(node):
    return [CNS + node.tag, [[k, v] for k, v in sorted(node.attrib.items())],
            node.text, [node_plain(c) for c in node.children]]


def same_tree(x, y):
    return And([x[0] == y[0], len(x[1]) == len(y[1]), len(x[3]) == len(y[3])]
               + [And(a[0] == b_[0], Eq(a[1], b_[1]))
                  for a, b_ in zip(x[1], y[1])] +
               [Eq(x[2] if x[2] is not None else '',
                   y[2] if y[2] is not None else '')] +
               [same_tree(a, b_) for a, b_ in zip(x[3], y[3])])


# ------------------------------------------------------ a request, plainly
def attributes(ctx, tag, counts, values, types):
    out = []
    for i in range(ctx.choice(tag + '-attributes', counts)):
        t = '%s-a%d-' % (tag, i)
        dtype = ctx.choice(t + 'type', types if i == 0 else types[:2])
        issuer = ctx.str(t + 'issuer') if ctx.choice(
            t + 'has-issuer', [False, True]) else None
        # (each possibly empty text is two paths)
        out.append((ctx.str(t + 'id'), dtype, issuer, [
            ctx.str('%sv%d' % (t, k), minlen=i) for k in range(
                ctx.choice(t + 'values', values))]))
    return out


def plain_request(ctx, busy, numbers, counts, values, types):
    """{category: [(subject category, attributes)]}; one category varies."""
    which = ctx.choice('category', busy)
    req = {}
    for cat in CATS:
        n = 1
        if cat in ('Subject', 'Resource') and cat == which:
            n = ctx.choice('number', numbers)
        req[cat] = []
        for i in range(n):
            tag = cat.lower() + str(i)
            category = None
            if cat == 'Subject' and cat == which and i == 0:
                category = ctx.choice('subject-category', [None, 'given'])
                if category:
                    category = ctx.str('subject-category-text')
            req[cat].append((category, attributes(
                ctx, tag, counts, values, types) if cat == which and i == 0
                else [(ctx.str(tag + 'id'), TYPES[0], None,
                       [ctx.str(tag + 'v', minlen=1)])]))
    return req


def request_object(req):
    from ndg.xacml.core.context.request import Request
    r = Request()
    for cat in CATS:
        for category, attrs in req[cat]:
            o = context_class(cat)()
            if category is not None:
                o.subjectCategory = category
            for ident, dtype, issuer, texts in attrs:
                o.attributes.append(make_attribute(
                    ident, dtype, issuer, [attr_class(dtype)(t)
                                           for t in texts]))
            add_child(r, cat, o)
    return r


def request_node(req, default=False):
    out = []
    for cat in CATS:
        for category, attrs in req[cat]:
            kw = {} if category is None else dict(SubjectCategory=category)
            out.append(E(cat, *[attribute_node(a) for a in attrs], **kw))
    return E('Request', *out)


def attribute_node(a):
    ident, dtype, issuer, texts = a
    kw = {} if issuer is None else dict(Issuer=issuer)
    return E('Attribute', *[E('AttributeValue', text=t) for t in texts],
             AttributeId=ident, DataType=dtype, **kw)


def described(request):
    """The plain description of a request object."""
    out = {}
    for cat, children in (('Subject', request.subjects),
                          ('Resource', request.resources),
                          ('Action', [request.action]),
                          ('Environment', [request.environment])):
        out[cat] = [None if c is None else (
            getattr(c, 'subjectCategory', None),
            [(a.attributeId, a.dataType, a.issuer,
              [(v.dataType, type(v).__name__, v.value)
               for v in a.attributeValues], a.attributeValues.elementType
              ) for a in c.attributes]) for c in children]
    return out


def says(ctx, request, req):
    """The request object has exactly the content described."""
    got = described(request)
    conds = []
    for cat in CATS:
        conds.append(len(got[cat]) == len(req[cat]))
        for o, (category, attrs) in zip(got[cat], req[cat]):
            if o is None or len(o[1]) != len(attrs):
                return False
            if cat == 'Subject':
                conds.append(Eq(o[0], ACCESS if category is None
                                else category))
            for x, (ident, dtype, issuer, texts) in zip(o[1], attrs):
                conds += [Eq(x[0], ident), Eq(x[1], dtype), Eq(x[2], issuer),
                          len(x[3]) == len(texts)]
                for v, t in zip(x[3], texts):
                    conds += [Eq(v[0], dtype),
                              v[1] == attr_class(dtype).__name__,
                              Eq(v[2], t)]
    return And(conds)


def request(ctx, **kw):
    """A request made of objects, its element, and what is read of that."""
    from ndg.xacml.parsers.etree.context import RequestElementTree
    req = plain_request(ctx, **kw)
    obj = request_object(req)
    before = described(obj)
    out = ctx.call(RequestElementTree.toXML, obj)
    ctx.check('converted', out.ok)
    ctx.check('element-says-it', same_tree(
        to_plain(out.value), node_plain(request_node(req))))
    back = ctx.call(RequestElementTree.fromXML, out.value)
    ctx.check('read-back', back.ok)
    ctx.check('the-same', says(ctx, back.value, req))
    ctx.check('given-one-untouched', same_description(
        before, described(obj)))
    ctx.check('knows-its-element', back.value.elem is out.value)
    again = ctx.call(RequestElementTree.toXML, back.value)
    full = dict(req)
    full['Subject'] = [(ACCESS if c is None else c, a)
                       for c, a in req['Subject']]
    ctx.check('converted-again', again.ok and same_tree(
        to_plain(again.value), node_plain(request_node(full))))


def same_description(x, y):
    if isinstance(x, dict):
        return all(same_description(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(
            same_description(a, b_) for a, b_ in zip(x, y))
    return x is y


def large(ctx, ns, whats):
    """Many subjects, resources, attributes or values, any one arbitrary."""
    from ndg.xacml.parsers.etree.context import RequestElementTree
    what = ctx.choice('what', whats)
    n, (at,) = sparse(ctx, ns, 1)
    cat = what if what in CATS else ctx.choice('category', CATS)
    special = (ctx.str('id', minlen=1), ctx.choice('type', TYPES[:2]),
               ctx.str('issuer', minlen=1), ctx.str('text', minlen=1))

    def row(i):
        if i == at:
            return special
        return 'urn:%d' % i, TYPES[i % 2], None, 'text %d' % i
    req = {c: [(None, [('urn:x', TYPES[0], None, ['x'])])] for c in CATS}
    if what in CATS:
        req[cat] = []
        for i in range(n):
            ident, dtype, issuer, text = row(i)
            req[cat].append((issuer if cat == 'Subject' else None,
                             [(ident, dtype, issuer, [text])]))
    elif what == 'attributes':
        req[cat] = [(None, [(a, d, i, [t]) for a, d, i, t in
                            map(row, range(n))])]
    else:
        req[cat] = [(None, [(special[0], TYPES[0], special[2], [
            row(i)[3] for i in range(n)])])]
    obj = request_object(req)
    out = ctx.call(RequestElementTree.toXML, obj)
    ctx.check('converted', out.ok)
    ctx.check('element-says-it', same_tree(
        to_plain(out.value), node_plain(request_node(req))))
    back = ctx.call(RequestElementTree.fromXML, out.value)
    ctx.check('read-back', back.ok)
    ctx.check('the-same', says(ctx, back.value, req))


# ---------------------------------------------------- documents of others
def document(ctx, busy, numbers, counts, values, types, noise):
    """Elements in any namespace, with comments, in any order."""
    from ndg.xacml.parsers.etree.context import RequestElementTree
    req = plain_request(ctx, busy, numbers, counts, values, types)
    node = request_node(req)
    what = ctx.choice('noise', noise)
    ns = CNS
    if what == 'no-namespace':
        ns = ''
    elif what == 'other-namespace':
        ns = '{urn:other}'
    elif what == 'reversed':
        # one category before the other; the order within stays
        node.children = [c for cat in reversed(CATS)
                         for c in node.all(cat)]
    elif what == 'comments':
        def put(n):
            if n.tag == 'AttributeValue':
                # in the middle of the text
                t, n.text = n.text, Concat(n.text, 'x')
                m = Node('#comment')
                m.tail = Concat('y', t)
                n.children = [m]
                values.append(n)
                return
            n.children = [d for c in n.children
                          for d in (Node('#comment'), c)] + [Node('#pi')]
            for c in n.children:
                if c.tag[0] != '#':
                    put(c)
        values = []
        put(node)
        req = {cat: [(k, [(i, d, s, [Concat(t, 'xy', t) for t in ts])
                          for i, d, s, ts in attrs])
                     for k, attrs in req[cat]] for cat in CATS}
    elif what == 'blanks':
        for n in [node] + node.children:
            n.text = '\n  '
            for c in n.children:
                c.tail = '\n '
    elem = to_element(node, ns)
    out = ctx.call(RequestElementTree.fromXML, elem)
    ctx.check('read', out.ok)
    ctx.check('says-what-the-element-says', says(ctx, out.value, req))


def refused(ctx):
    """Documents that are no requests, or not readable ones."""
    from ndg.xacml.parsers.etree.context import RequestElementTree
    cat = ctx.choice('category', CATS)
    req = {c: [(None, [(ctx.str(c + 'id'), TYPES[0], None,
                        [ctx.str(c + 'v')])])] for c in CATS}
    node = request_node(req)
    attr = node.one(cat).children[0]
    what = ctx.choice('what', ['root', 'child', 'no-id', 'no-type', 'type',
                               'no-value', 'comment-only', 'in-attribute',
                               'in-value', 'not-string'])
    if what == 'root':
        node.tag = ctx.choice('tag', ['Response', 'request', 'Requests'])
    elif what == 'child':
        node.children.insert(ctx.choice('at', [0, 4]), E(ctx.choice(
            'tag', ['Target', 'subject', 'Attribute'])))
    elif what == 'no-id':
        del attr.attrib['AttributeId']
    elif what == 'no-type':
        del attr.attrib['DataType']
    elif what == 'type':
        t = ctx.str('type')
        for known in KNOWN:
            ctx.assume(Not(Eq(t, known)))
        attr.attrib['DataType'] = t
    elif what == 'no-value':
        attr.children = []
    elif what == 'comment-only':
        attr.children = [Node('#comment')]
    elif what == 'in-attribute':
        attr.children.append(E(ctx.choice('tag', ['Attribute', 'Value'])))
    elif what == 'in-value':
        attr.children[0].children.append(E('AttributeValue'))
    else:
        attr.attrib['DataType'] = ctx.choice('typed', NOT_TEXT)
    out = ctx.call(RequestElementTree.fromXML, to_element(node, CNS))
    ctx.observe('outcome', out.exc_name)
    ctx.check('refused', not out.ok)


NOT_TEXT = [XS + t for t in ('integer', 'boolean', 'double', 'date', 'time',
                             'dateTime', 'hexBinary')]
KNOWN = NOT_TEXT + TYPES + [
    XS + 'base64Binary'] + [
    'http://www.w3.org/TR/2002/WD-xquery-operators-20020816#' + t
    for t in ('dayTimeDuration', 'yearMonthDuration')] + [
    'urn:oasis:names:tc:xacml:1.0:data-type:x500Name',
    'urn:oasis:names:tc:xacml:2.0:data-type:ipAddress',
    'urn:oasis:names:tc:xacml:2.0:data-type:dnsName']


def content_of_resource(ctx):
    """A resource's content is carried along as it is."""
    from ndg.xacml.parsers.etree.context import (RequestElementTree,
                                                 ResourceElementTree)
    from ndg.xacml.core.context.resource import Resource
    has = ctx.choice('has', ['content', 'none', 'text'])
    text = ctx.str('text')
    kids = ctx.choice('kids', [0, 1, 2])
    inner = E('ResourceContent', *[E('Any', text=ctx.str('k%d' % i))
                                   for i in range(kids)], text=text)
    r = Resource()
    whole = to_element(E('Whole'), CNS)
    n = ctx.choice('attributes', [0, 1, 2])
    attrs = [(ctx.str('id%d' % i), TYPES[0], None, [ctx.str('v%d' % i)])
             for i in range(n)]
    for ident, dtype, issuer, texts in attrs:
        r.attributes.append(make_attribute(
            ident, dtype, issuer, [attr_class(dtype)(t) for t in texts]))
    if has == 'content':
        r.resourceContent = to_element(inner, CNS)
        whole.append(r.resourceContent)
    elif has == 'text':
        r.resourceContent = text
    before = to_plain(whole)
    out = ctx.call(ResourceElementTree.toXML, r)
    if has == 'text':
        ctx.check('text-refused', out.raised(TypeError))
        return
    want = E('Resource', *(([inner] if has == 'content' else []) +
                           [attribute_node(a) for a in attrs]))
    ctx.check('element-says-it', same_tree(to_plain(out.value),
                                           node_plain(want)))
    ctx.check('given-one-untouched', same_tree(to_plain(whole), before))
    back = ctx.call(ResourceElementTree.fromXML, out.value)
    ctx.check('read-back', back.ok and
              len(back.value.attributes) == n)
    got = back.value.resourceContent
    if has == 'none':
        ctx.check('no-content', got is None)
    else:
        ctx.check('content-kept', same_tree(to_plain(got),
                                            node_plain(inner)))
    ctx.check('attributes-kept', And(
        [And(Eq(a.attributeId, x[0]), Eq(a.attributeValues[0].value, x[3][0]))
         for a, x in zip(back.value.attributes, attrs)]))


# --------------------------------------------------------------- responses
def response(ctx, numbers):
    from ndg.xacml.core.context.response import Response
    from ndg.xacml.core.context.result import Decision, Result
    from ndg.xacml.parsers.etree.context import ResponseElementTree
    obj = Response()
    want = []
    for i in range(ctx.choice('results', numbers)):
        d = ctx.str('decision%d' % i, domain=list(DECISIONS))
        ident = ctx.str('resource%d' % i) if ctx.choice(
            'has-resource%d' % i, [False, True]) else None
        how = ctx.choice('made%d' % i, ['by-hand', 'initialised'])
        if how == 'by-hand':
            r = Result()
            r.decision = Decision(d)
            if ident is not None:
                r.resourceId = ident
        else:
            # an empty identifier is the default, for none
            if ident is None:
                r = Result.createInitialised(decision=d)
            else:
                ctx.assume(Not(Eq(ident, '')))
                r = Result.createInitialised(decision=d, resourceId=ident)
        obj.results.append(r)
        want.append((d, ident))
    out = ctx.call(ResponseElementTree.toXML, obj)
    ctx.check('converted', out.ok)
    ctx.check('element-says-it', same_tree(to_plain(out.value), node_plain(
        response_node(want))))
    back = ctx.call(ResponseElementTree.fromXML, out.value)
    ctx.check('read-back', back.ok)
    ctx.check('the-same', And(
        [len(back.value.results) == len(want)] +
        [And(Eq(r.decision.value, d), Eq(r.resourceId, i))
         for r, (d, i) in zip(back.value.results, want)]))
    again = ctx.call(ResponseElementTree.toXML, back.value)
    ctx.check('converted-again', again.ok and same_tree(
        to_plain(again.value), to_plain(out.value)))


def response_node(want):
    return E('Response', *[
        E('Result', E('Decision', text=d),
          **({} if i is None else dict(ResourceId=i))) for d, i in want])


def response_document(ctx, noise):
    """A response document with comments, blanks, in another namespace."""
    from ndg.xacml.parsers.etree.context import ResponseElementTree
    n = ctx.choice('results', [1, 2])
    want = [(ctx.str('decision%d' % i, domain=list(DECISIONS)),
             ctx.str('resource%d' % i)) for i in range(n)]
    node = response_node(want)
    what = ctx.choice('noise', noise)
    if what == 'blanks':
        for x in [node] + node.children:
            x.text = '\n  '
            for c in x.children:
                c.tail = '\n '
    elif what in ('comments', 'inside'):
        for r in node.children:
            d = r.children[0]
            if what == 'inside':
                t = ctx.decide(Eq(d.text, PERMIT)) and PERMIT or NA
                d.children = [Node('#comment')]
                if t is PERMIT:
                    d.text, d.children[0].tail = 'Per', 'mit'
                else:
                    d.children[0].tail = d.text
                    d.text = None
            r.children = [Node('#comment'), d, Node('#pi')]
        node.children = [Node('#pi')] + node.children + [Node('#comment')]
    out = ctx.call(ResponseElementTree.fromXML, to_element(
        node, {'no-namespace': '', 'other-namespace': '{urn:other}'}.get(
            what, CNS)))
    ctx.check('read', out.ok)
    ctx.check('says-what-the-element-says', And(
        [len(out.value.results) == n] +
        [And(Eq(r.decision.value, d), Eq(r.resourceId, i))
         for r, (d, i) in zip(out.value.results, want)]))


def bad_response(ctx):
    """Any text but the four decisions, and unknown elements, are refused."""
    from ndg.xacml.parsers.etree.context import ResponseElementTree
    d = ctx.str('decision')
    what = ctx.choice('what', ['decision', 'root', 'child', 'in-result',
                               'empty'])
    node = response_node([(d, None)])
    if what == 'root':
        node.tag = ctx.choice('tag', ['Request', 'response', 'Result'])
    elif what == 'child':
        node.children.append(E(ctx.choice('tag', ['Subject', 'Decision'])))
    elif what == 'in-result':
        node.children[0].children.append(E(ctx.choice(
            'tag', ['Result', 'Attribute'])))
    elif what == 'empty':
        node.children[0].children[0].text = None
    out = ctx.call(ResponseElementTree.fromXML, to_element(node, CNS))
    ctx.observe('outcome', out.exc_name)
    if what == 'decision':
        ctx.check('only-decisions', Iff(out.ok, In(d, DECISIONS)))
        if out.ok:
            ctx.check('that-decision', Eq(
                out.value.results[0].decision.value, d))
    else:
        ctx.check('refused', not out.ok)


def foreign(ctx):
    """Conversion of anything but the class in question is a type error."""
    from ndg.xacml.parsers.etree import context as m
    name = ctx.choice('converter', ['Request', 'Subject', 'Resource',
                                    'Action', 'Environment', 'Attribute',
                                    'Response', 'Result', 'Decision'])
    from ndg.xacml.core.context import (action, environment, request,
                                        resource, response, result, subject)
    from ndg.xacml.core.attribute import Attribute
    things = {'Request': request.Request, 'Subject': subject.Subject,
              'Resource': resource.Resource, 'Action': action.Action,
              'Environment': environment.Environment,
              'Attribute': Attribute, 'Response': response.Response,
              'Result': result.Result,
              'Decision': lambda: result.Decision(PERMIT),
              'str': lambda: ctx.str('s'), 'None': lambda: None}
    kind = ctx.choice('kind', sorted(things))
    if kind == name:
        return
    out = ctx.call(getattr(m, name + 'ElementTree').toXML, things[kind]())
    ctx.check('type-error', out.raised(TypeError))
    if name != 'Request' or kind not in CATS:
        return
    missing = ctx.choice('missing', ['Action', 'Environment'])
    r = request_object({c: [(None, [])] for c in CATS if c != missing}
                       | {missing: []})
    ctx.check('incomplete-refused', not ctx.call(
        m.RequestElementTree.toXML, r).ok)


def warm_up():
    import ndg.xacml.parsers.etree.context              # noqa
    import ndg.xacml.core.context.response              # noqa


HARNESSES = [
    Harness('request', request, 'one of 4 categories with 0..2 attributes '
            'of 1..2 values (subjects and resources: 0..2 of them), the '
            'others with one; any texts; 3 data types', params=dict(
                busy=CATS, numbers=[0, 1, 2], counts=[0, 1, 2],
                values=[1, 2], types=TYPES),
            must_reach=('the-same', 'converted-again')),
    Harness('large', large, '5, 9 or 17 subjects, resources, attributes or '
            'values, any one of them arbitrary', params=dict(
                ns=(5, 9, 17), whats=['Subject', 'Resource', 'attributes',
                                      'values']),
            must_reach=('the-same',)),
    Harness('request-larger', request, 'as request, with up to 3 subjects, '
            'resources and values', thorough_only=True, params=dict(
                busy=CATS, numbers=[0, 3], counts=[0, 1, 2],
                values=[1, 2, 3], types=TYPES),
            must_reach=('the-same', 'converted-again')),
    Harness('document', document, 'as request, in other namespaces, with '
            'comments in all places, with blanks, in another order',
            params=dict(busy=CATS, numbers=[1, 2], counts=[0, 1],
                        values=[1, 2], types=TYPES[:2],
                        noise=['none', 'no-namespace', 'other-namespace',
                               'reversed', 'comments', 'blanks']),
            must_reach=('says-what-the-element-says',)),
    Harness('refused', refused, '10 ways of breaking a request document in '
            '4 places', must_reach=('refused',)),
    Harness('resource-content', content_of_resource, 'content of any text '
            'with 0..2 elements, 0..2 attributes',
            must_reach=('content-kept', 'text-refused')),
    Harness('response', response, '0..2 results of any decision, with and '
            'without any resource', params=dict(numbers=[0, 1, 2]),
            must_reach=('the-same', 'converted-again')),
    Harness('response-document', response_document, '1..2 results of any '
            'decision and resource, with comments in all places, blanks, in '
            'other namespaces', params=dict(
                noise=['none', 'no-namespace', 'other-namespace', 'comments',
                       'inside', 'blanks']),
            must_reach=('says-what-the-element-says',)),
    Harness('bad-response', bad_response, 'any text for a decision, unknown '
            'elements', must_reach=('only-decisions', 'refused')),
    Harness('foreign', foreign, '9 converters, 11 kinds of objects',
            must_reach=('type-error', 'incomplete-refused')),
]
HARNESSES += [under_lxml(h) for h in HARNESSES if h.name in (
    'request', 'document', 'resource-content', 'response',
    'response-document')]
