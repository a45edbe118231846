"""C07 attribute designators retrieve exactly what they name."""
from harness.common import *

ASSUMPTIONS = [
    'the request has no context handler (C09)',
]
TYPES = (STRING, ANYURI, INTEGER)


def value_of(ctx, tag, uri, symbolic=True):
    if uri == INTEGER:
        return attr_class(uri)(ctx.int(tag, 0, 1) if symbolic else 7)
    return attr_class(uri)(ctx.str(tag, domain=('x', 'y')) if symbolic
                           else tag)


def retrieve(ctx, nchild, nattr, nval, mixed=False, cats=CATEGORIES,
             symvalues=True, other=False, types=TYPES):
    """nchild: (min, max) subjects/resources; nattr, nval alike."""
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.utils import TypedList
    cat = ctx.choice('category', cats)
    request = Request()
    # the other categories hold attributes that match in every respect
    d = designator(cat)
    did = ctx.str('id', maxlen=3)
    dtype = ctx.choice('type', types)
    d.attributeId = did
    d.dataType = dtype
    if ctx.decide(ctx.bool('has_issuer')):
        dissuer = ctx.str('issuer', maxlen=3)
        d.issuer = dissuer
    else:
        dissuer = None
    for c in CATEGORIES:
        if c == cat:
            continue
        if c in ('Action', 'Environment') and not other:
            add_child(request, c, context_class(c)())
            continue
        child = context_class(c)()
        child.attributes.append(make_attribute(
            did, dtype, dissuer, [value_of(ctx, 'alien', dtype, False)]))
        add_child(request, c, child)
    if cat in ('Action', 'Environment'):
        n = 1
    else:
        n = ctx.choice('children', range(nchild[0], nchild[1] + 1))
    expected = []
    every = []
    for i in range(n):
        child = context_class(cat)()
        m = ctx.choice('attrs%d' % i, range(nattr[0], nattr[1] + 1))
        for j in range(m):
            tag = '%d_%d' % (i, j)
            aid = ctx.str('id' + tag, maxlen=3)
            atype = ctx.str('type' + tag, domain=types)
            if ctx.decide(ctx.bool('has_issuer' + tag)):
                aissuer = ctx.str('issuer' + tag, maxlen=3)
            else:
                aissuer = None
            k = ctx.choice('values' + tag, range(nval[0], nval[1] + 1))
            vals = []
            for l in range(k):
                vtype = ctx.choice('vtype%s_%d' % (tag, l), types) if mixed \
                    else dtype
                vals.append(value_of(ctx, 'v%s_%d' % (tag, l), vtype,
                                     symvalues))
            child.attributes.append(make_attribute(aid, atype, aissuer, vals))
            hit = And(Eq(aid, did), Eq(atype, dtype),
                      True if dissuer is None else
                      (False if aissuer is None else Eq(aissuer, dissuer)))
            every.append((hit, [v for v in vals if type(v) is
                                attr_class(dtype)]))
        add_child(request, cat, child)
    before = request_state(request)
    out = ctx.call(d.evaluate, request)
    for hit, vals in every:
        if ctx.decide(hit):
            expected += vals
    ctx.observe('n', len(out.value) if out.ok else out.exc_name)
    ctx.check('retrieves', out.ok)
    if not out.ok:
        return
    ctx.check('exactly-the-named-values', same_bag(out.value, expected))
    ctx.check('bag-of-the-type', isinstance(out.value, TypedList) and
              out.value.elementType is attr_class(dtype))
    ctx.check('request-unchanged', same_state(before,
                                              request_state(request)))
    again = ctx.call(d.evaluate, request)
    ctx.check('repeatable', again.ok and same_bag(again.value, expected))


def subject_categories(ctx, n):
    """Every subject of the request counts, whatever its category."""
    from ndg.xacml.core.context.request import Request
    d = designator('Subject')
    d.attributeId = did = ctx.str('id', maxlen=3)
    d.dataType = STRING
    C = attr_class(STRING)
    request = Request()
    groups = []
    for i in range(n):
        s = context_class('Subject')()
        if ctx.choice('has%d' % i, [True, False]):
            s.subjectCategory = ctx.str('category%d' % i)
        aid = ctx.str('id%d' % i, maxlen=3)
        v = C(ctx.str('v%d' % i, domain=('x', 'y')))
        s.attributes.append(make_attribute(aid, STRING, None, [v]))
        groups.append((Eq(aid, did), v))
        add_child(request, 'Subject', s)
    before = request_state(request)
    out = ctx.call(d.evaluate, request)
    expected = [v for hit, v in groups if ctx.decide(hit)]
    ctx.observe('n', len(out.value) if out.ok else out.exc_name)
    ctx.check('exactly-the-named-values', out.ok and
              same_bag(out.value, expected))
    ctx.check('request-unchanged', same_state(before,
                                              request_state(request)))


def many(ctx, ns, what):
    """Many attributes, values or subjects, of which any one is different."""
    from ndg.xacml.core.context.request import Request
    cat = ctx.choice('category', CATEGORIES if what != 'children' else
                     ('Subject', 'Resource'))
    n, (at,) = sparse(ctx, ns, 1)
    dtype = ctx.choice('type', (STRING, ANYURI))
    issued = ctx.choice('issued', [False, True])
    d = designator(cat)
    d.attributeId = 'id'
    d.dataType = dtype
    if issued:
        d.issuer = 'me'
    aid = ctx.str('id', maxlen=4)
    atype = ctx.str('atype', domain=(STRING, ANYURI))
    issuer = ctx.str('issuer', maxlen=4)
    others = ctx.choice('others', [False, True])
    C = attr_class(dtype)
    request = Request()
    groups = []
    for i in range(n):
        v = C('v%d' % i)
        if i == at and what != 'values':
            groups.append((aid, atype, issuer, v, And(
                Eq(aid, 'id'), Eq(atype, dtype),
                Or(not issued, Eq(issuer, 'me')))))
        else:
            groups.append(('id' if others else 'no', dtype, 'me', v, others))
    if what == 'children':
        for a, ty, iss, v, _hit in groups:
            child = context_class(cat)()
            child.attributes.append(make_attribute(a, ty, iss, [v]))
            add_child(request, cat, child)
    else:
        child = context_class(cat)()
        if what == 'attributes':
            for a, ty, iss, v, _hit in groups:
                child.attributes.append(make_attribute(a, ty, iss, [v]))
        else:
            vals = [g[3] for g in groups]
            # one value equal to another is a value of its own
            vals[at] = C(ctx.str('twin', domain=('v0', 'v1', 'w')))
            hit = And(Eq(aid, 'id'), Eq(atype, dtype),
                      Or(not issued, Eq(issuer, 'me')))
            groups = [(None, None, None, v, hit) for v in vals]
            child.attributes.append(make_attribute(aid, atype, issuer, vals))
        add_child(request, cat, child)
    out = ctx.call(d.evaluate, request)
    expected = [g[3] for g in groups if ctx.decide(g[4])]
    ctx.observe('n', len(out.value) if out.ok else out.exc_name)
    ctx.check('exactly-the-named-values', out.ok and
              same_bag(out.value, expected))


def not_a_request(ctx):
    cat = ctx.choice('category', CATEGORIES)
    kind = ctx.choice('kind', ['none', 'str', 'dict', 'duck', 'subject'])
    d = designator(cat)
    d.attributeId = 'x'
    d.dataType = STRING

    class Duck(object):
        subjects = resources = ()
        ctxHandler = None
        action = environment = context_class('Action')()
    val = {'none': None, 'str': 'x', 'dict': {}, 'duck': Duck(),
           'subject': context_class('Subject')()}[kind]
    out = ctx.call(d.evaluate, val)
    ctx.observe('ok', out.ok)
    ctx.check('not-a-request-is-an-error', not out.ok)


def warm_up():
    import ndg.xacml.core.policyset
    import ndg.xacml.core.policy
    import ndg.xacml.core.attributedesignator


MR = ('exactly-the-named-values', 'bag-of-the-type', 'request-unchanged')
HARNESSES = [
    Harness('attributes', retrieve, '1 subject/resource/action/environment, '
            '0..2 attributes of 1 value, ids and issuers up to 3 characters, '
            '3 data types; the other categories hold a like attribute',
            params=dict(nchild=(1, 1), nattr=(0, 2), nval=(1, 1),
                        other=True), must_reach=MR),
    Harness('values', retrieve, '1 attribute of 0..3 values (2 contents)',
            params=dict(nchild=(1, 1), nattr=(1, 1), nval=(0, 3)),
            must_reach=MR),
    Harness('children', retrieve, '0..3 subjects/resources of 0..1 '
            'attributes of 1 value',
            params=dict(nchild=(0, 3), nattr=(0, 1), nval=(1, 1),
                        cats=('Subject', 'Resource'), types=(STRING, ANYURI)),
            must_reach=MR),
    Harness('mixed-values', retrieve, '1 attribute of 0..2 values of any of '
            '3 types', params=dict(nchild=(1, 1), nattr=(1, 1), nval=(0, 2),
                                   mixed=True), must_reach=MR),
    Harness('subject-categories', subject_categories, '3 subjects with or '
            'without a category of any text', params=dict(n=3),
            must_reach=('exactly-the-named-values',)),
    Harness('many-attributes', many, '6, 11 or 23 attributes, any one of '
            'another identifier, data type or issuer',
            params=dict(ns=(6, 11, 23), what='attributes'),
            must_reach=('exactly-the-named-values',)),
    Harness('many-values', many, '6, 11 or 23 values, any one of which may '
            'equal others', params=dict(ns=(6, 11, 23), what='values'),
            must_reach=('exactly-the-named-values',)),
    Harness('many-children', many, '6 or 11 subjects or resources, any one '
            'different', params=dict(ns=(6, 11), what='children'),
            must_reach=('exactly-the-named-values',)),
    Harness('not-a-request', not_a_request, '5 kinds of other value',
            must_reach=('not-a-request-is-an-error',)),
    Harness('attributes-deep', retrieve, '0..2 subjects/resources of 0..2 '
            'attributes of 1 value',
            params=dict(nchild=(0, 2), nattr=(0, 2), nval=(1, 1),
                        types=(STRING, ANYURI)), thorough_only=True,
            must_reach=MR),
    Harness('values-deep', retrieve, '2 attributes of 0..2 values',
            params=dict(nchild=(1, 1), nattr=(2, 2), nval=(0, 2)),
            thorough_only=True, must_reach=MR),
]
