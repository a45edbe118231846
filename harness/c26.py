"""C26 what is pickled or copied comes back the same."""
import copy
import io
import os
import pickle

from harness.c23 import (CATS, CNS, TYPES, plain_request, request_node,
                         request_object, says, described, same_description,
                         same_tree, to_plain)
from harness.docs import *
from harness.objects import content, same
from symx import hook
from symx.values import Sym, SymStr

ASSUMPTIONS = [
    'pickle itself passes on every string, number and date as it is '
    '(symbolic ones go through it as persistent ids)',
    'the XML library is the one of the standard library; in the -lxml '
    'harnesses a stand-in (symx/fakelxml.py) takes the place of lxml, and the '
    'paths explored are run again on lxml itself']
TESTS = os.path.join(hook.REPO, 'ndg', 'xacml', 'test')


class Pickler(pickle.Pickler):
    """Pickler that passes on symbolic values as they are."""

    def __init__(self, f, protocol, kept):
        pickle.Pickler.__init__(self, f, protocol)
        self.kept = kept

    def persistent_id(self, o):
        if type(o) is SymStr or isinstance(type(o), type) and \
                issubclass(type(o), (Sym, SymStr)):
            self.kept.append(o)
            return str(len(self.kept) - 1)
        return None


class Unpickler(pickle.Unpickler):
    def __init__(self, f, kept):
        pickle.Unpickler.__init__(self, f)
        self.kept = kept

    def persistent_load(self, pid):
        return self.kept[int(pid)]


def carry(o, how):
    """The object, having been pickled or copied."""
    if how == 'deepcopy':
        return copy.deepcopy(o)
    if how == 'copy':
        return copy.copy(o)
    f = io.BytesIO()
    kept = []
    Pickler(f, int(how[-1]), kept).dump(o)
    f.seek(0)
    return Unpickler(f, kept).load()


HOW = ['pickle-2', 'pickle-5', 'deepcopy']
ALL = ['pickle-0'] + HOW + ['copy']


# ---------------------------------------------------------------- requests
def request(ctx, busy, numbers, counts, values, types, how):
    req = plain_request(ctx, busy, numbers, counts, values, types)
    obj = request_object(req)
    before = described(obj)
    out = ctx.call(carry, obj, ctx.choice('how', how))
    ctx.check('comes-back', out.ok)
    ctx.check('the-same', says(ctx, out.value, {
        'Subject': [(c if c is not None else None, a)
                    for c, a in req['Subject']],
        **{c: req[c] for c in CATS[1:]}}) if all(
            c is not None for c, a in req['Subject']) else same(
                content(obj), content(out.value)))
    ctx.check('all-of-it', same(content(obj), content(out.value)))
    # independence
    new = out.value
    for o in new.subjects + new.resources + [new.action, new.environment]:
        for a in o.attributes:
            a.attributeId = 'changed'
            for v in a.attributeValues:
                v.value = 'changed'
            a.attributeValues.append(attr_class(STRING)('new'))
        o.attributes.append(make_attribute('x', STRING, None, []))
    ctx.check('given-one-untouched', same_description(before, described(obj)))


def parsed(ctx, how):
    """A request read from XML keeps its element (for selectors)."""
    from ndg.xacml.parsers.etree.context import RequestElementTree
    from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
    req = {c: [(None, [(ctx.str(c + 'id'), TYPES[0], None,
                        [ctx.str(c + 'v', minlen=1)])])] for c in CATS}
    node = request_node(req)
    node.one('Resource').children.append(
        E('ResourceContent', E('Any', text=ctx.str('any', minlen=1)),
          text=ctx.str('t', minlen=1)))
    if ctx.choice('spacing', ['none', 'text']) == 'text':
        node.one('Resource').children[-1].tail = ctx.str('tail', minlen=1)
    r = RequestElementTree.fromXML(to_element(node, CNS))
    engine = ctx.choice('engine', [False, True])
    if engine:
        r.attributeSelector = EtreeXPathSelector(r.elem)
    before = to_plain(r.elem)
    out = ctx.call(carry, r, ctx.choice('how', how))
    ctx.check('comes-back', out.ok)
    ctx.check('the-same', says(ctx, out.value, req))
    ctx.check('keeps-its-element', same_tree(to_plain(r.elem),
                                             to_plain(out.value.elem)))
    ctx.check('keeps-the-content', same_tree(
        to_plain(r.resources[0].resourceContent),
        to_plain(out.value.resources[0].resourceContent)))
    if engine:
        got = ctx.call(out.value.attributeSelector.selectText,
                       '//' + CNS + 'Any')
        ctx.check('keeps-its-selector', got.ok and And(
            [len(got.value) == 1] + [Eq(
                v, node.one('Resource').children[-1].children[0].text)
                for v in got.value]))
    out.value.resources[0].resourceContent.text = 'changed'
    out.value.elem[0][0].set('AttributeId', 'changed')
    ctx.check('given-one-untouched', same_tree(before, to_plain(r.elem)))


def value(ctx):
    """Attribute values of every type."""
    name = ctx.choice('type', sorted(MAKERS))
    cls = [c for c in classes() if c.__name__ == name + 'AttributeValue'][0]
    o = cls()
    given = ctx.choice('given', [True, False])
    if given:
        v = MAKERS[name](ctx)
        o.value = v
    out = ctx.call(carry, o, ctx.choice('how', ALL))
    ctx.check('comes-back', out.ok)
    n = out.value
    ctx.check('same-class', type(n) is cls)
    ctx.check('same-type', Eq(n.dataType, cls.IDENTIFIER))
    if given:
        ctx.check('same-value', And(n.value is not None, Or(
            Eq(n.value, v), And(Not(Eq(v, v)), Not(Eq(n.value, n.value))))))
        again = ctx.call(lambda: n == o)
        ctx.check('equal', again.ok and (again.value if name != 'Double'
                                         else True))
    else:
        ctx.check('no-value', n.value is None)
    ctx.check('still-typed', ctx.call(
        setattr, n, 'value', object()).raised(TypeError))


def classes():
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory
    return list(AttributeValueClassFactory.IDENTIFIER2CLASS_MAP.values())


MAKERS = dict({t: (lambda ctx: ctx.str('v')) for t in (
    'String', 'AnyURI', 'X500Name', 'Rfc822Name', 'IpAddress', 'DnsName')},
    Integer=lambda ctx: ctx.int('v', -2 ** 40, 2 ** 40),
    HexBinary=lambda ctx: ctx.int('v', 0, 2 ** 40),
    Boolean=lambda ctx: ctx.bool('v'), Double=lambda ctx: ctx.float('v'),
    Date=lambda ctx: ctx.datetime('v'), Time=lambda ctx: ctx.datetime('v'),
    DateTime=lambda ctx: ctx.datetime('v'),
    DayTimeDuration=lambda ctx: ctx.timedelta('v'),
    YearMonthDuration=lambda ctx: ctx.timedelta('v'))


# --------------------------------------------------------------- responses
def response(ctx, numbers, how):
    from ndg.xacml.core.context.response import Response
    from ndg.xacml.core.context.result import (Decision, Result, Status,
                                               StatusCode)
    from ndg.xacml.core.obligation import Obligation
    obj = Response()
    want = []
    for i in range(ctx.choice('results', numbers)):
        d = ctx.str('decision%d' % i, domain=list(DECISIONS))
        r = Result()
        r.decision = Decision(d)
        ident = status = obligation = None
        if i == 0 and ctx.choice('full', [False, True]):
            ident = ctx.str('resource')
            r.resourceId = ident
            status = (ctx.str('code', domain=list(StatusCode.CODES)),
                      ctx.str('message'), ctx.str('detail'))
            r.status = Status.createInitialised(
                code=status[0], message=status[1], detail=status[2])
            obligation = ctx.str('obligation'), ctx.str('fulfill')
            r.obligations = Obligation()
            r.obligations.obligationId = obligation[0]
            r.obligations.fulfillOn = obligation[1]
        obj.results.append(r)
        want.append((d, ident, status, obligation))
    which = ctx.choice('what', ['response', 'results'])
    how = ctx.choice('how', how)
    if which == 'response':
        out = ctx.call(carry, obj, how)
        results = out.value.results if out.ok else []
    else:
        out = ctx.call(carry, obj.results, how)
        results = out.value
    ctx.check('comes-back', out.ok and len(results) == len(want))
    conds = []
    for r, (d, ident, status, obligation) in zip(results, want):
        conds += [Eq(r.decision.value, d), Eq(r.resourceId, ident)]
        if status is None:
            conds += [r.status is None, r.obligations is None]
        else:
            conds += [Eq(r.status.statusCode.value, status[0]),
                      Eq(r.status.statusMessage, status[1]),
                      Eq(r.status.statusDetail, status[2]),
                      Eq(r.obligations.obligationId, obligation[0]),
                      Eq(r.obligations.fulfillOn, obligation[1])]
    ctx.check('the-same', And(conds))
    ctx.check('still-typed', ctx.call(
        results.append, 'Permit').raised(TypeError) and
        results.elementType is Result)
    ctx.check('can-grow', ctx.call(results.append, Result()).ok and
              len(obj.results) == len(want))


def constants(ctx):
    """Decisions and effects, and the constants, which stay read-only."""
    from ndg.xacml.core.context.result import Decision
    from ndg.xacml.core.rule import Effect
    how = ctx.choice('how', ALL)
    kind = ctx.choice('kind', ['decision', 'effect', 'constant'])
    if kind == 'constant':
        cls, name = ctx.choice('constant', [
            (Decision, 'PERMIT'), (Decision, 'DENY'), (Effect, 'PERMIT'),
            (Decision, 'INDETERMINATE'), (Decision, 'NOT_APPLICABLE'),
            (Effect, 'DENY')])
        o = getattr(cls, name)
        out = ctx.call(carry, o, how)
        ctx.check('comes-back', out.ok and type(out.value) is type(o))
        ctx.check('same-constant', Eq(out.value.value, o.value))
        ctx.check('read-only', not ctx.call(
            setattr, out.value, 'value', cls.TYPES[0]).ok)
        return
    cls = Decision if kind == 'decision' else Effect
    v = ctx.str('v', domain=list(cls.TYPES))
    o = cls(v)
    out = ctx.call(carry, o, how)
    ctx.check('comes-back', out.ok and type(out.value) is cls)
    ctx.check('the-same', Eq(out.value.value, v))
    w = ctx.str('w')
    put = ctx.call(setattr, out.value, 'value', w)
    ctx.check('only-the-vocabulary', Iff(put.ok, In(w, cls.TYPES)))
    ctx.check('given-one-untouched', Eq(o.value, v))


def lists(ctx):
    """Typed and unique lists."""
    from ndg.xacml.utils import TypedList, UniqList
    how = ctx.choice('how', HOW + ['copy'])
    n = ctx.choice('n', [0, 1, 2, 3])
    items = [ctx.str('i%d' % k) for k in range(n)]
    kind = ctx.choice('kind', ['typed', 'typed-tuple', 'unique'])
    types = str if kind == 'typed' else (str, int)
    o = UniqList(items) if kind == 'unique' else TypedList(types, items)
    was = list(o)
    out = ctx.call(carry, o, how)
    ctx.check('comes-back', out.ok and type(out.value) is type(o))
    new = out.value
    ctx.check('the-same', len(new) == len(was) and And(
        [Eq(x, y) for x, y in zip(new, was)]))
    if kind == 'unique':
        x = ctx.str('x')
        ctx.call(new.append, x)
        ctx.check('still-unique', Eq(len(new), If(
            Or([Eq(x, y) for y in was]), len(was), len(was) + 1)))
    else:
        ctx.check('still-typed', new.elementType == types and ctx.call(
            new.append, 1.5).raised(TypeError))
        ctx.check('can-grow', ctx.call(new.append, 'x').ok)
    ctx.check('given-one-untouched', len(o) == len(was) and all(
        x is y for x, y in zip(o, was)))


# ---------------------------------------------------------------- policies
POLICIES = {
    'firstapplicable.xml': {'Subject': (0, 1)},
    'subjectmatch.xml': {'Subject': (0, 2)},
    'functions/policy_not.xml': {'Subject': (0, 2)},
    'policy_set_nested_only.xml': {'Subject': (0, 1)}}


def policy(ctx, paths):
    """A policy's deep copy decides as its document reads, and has all the
    content; a policy that is pickled has, too, or is refused."""
    from ndg.xacml.core.context.pdp import PDP
    path = ctx.choice('policy', paths)
    how = ctx.choice('how', HOW)
    node = from_file(os.path.join(TESTS, path))
    limits = POLICIES[path]
    p = pdp_of(node).policy
    out = ctx.call(carry, p, how)
    ctx.observe('outcome', out.exc_name)
    if how == 'deepcopy':
        ctx.check('comes-back', out.ok)
    if not out.ok:
        ctx.reach('refused')
        return
    ctx.check('all-of-it', same(content(p), content(out.value)))
    found = {}
    for i, (cat, ident, dtype) in enumerate(designators(node)):
        lo, hi = limits.get(cat, (1, 1))
        n = ctx.choice('n%d' % i, range(lo, hi + 1))
        found.setdefault(cat, [[]])[0].append((ident, dtype, None, [
            ctx.str('v%d-%d' % (i, k)) for k in range(n)]))
    req = Req(found)
    pdp = PDP(out.value)
    res = ctx.call(pdp.evaluate, req.build())
    d = single_result_decision(res)
    ctx.check('decides', d is not None)
    ctx.check('as-the-document-reads', Eq(d, ref_policy(
        node, req, index(node))))


def parts(ctx):
    """Parts of a policy without functions, through pickle, too."""
    from ndg.xacml.core import rule as rm
    r = rm.Rule()
    r.id = ctx.str('rule')
    r.effect = rm.Effect(ctx.str('effect', domain=[PERMIT, DENY]))
    r.description = ctx.str('description')
    out = ctx.call(carry, r, ctx.choice('how', HOW))
    ctx.check('comes-back', out.ok)
    ctx.check('the-same', And(Eq(out.value.id, r.id), Eq(
        out.value.effect.value, r.effect.value), Eq(
            out.value.description, r.description), out.value.target is None,
        out.value.condition is None))
    ctx.check('all-of-it', same(content(r), content(out.value)))


def warm_up():
    import ndg.xacml.parsers.etree.context              # noqa
    import ndg.xacml.core.context.response              # noqa
    import ndg.xacml.core.rule                          # noqa
    load_readers()


HARNESSES = [
    Harness('request', request, 'one of 4 categories with 0..2 attributes '
            'of 1..2 values (subjects and resources: 0..2 of them), the '
            'others with one; any texts; pickle protocols 2 and 5, deepcopy',
            params=dict(busy=CATS, numbers=[0, 1, 2], counts=[0, 2],
                        values=[1, 2], types=TYPES[:1], how=HOW),
            must_reach=('the-same', 'all-of-it', 'given-one-untouched')),
    Harness('parsed', parsed, 'a request read from XML, one attribute per '
            'category, with content of the resource; any texts',
            params=dict(how=HOW), must_reach=('keeps-its-element',
                                               'keeps-its-selector',
                                               'given-one-untouched')),
    Harness('value', value, 'the 15 types, any value and none; pickle '
            'protocols 0, 2 and 5, copy and deepcopy',
            must_reach=('same-value', 'no-value', 'still-typed')),
    Harness('response', response, '0..2 results, one with status, resource '
            'and obligation of any texts', params=dict(
                numbers=[0, 1, 2], how=HOW),
            must_reach=('the-same', 'can-grow')),
    Harness('constants', constants, 'any decision and effect, the 6 '
            'constants', must_reach=('read-only', 'only-the-vocabulary')),
    Harness('lists', lists, '0..3 arbitrary strings',
            must_reach=('still-typed', 'still-unique')),
    Harness('policy', policy, '2 documents, any request values',
            params=dict(paths=['firstapplicable.xml', 'subjectmatch.xml']),
            must_reach=('as-the-document-reads', 'all-of-it')),
    Harness('policies', policy, '4 documents, any request values',
            params=dict(paths=sorted(POLICIES)), thorough_only=True,
            must_reach=('as-the-document-reads', 'all-of-it')),
    Harness('rule', parts, 'a rule of any identifier, effect and description',
            must_reach=('the-same', 'all-of-it')),
]
HARNESSES += [under_lxml(h) for h in HARNESSES if h.name in (
    'request', 'parsed', 'response', 'policy')]
