"""C12 bag functions."""
from harness.funcs import *

ASSUMPTIONS = []


def content(ctx, tag, t):
    """Arbitrary content from a small space, so that coincidences occur."""
    if t in STRINGS:
        return ctx.str(tag, maxlen=2)
    if t in ('integer', 'hexBinary'):
        return ctx.int(tag, -2, 2)
    return native(ctx, tag, t)


def make_bag(ctx, tag, t, n):
    from ndg.xacml.utils import TypedList
    C = attr_class(TYPE_OF[t])
    bag = TypedList(C)
    for i in range(n):
        bag.append(C(content(ctx, '%s%d' % (tag, i), t)))
    return bag


def one_and_only(ctx, nmax):
    t = ctx.choice('type', BAG_TYPES)
    n = ctx.choice('n', range(nmax + 1))
    bag = make_bag(ctx, 'v', t, n)
    vals = list(bag)
    out = ctx.call(function(FN1 + t + '-one-and-only').evaluate, bag)
    ctx.observe('ok', out.ok)
    if n == 1:
        ctx.check('the-one-value', out.ok and same_value(out.value, vals[0]))
    else:
        ctx.check('not-one-is-an-error', not out.ok)
    ctx.check('bag-unchanged', len(bag) == n and
              all(x is y for x, y in zip(bag, vals)))


def one_and_only_foreign(ctx):
    from ndg.xacml.utils import TypedList
    t = ctx.choice('type', BAG_TYPES)
    kind = ctx.choice('kind', ['other-bag', 'list', 'tuple', 'value', 'none',
                               'str', 'no-argument', 'two'])
    f = function(FN1 + t + '-one-and-only')
    if kind == 'other-bag':
        u = ctx.choice('other', TYPES)
        ctx.assume(TYPE_OF[u] != TYPE_OF[t])
        bag = TypedList(attr_class(TYPE_OF[u]))
        bag.append(plain_value(u))
        args = (bag,)
    else:
        v = plain_value(t)
        good = TypedList(attr_class(TYPE_OF[t]))
        good.append(v)
        args = {'list': ([v],), 'tuple': ((v,),), 'value': (v,),
                'none': (None,), 'str': ('x',), 'no-argument': (),
                'two': (good, good)}[kind]
    out = ctx.call(f.evaluate, *args)
    ctx.observe('ok', out.ok)
    ctx.check('foreign-argument-is-an-error', not out.ok)


def make(ctx, nmax):
    from ndg.xacml.utils import TypedList
    t = ctx.choice('type', BAG_TYPES)
    n = ctx.choice('n', range(nmax + 1))
    vals = list(make_bag(ctx, 'v', t, n))
    f = function(FN1 + t + '-bag')
    out = ctx.call(f.evaluate, *vals)
    ctx.observe('ok', out.ok)
    ctx.check('bag-of-the-arguments', out.ok and
              isinstance(out.value, TypedList) and
              out.value.elementType is attr_class(TYPE_OF[t]) and
              same_bag(out.value, vals))
    # the next bag does not share anything with this one
    again = ctx.call(f.evaluate, *vals[:1])
    ctx.check('fresh-bag', again.ok and out.ok and
              again.value is not out.value and
              same_bag(again.value, vals[:1]) and
              same_bag(out.value, vals))


def make_foreign(ctx):
    t = ctx.choice('type', BAG_TYPES)
    kind = ctx.choice('kind', TYPES + NATIVE)
    if kind in TYPE_OF and TYPE_OF[kind] == TYPE_OF[t]:
        ctx.assume(False)
    before = ctx.choice('before', range(3))
    bad = argument(ctx, 'bad', kind)
    args = [plain_value(t)] * before + [bad]
    if ctx.choice('after', [False, True]):
        args.append(plain_value(t))
    out = ctx.call(function(FN1 + t + '-bag').evaluate, *args)
    ctx.observe('ok', out.ok)
    ctx.check('foreign-argument-is-an-error', not out.ok)


def member(ctx, nmax, types):
    t = ctx.choice('type', types)
    n = ctx.choice('n', range(nmax + 1))
    m = ctx.choice('m', range(nmax + 1))
    b1, b2 = make_bag(ctx, 'x', t, n), make_bag(ctx, 'y', t, m)
    v1, v2 = list(b1), list(b2)
    out = ctx.call(function(FN1 + t + '-at-least-one-member-of').evaluate,
                   b1, b2)
    ctx.observe('member', out.value if out.ok else out.exc_name)
    ref = Or([Eq(x.value, y.value) for x in v1 for y in v2])
    ctx.check('common-member', out.ok and IsBool(out.value) and
              Iff(out.value, ref))
    ctx.check('bags-unchanged', len(b1) == n and len(b2) == m and
              all(x is y for x, y in zip(b1, v1)) and
              all(x is y for x, y in zip(b2, v2)))


def member_foreign(ctx):
    from ndg.xacml.utils import TypedList
    t = ctx.choice('type', BAG_TYPES)
    good = TypedList(attr_class(TYPE_OF[t]))
    good.append(plain_value(t))
    kind = ctx.choice('kind', ['other-bag', 'list', 'value', 'none', 'str',
                               'empty-other'])
    if kind in ('other-bag', 'empty-other'):
        u = ctx.choice('other', TYPES)
        ctx.assume(TYPE_OF[u] != TYPE_OF[t])
        bad = TypedList(attr_class(TYPE_OF[u]))
        if kind == 'other-bag':
            bad.append(plain_value(u))
    else:
        bad = {'list': [plain_value(t)], 'value': plain_value(t),
               'none': None, 'str': 'x'}[kind]
    where = ctx.choice('where', ['first', 'second'])
    args = (bad, good) if where == 'first' else (good, bad)
    out = ctx.call(function(FN1 + t + '-at-least-one-member-of').evaluate,
                   *args)
    ctx.observe('ok', out.ok)
    ctx.check('foreign-argument-is-an-error', not out.ok)


def long_bags(ctx, ns):
    """Long bags, of which any one element is arbitrary."""
    from ndg.xacml.utils import TypedList
    t = ctx.choice('type', ['string', 'integer', 'anyURI', 'boolean'])
    n, (at,) = sparse(ctx, ns, 1)
    C = attr_class(TYPE_OF[t])
    filler = {'string': 'other', 'anyURI': 'urn:other', 'integer': 99,
              'boolean': False}[t]
    x, y = content(ctx, 'x', t), content(ctx, 'y', t)
    big = TypedList(C, [C(x if i == at else filler) for i in range(n)])
    one = TypedList(C, [C(y)])
    vals = list(big)
    f = function(FN1 + t + '-at-least-one-member-of')
    for a, b_ in ((big, one), (one, big)):
        out = ctx.call(f.evaluate, a, b_)
        ctx.check('common-member', out.ok and IsBool(out.value) and
                  Iff(out.value, Or(Eq(x, y), Eq(filler, y))))
    out = ctx.call(function(FN1 + t + '-one-and-only').evaluate, big)
    ctx.check('not-one-is-an-error', not out.ok)
    out = ctx.call(function(FN1 + t + '-bag').evaluate, *vals)
    ctx.check('bag-of-the-arguments', out.ok and same_bag(out.value, vals))


warm_up = load_all
NOFLOAT = [t for t in BAG_TYPES if t != 'double']

HARNESSES = [
    Harness('one-and-only', one_and_only, '13 types, bags of 0..3',
            params=dict(nmax=3), must_reach=(
                'the-one-value', 'not-one-is-an-error', 'bag-unchanged')),
    Harness('one-and-only-foreign', one_and_only_foreign, '7 other kinds of '
            'argument and bags of every other type',
            must_reach=('foreign-argument-is-an-error',)),
    Harness('bag', make, '13 types, 0..3 arguments', params=dict(nmax=3),
            must_reach=('bag-of-the-arguments', 'fresh-bag')),
    Harness('bag-foreign', make_foreign, '23 other kinds of argument at '
            'positions 1..3', must_reach=('foreign-argument-is-an-error',)),
    Harness('member', member, '12 types, bags of 0..2; strings up to 2, '
            'integers -2..2', params=dict(nmax=2, types=NOFLOAT),
            must_reach=('common-member',)),
    Harness('member-double', member, 'doubles, bags of 0..2',
            params=dict(nmax=2, types=['double']),
            must_reach=('common-member',)),
    Harness('member-foreign', member_foreign, 'other kinds of argument and '
            'bags of every other type',
            must_reach=('foreign-argument-is-an-error',)),
    Harness('long', long_bags, 'bags of 5, 9, 17 and 40 of which any one '
            'element is arbitrary; 4 types', params=dict(ns=(5, 9, 17, 40)),
            must_reach=('common-member', 'not-one-is-an-error',
                        'bag-of-the-arguments')),
    Harness('member-deep', member, 'strings, URIs and integers, bags of 0..3',
            params=dict(nmax=3, types=['string', 'anyURI', 'integer']),
            must_reach=('common-member',), thorough_only=True),
    Harness('one-and-only-deep', one_and_only, 'bags of 0..6',
            params=dict(nmax=6), must_reach=('the-one-value',),
            thorough_only=True),
]
