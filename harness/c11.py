"""C11 the and / not functions."""
from harness.funcs import *

ASSUMPTIONS = []
KINDS = ['boolean-value', 'string', 'none', 'str', 'int', 'float', 'list',
         'bag']


def arg(ctx, tag, kind):
    if kind == 'bool':
        return ctx.bool(tag)
    if kind == 'boolean-value':
        return attr_class(BOOLEAN)(ctx.bool(tag))
    if kind == 'string':
        return attr_class(STRING)(ctx.str(tag, maxlen=5))
    return argument(ctx, tag, kind)


def conj(ctx, nmax):
    n = ctx.choice('n', range(nmax + 1))
    vals = [ctx.bool('a%d' % i) for i in range(n)]
    f = function(FN1 + 'and')
    out = ctx.call(f.evaluate, *vals)
    ctx.observe('and', out.value if out.ok else out.exc_name)
    ctx.check('no-error', out.ok)
    ctx.check('conjunction', out.ok and IsBool(out.value) and
              Iff(out.value, And(vals)))
    again = ctx.call(f.evaluate, *reversed(vals))
    ctx.check('order-irrelevant', again.ok and Iff(again.value, And(vals)))


def conj_long(ctx, ns):
    """Long conjunctions: any one argument is arbitrary."""
    n, (at,) = sparse(ctx, ns, 1)
    v = ctx.bool('v')
    w = ctx.bool('w')
    kind = ctx.choice('kind', ['bool'] + KINDS)
    x = v if kind == 'bool' else arg(ctx, 'x', kind)
    vals = [x if i == at else True for i in range(n)]
    out = ctx.call(function(FN1 + 'and').evaluate, *vals)
    ctx.observe('and', out.value if out.ok else out.exc_name)
    if kind == 'bool':
        ctx.check('conjunction', out.ok and IsBool(out.value) and
                  Iff(out.value, v))
    elif kind == 'boolean-value':
        ctx.check('wrapped', IsBool(out.value) and Iff(out.value, x.value)
                  if out.ok else True)
    else:
        ctx.check('foreign-argument-is-an-error', not out.ok)
    # and in front of or behind something false
    if kind == 'bool' and at + 1 < n:
        vals[at + 1] = w
        out = ctx.call(function(FN1 + 'and').evaluate, *vals)
        ctx.check('conjunction', out.ok and IsBool(out.value) and
                  Iff(out.value, And(v, w)))


def conj_foreign(ctx, nmax):
    """Some arguments are not booleans."""
    n = ctx.choice('n', range(1, nmax + 1))
    where = ctx.choice('where', range(nmax))
    ctx.assume(where < n)
    second = ctx.choice('second', [False, True])
    vals, good, bad = [], [], []
    for i in range(n):
        if i == where or (second and i == where + 1):
            k = ctx.choice('kind%d' % i, KINDS)
            v = arg(ctx, 'a%d' % i, k)
            # a wrapped boolean may be read as the boolean it is
            (good if k == 'boolean-value' else bad).append(v)
        else:
            v = ctx.bool('a%d' % i)
            good.append(v)
        vals.append(v)
    out = ctx.call(function(FN1 + 'and').evaluate, *vals)
    ctx.observe('and', out.value if out.ok else out.exc_name)
    known = And([g if IsBool(g) else g.value for g in good])
    if not out.ok:
        ctx.reach('foreign-argument-is-an-error')
        return
    ctx.check('never-by-truthiness', IsBool(out.value) and (
        And(Not(out.value), Not(known)) if bad else Iff(out.value, known)))


def neg(ctx):
    v = ctx.bool('v')
    f = function(FN1 + 'not')
    out = ctx.call(f.evaluate, v)
    ctx.observe('not', out.value if out.ok else out.exc_name)
    ctx.check('negation', out.ok and IsBool(out.value) and
              Iff(out.value, Not(v)))
    back = ctx.call(f.evaluate, out.value)
    ctx.check('involution', back.ok and Iff(back.value, v))


def neg_foreign(ctx):
    kind = ctx.choice('kind', KINDS)
    v = arg(ctx, 'v', kind)
    out = ctx.call(function(FN1 + 'not').evaluate, v)
    ctx.observe('ok', out.ok)
    if kind == 'boolean-value':
        ctx.check('wrapped-boolean', Or(not out.ok,
                                        Iff(out.value, Not(v.value)))
                  if out.ok else True)
    else:
        ctx.check('foreign-argument-is-an-error', not out.ok)


def neg_arity(ctx):
    n = ctx.choice('n', [0, 2, 3])
    vals = [ctx.bool('v%d' % i) for i in range(n)]
    out = ctx.call(function(FN1 + 'not').evaluate, *vals)
    ctx.observe('ok', out.ok)
    ctx.check('wrong-number-of-arguments-is-an-error', not out.ok)


def composed(ctx):
    """not / and composed in a condition, over conditions of matches."""
    from ndg.xacml.core.apply import Apply
    from ndg.xacml.core.condition import Condition
    from ndg.xacml.core.context.request import Request
    S = attr_class(STRING)

    def apply(ident, *exprs):
        a = Apply()
        a.functionId = FN1 + ident
        for e in exprs:
            a.expressions.append(e)
        return a
    x, y, z = (ctx.str(n, maxlen=3) for n in 'xyz')
    e1 = apply('string-equal', S(x), S(y))
    e2 = apply('string-equal', S(y), S(z))
    shape = ctx.choice('shape', ['and', 'nand', 'and-not', 'not-not', 'nor'])
    a, b_ = Eq(x, y), Eq(y, z)
    expr, ref = {
        'and': (apply('and', e1, e2), And(a, b_)),
        'nand': (apply('not', apply('and', e1, e2)), Not(And(a, b_))),
        'and-not': (apply('and', e1, apply('not', e2)), And(a, Not(b_))),
        'not-not': (apply('not', apply('not', e1)), a),
        'nor': (apply('and', apply('not', e1), apply('not', e2)),
                And(Not(a), Not(b_))),
    }[shape]
    c = Condition()
    c.expression = expr
    out = ctx.call(c.evaluate, Request())
    ctx.observe('value', out.value if out.ok else out.exc_name)
    ctx.check('composed', out.ok and Iff(out.value, ref))


warm_up = load_all

HARNESSES = [
    Harness('and', conj, '0..5 booleans', params=dict(nmax=5),
            must_reach=('conjunction', 'order-irrelevant')),
    Harness('and-foreign', conj_foreign, '1..3 arguments, one or two of 8 '
            'other kinds at any position', params=dict(nmax=3),
            must_reach=('foreign-argument-is-an-error',)),
    Harness('and-long', conj_long, '7, 12 or 33 arguments, any one arbitrary '
            'or of 8 other kinds', params=dict(ns=(7, 12, 33)),
            must_reach=('conjunction', 'foreign-argument-is-an-error')),
    Harness('not', neg, 'one boolean', must_reach=('negation',)),
    Harness('not-foreign', neg_foreign, '8 other kinds',
            must_reach=('foreign-argument-is-an-error',)),
    Harness('not-arity', neg_arity, '0, 2, 3 arguments',
            must_reach=('wrong-number-of-arguments-is-an-error',)),
    Harness('composed', composed, '5 compositions over string equalities, '
            'strings up to 3', must_reach=('composed',)),
    Harness('and-deep', conj, '0..10 booleans', params=dict(nmax=10),
            must_reach=('conjunction',), thorough_only=True),
]
