"""C13 concatenation."""
from harness.funcs import *

ASSUMPTIONS = []
FNS = [('string-concatenate', 'string'), ('url-string-concatenate', 'anyURI')]


def concat(ctx, nmax, maxlen):
    name, t = ctx.choice('function', FNS)
    n = ctx.choice('n', range(nmax + 1))
    texts = [ctx.str('t%d' % i, maxlen=maxlen) for i in range(n)]
    vals = [attr_class(TYPE_OF[t] if i == 0 else STRING)(x)
            for i, x in enumerate(texts)]
    f = function(FN2 + name)
    out = ctx.call(f.evaluate, *vals)
    ctx.observe('text', out.value.value if out.ok else out.exc_name)
    if n < 2:
        ctx.check('too-few-is-an-error', not out.ok)
        return
    ctx.check('no-error', out.ok)
    if not out.ok:
        return
    ctx.check('type', type(out.value) is attr_class(TYPE_OF[t]) and
              Eq(out.value.dataType, TYPE_OF[t]))
    ctx.check('joined-in-order', Eq(out.value.value, Concat(*texts)))
    ctx.check('arguments-unchanged', And([Eq(v.value, x) for v, x in
                                          zip(vals, texts)]))
    ctx.check('fresh-value', all(out.value is not v for v in vals))
    again = ctx.call(f.evaluate, *vals)
    ctx.check('repeatable', again.ok and Eq(again.value.value,
                                            Concat(*texts)))


def long_concat(ctx, ns):
    """Many arguments: any one arbitrary, the others different texts."""
    name, t = ctx.choice('function', FNS)
    n, (at,) = sparse(ctx, ns, 1)
    x = ctx.str('x')
    texts = [x if i == at else '%d,' % i for i in range(n)]
    vals = [attr_class(TYPE_OF[t] if i == 0 else STRING)(s)
            for i, s in enumerate(texts)]
    out = ctx.call(function(FN2 + name).evaluate, *vals)
    ctx.check('joined-in-order', out.ok and
              Eq(out.value.value, Concat(*texts)))


def foreign(ctx):
    name, t = ctx.choice('function', FNS)
    n = ctx.choice('n', [2, 3])
    where = ctx.choice('where', range(3))
    ctx.assume(where < n)
    kind = ctx.choice('kind', TYPES + NATIVE)
    want = TYPE_OF[t] if where == 0 else STRING
    if kind in TYPE_OF and TYPE_OF[kind] == want:
        ctx.assume(False)
    vals = [attr_class(TYPE_OF[t] if i == 0 else STRING)('x')
            for i in range(n)]
    vals[where] = argument(ctx, 'bad', kind)
    out = ctx.call(function(FN2 + name).evaluate, *vals)
    ctx.observe('ok', out.ok)
    ctx.check('foreign-argument-is-an-error', not out.ok)


warm_up = load_all

HARNESSES = [
    Harness('concatenate', concat, '0..4 texts up to 4',
            params=dict(nmax=4, maxlen=4),
            must_reach=('joined-in-order', 'too-few-is-an-error')),
    Harness('foreign', foreign, '2..3 arguments, 23 other kinds at any '
            'position', must_reach=('foreign-argument-is-an-error',)),
    Harness('long', long_concat, '5, 8, 17 or 33 texts, any one of them '
            'arbitrary and of any length', params=dict(ns=(5, 8, 17, 33)),
            must_reach=('joined-in-order',)),
    Harness('concatenate-deep', concat, '0..8 texts up to 10',
            params=dict(nmax=8, maxlen=10), must_reach=('joined-in-order',),
            thorough_only=True),
]
