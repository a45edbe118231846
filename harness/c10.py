"""C10 equality, match and regular-expression functions."""
from harness.funcs import *

ASSUMPTIONS = [
    'regular expressions are concrete (a choice of patterns), the values '
    'matched against them symbolic; the translation of a pattern is checked '
    'against the re module on every run through the path models',
    'dates and times are naive (no zone)',
]
PATTERNS = ['', 'a', 'a.c', '^/x/', 'b+$', '[ab]{2}', 'A|B', '.*z', 'x*',
            '^$', '(ab)+', 'a\\.c', '[^a]b', 'a+', '[0-9]+', '[a-z]+@', '^urn:',
            '(a|b)*c', '\\d\\d', 'a?b']
EQUALS = [(FN1 + t + '-equal', t) for t in EQUAL_TYPES] + \
    [(FN1 + t + '-match', t) for t in MATCH_TYPES]
REGEXPS = [(ns + t + '-regexp-match', t) for ns, t in REGEXP]


def equal(ctx):
    ident, t = ctx.choice('function', EQUALS)
    f = function(ident)
    x, y = value(ctx, 'x', t), value(ctx, 'y', t)
    rx, ry = x.value, y.value
    out = ctx.call(f.evaluate, x, y)
    ctx.observe('equal', out.value if out.ok else out.exc_name)
    ctx.check('no-error', out.ok)
    if not out.ok:
        return
    ctx.check('boolean', IsBool(out.value))
    ctx.check('equal-content', Iff(b(out.value), Eq(rx, ry)))
    ctx.check('arguments-unchanged', x.value is rx and y.value is ry)
    # the same function object, arguments swapped, and a fresh one
    back = ctx.call(f.evaluate, y, x)
    ctx.check('symmetric', back.ok and Iff(b(back.value), Eq(rx, ry)))
    same = ctx.call(function(ident).evaluate, x, x)
    ctx.check('reflexive', same.ok and Iff(b(same.value), Eq(rx, rx)))


def long_strings(ctx):
    """Longer texts: prefixes, suffixes and case matter."""
    ident, t = ctx.choice('function', [e for e in EQUALS if e[1] in STRINGS])
    f = function(ident)
    x, y = value(ctx, 'x', t, None), value(ctx, 'y', t, None)
    out = ctx.call(f.evaluate, x, y)
    ctx.observe('equal', out.value if out.ok else out.exc_name)
    ctx.check('equal-content', out.ok and Iff(b(out.value),
                                              Eq(x.value, y.value)))


def attribute_equality(ctx):
    """Comparing attribute values themselves."""
    t = ctx.choice('type', TYPES)
    u = ctx.choice('other', TYPES)
    x = value(ctx, 'x', t)
    y = value(ctx, 'y', u) if u == t else plain_value(u)
    out = ctx.call(lambda: x == y)
    ctx.observe('equal', out.value if out.ok else out.exc_name)
    if t == u:
        ctx.check('equal-content', out.ok and Iff(b(out.value),
                                                  Eq(x.value, y.value)))
    else:
        ctx.check('typed', Or(not out.ok, Not(b(out.value)))
                  if out.ok else True)


def foreign(ctx):
    """An argument of another type is an error."""
    ident, t = ctx.choice('function', EQUALS + REGEXPS)
    kind = ctx.choice('kind', TYPES + NATIVE)
    where = ctx.choice('where', ['first', 'second', 'both'])
    if kind in TYPE_OF and TYPE_OF[kind] == TYPE_OF[t]:
        ctx.assume(False)
    good = plain_value(t)
    bad = argument(ctx, 'bad', kind)
    args = {'first': (bad, good), 'second': (good, bad),
            'both': (bad, bad)}[where]
    out = ctx.call(function(ident).evaluate, *args)
    ctx.observe('ok', out.ok)
    ctx.check('foreign-argument-is-an-error', not out.ok)


def arity(ctx):
    ident, t = ctx.choice('function', EQUALS + REGEXPS)
    n = ctx.choice('n', [0, 1, 3])
    out = ctx.call(function(ident).evaluate, *[plain_value(t)] * n)
    ctx.observe('ok', out.ok)
    ctx.check('wrong-number-of-arguments-is-an-error', not out.ok)


def regexp(ctx, maxlen):
    ident, t = ctx.choice('function', REGEXPS)
    pat = ctx.choice('pattern', PATTERNS)
    C = attr_class(TYPE_OF[t])
    v = ctx.str('value', maxlen=maxlen)
    out = ctx.call(function(ident).evaluate, C(pat), C(v))
    ctx.observe('match', out.value if out.ok else out.exc_name)
    ctx.check('no-error', out.ok)
    if out.ok:
        ctx.check('boolean', IsBool(out.value))
        ctx.check('matches-at-start', Iff(b(out.value),
                                          ReMatch('match', pat, v)))


def bad_pattern(ctx):
    ident, t = ctx.choice('function', REGEXPS)
    pat = ctx.choice('pattern', ['(', '[a', '*', 'a{2', '\\'])
    C = attr_class(TYPE_OF[t])
    v = C(ctx.str('value', maxlen=3))
    f = function(ident)
    for i in range(2):
        out = ctx.call(f.evaluate, C(pat), v)
        if pat == 'a{2':        # a literal for Python
            ctx.reach('literal')
            continue
        ctx.observe('ok%d' % i, out.ok)
        ctx.check('bad-pattern-is-an-error', not out.ok)


def history(ctx, n, pats, fns):
    """A sequence of evaluations, of several functions and patterns."""
    pick = [REGEXPS[i] for i in fns]
    objs = {}
    for i in range(n):
        ident, t = ctx.choice('function%d' % i, pick)
        pat = ctx.choice('pattern%d' % i, pats)
        C = attr_class(TYPE_OF[t])
        v = ctx.str('value%d' % i, maxlen=3)
        f = objs.setdefault(ident, function(ident))
        out = ctx.call(f.evaluate, C(pat), C(v))
        ctx.observe('match%d' % i, out.value if out.ok else out.exc_name)
        ctx.check('independent-of-history', out.ok and Iff(
            b(out.value), ReMatch('match', pat, v)))


#: patterns that are close to one another in one way or another
CLOSE = ['a+', 'A+', 'a+ ', ' a+', 'a+\n', '^a+', 'a+$', 'aa+', 'a*', 'a',
         '', '(?i)a+', 'a.', 'a' * 40 + 'b', 'a' * 40 + 'c', 'a+b+', 'b+a+']


def pattern_pairs(ctx):
    """Two patterns one after the other, then the first again."""
    ident, t = ctx.choice('function', [REGEXPS[0], REGEXPS[2]])
    p = ctx.choice('pattern1', CLOSE)
    q = ctx.choice('pattern2', CLOSE)
    f = function(ident)
    C = attr_class(TYPE_OF[t])
    for i, pat in enumerate([p, q, p]):
        v = ctx.str('value%d' % i, maxlen=3 if len(pat) < 10 else None)
        out = ctx.call(f.evaluate, C(pat), C(v))
        ctx.check('independent-of-history', out.ok and Iff(
            b(out.value), ReMatch('match', pat, v)))


def many_patterns(ctx, ns):
    """Many patterns, and then any of them again."""
    ident, t = ctx.choice('function', [REGEXPS[i] for i in (0, 1, 2, 5)])
    n = ctx.choice('n', ns)
    near = ctx.choice('near', [True, False])
    f = function(ident)
    C = attr_class(TYPE_OF[t])

    def pat(i):
        return '%dv$' % i if near else 'v%d' % i
    for i in range(n):
        f.evaluate(C(pat(i)), C('%dv' % i))
    for at in (0, n // 2, n - 1):
        v = ctx.str('value%d' % at, maxlen=5)
        out = ctx.call(f.evaluate, C(pat(at)), C(v))
        ctx.observe('match%d' % at, out.value if out.ok else out.exc_name)
        ctx.check('independent-of-history', out.ok and Iff(
            b(out.value), ReMatch('match', pat(at), v)))


def equal_history(ctx, n):
    """Equality functions keep nothing between evaluations."""
    fns = [EQUALS[i] for i in (0, 2, 9, 14)]
    objs = {}
    vals = {}
    for i in range(n):
        ident, t = ctx.choice('function%d' % i, fns)
        x, y = value(ctx, 'x%d' % i, t, 3), value(ctx, 'y%d' % i, t, 3)
        f = objs.setdefault(ident, function(ident))
        out = ctx.call(f.evaluate, x, y)
        ctx.observe('equal%d' % i, out.value if out.ok else out.exc_name)
        ctx.check('independent-of-history', out.ok and Iff(
            b(out.value), Eq(x.value, y.value)))


warm_up = load_all

HARNESSES = [
    Harness('equal', equal, '14 equality and 3 match functions; strings up '
            'to 6, integers within 10^30, all doubles, dates and durations '
            'within 10^15 microseconds',
            must_reach=('equal-content', 'symmetric', 'reflexive')),
    Harness('long-strings', long_strings, 'strings of any length',
            must_reach=('equal-content',)),
    Harness('attribute-equality', attribute_equality, 'every pair of the 15 '
            'data types', must_reach=('equal-content', 'typed')),
    Harness('foreign', foreign, '23 functions, 15 data types and 8 other '
            'kinds of argument, in each position',
            must_reach=('foreign-argument-is-an-error',)),
    Harness('arity', arity, '0, 1 or 3 arguments',
            must_reach=('wrong-number-of-arguments-is-an-error',)),
    Harness('regexp', regexp, '6 functions, 20 patterns, strings up to 6',
            params=dict(maxlen=6), must_reach=('matches-at-start',)),
    Harness('bad-pattern', bad_pattern, '4 patterns, strings up to 3',
            must_reach=('bad-pattern-is-an-error',)),
    Harness('history', history, '3 evaluations over 2 functions and 3 '
            'patterns, strings up to 3',
            params=dict(n=3, pats=['a+', 'A+', 'b+$'], fns=(0, 1)),
            must_reach=('independent-of-history',)),
    Harness('pattern-pairs', pattern_pairs, '3 evaluations, every pair of 17 '
            'patterns that differ in blanks, case, anchors, order or their '
            'last character, values up to 3 characters or of any length',
            must_reach=('independent-of-history',)),
    Harness('many-patterns', many_patterns, '12, 70 or 300 patterns, then 3 '
            'of them again with any value', params=dict(ns=(12, 70, 300)),
            must_reach=('independent-of-history',)),
    Harness('equal-history', equal_history, '3 evaluations over 4 functions',
            params=dict(n=3), must_reach=('independent-of-history',)),
    Harness('history-deep', history, '4 evaluations over 3 functions and 4 '
            'patterns', params=dict(n=4, pats=['a+', 'A+', 'b+$', 'a'],
                                    fns=(0, 1, 3)),
            must_reach=('independent-of-history',), thorough_only=True),
    Harness('regexp-deep', regexp, 'as regexp, strings up to 20',
            params=dict(maxlen=20), must_reach=('matches-at-start',),
            thorough_only=True),
]
