"""C05 target matching."""
from harness.common import *

ASSUMPTIONS = [
    'a match evaluates to a boolean or raises (C06)',
]
SECTIONS = ('subjects', 'resources', 'actions', 'environments')


def child_class(section):
    from ndg.xacml.core.subject import Subject
    from ndg.xacml.core.resource import Resource
    from ndg.xacml.core.action import Action
    from ndg.xacml.core.environment import Environment
    return {'subjects': Subject, 'resources': Resource, 'actions': Action,
            'environments': Environment}[section]


def make_match(section, fn):
    from ndg.xacml.core.match import (SubjectMatch, ResourceMatch, ActionMatch,
                                      EnvironmentMatch)
    base = {'subjects': SubjectMatch, 'resources': ResourceMatch,
            'actions': ActionMatch, 'environments': EnvironmentMatch}[section]

    class StubMatch(base):
        def evaluate(self, context):
            return fn(context)
    return StubMatch()


def truth(x):
    return x is True or x is False or IsBool(x)


def populate(ctx, target, section, nch, nma, errors, seen):
    """Fill a section; returns (formula with failed matches False, with failed
    matches True, any error)."""
    lo, hi, anyerr = [], [], False
    n = ctx.choice('n_' + section, range(nch[0], nch[1] + 1))
    for i in range(n):
        child = child_class(section)()
        clo, chi = [], []
        m = ctx.choice('m_%s%d' % (section, i), range(nma[0], nma[1] + 1))
        for j in range(m):
            tag = '%s%d_%d' % (section, i, j)
            v = ctx.bool(tag)
            e = ctx.bool('err_' + tag) if errors else False

            def fn(context, v=v, e=e):
                seen.append(context)
                if e:
                    raise StubError()
                return v
            child.matches.append(make_match(section, fn))
            clo.append(And(v, Not(e)))
            chi.append(Or(v, e))
            anyerr = Or(anyerr, e)
        getattr(target, section).append(child)
        lo.append(And(clo))
        hi.append(And(chi))
    if n == 0:
        return True, True, False
    return Or(lo), Or(hi), anyerr


def run(ctx, sections, nch, nma, errors=False):
    from ndg.xacml.core.target import Target
    from ndg.xacml.core.context.request import Request
    target = Target()
    request = Request()
    seen = []
    if sections == 'one':
        sections = (ctx.choice('section', SECTIONS),)
    lo = hi = True
    anyerr = False
    for s in sections:
        a, b_, e = populate(ctx, target, s, nch, nma, errors, seen)
        lo, hi, anyerr = And(lo, a), And(hi, b_), Or(anyerr, e)
    out = ctx.call(target.match, request)
    ctx.observe('match', out.value if out.ok else out.exc_name)
    if not errors:
        ctx.check('no-error', out.ok)
        ctx.check('match', Iff(b(out.value), lo) if out.ok else False)
        again = ctx.call(target.match, request)
        ctx.check('repeatable', Iff(b(again.value), lo) if again.ok else
                  False)
    else:
        ctx.check('match-or-error', resolved(
            out, lambda v: b(v), lo, hi, anyerr))
    ctx.check('matches-see-the-request', all(c is request for c in seen))


def long_section(ctx, nalt, nmat):
    """Many alternatives, or many matches in one: all alike but for one."""
    from ndg.xacml.core.target import Target
    from ndg.xacml.core.context.request import Request
    section = ctx.choice('section', SECTIONS)
    target = Target()
    request = Request()
    alts, (at,) = sparse(ctx, nalt, 1, 'alt')
    mats, (mt,) = sparse(ctx, nmat, 1, 'match')
    others = ctx.choice('others', [False, True])    # the other alternatives
    v = ctx.bool('value')
    e = ctx.bool('error')
    calls = []

    def special(context):
        if e:
            raise StubError()
        return v
    for i in range(alts):
        child = child_class(section)()
        for j in range(mats if i == at else 1):
            fn = (lambda context: others) if i != at else special if j == mt \
                else (lambda context: True)
            child.matches.append(make_match(section, fn))
        getattr(target, section).append(child)
    rest = others and alts > 1
    out = ctx.call(target.match, request)
    ctx.observe('match', out.value if out.ok else out.exc_name)
    ctx.check('match-or-error', resolved(
        out, lambda x: b(x), Or(rest, And(v, Not(e))), Or(rest, v, e), e))


def warm_up():
    import ndg.xacml.core.policyset
    import ndg.xacml.core.policy


HARNESSES = [
    Harness('section', run, 'one section of 0..3 alternatives of 0..2 matches',
            params=dict(sections='one', nch=(0, 3), nma=(0, 2)),
            must_reach=('match', 'repeatable')),
    Harness('section-wide', run, 'one section of 2 alternatives of 3 matches',
            params=dict(sections='one', nch=(2, 2), nma=(3, 3)),
            must_reach=('match',)),
    Harness('all-sections', run, 'all four sections with 0..1 alternatives '
            'of 1 match', params=dict(sections=SECTIONS, nch=(0, 1),
                                      nma=(1, 1)), must_reach=('match',)),
    Harness('sections-pairs', run, 'subjects and resources 0..2 alternatives '
            'of 1 match',
            params=dict(sections=('subjects', 'resources'), nch=(0, 2),
                        nma=(1, 1)), must_reach=('match',)),
    Harness('sections-pairs2', run, 'actions and environments 0..2 '
            'alternatives of 1 match',
            params=dict(sections=('actions', 'environments'), nch=(0, 2),
                        nma=(1, 1)), must_reach=('match',)),
    Harness('errors', run, 'one section of 0..2 alternatives of 0..2 matches, '
            'any of which may fail',
            params=dict(sections='one', nch=(0, 2), nma=(0, 2), errors=True),
            must_reach=('match-or-error',)),
    Harness('errors-sections', run, 'all four sections of 0..1 alternatives '
            'of 1 match, any of which may fail',
            params=dict(sections=SECTIONS, nch=(0, 1), nma=(1, 1),
                        errors=True), must_reach=('match-or-error',)),
    Harness('long-alternatives', long_section, 'one section of 5, 9 or 17 '
            'alternatives, all alike but for any one, which may hold, not '
            'hold or fail', params=dict(nalt=(5, 9, 17), nmat=(1,)),
            must_reach=('match-or-error',)),
    Harness('long-matches', long_section, 'an alternative of 5, 9 or 17 '
            'matches, of which any one may hold, not hold or fail',
            params=dict(nalt=(1, 2), nmat=(5, 9, 17)),
            must_reach=('match-or-error',)),
    Harness('all-sections-deep', run, 'all four sections with 0..2 '
            'alternatives of 1 match',
            params=dict(sections=SECTIONS, nch=(0, 2), nma=(1, 1)),
            thorough_only=True, must_reach=('match',)),
    Harness('section-deep', run, 'one section of 3 alternatives of 3 matches',
            params=dict(sections='one', nch=(3, 3), nma=(3, 3)),
            thorough_only=True, must_reach=('match',)),
]
