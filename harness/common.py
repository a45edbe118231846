"""Shared pieces of the harnesses: stand-ins and reference oracles."""
import re

from symx.logic import (And, Or, Not, Implies, Iff, Eq, If, In, Count, b,
                        StartsWith, EndsWith, Contains, Concat, Len, ReMatch,
                        IsBool)
from symx.runner import Harness, under_lxml

PERMIT, DENY, NA, IND = 'Permit', 'Deny', 'NotApplicable', 'Indeterminate'
DECISIONS = (PERMIT, DENY, NA, IND)

RULE_ALG = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:'
POLICY_ALG = 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:'


class StubError(Exception):
    """An error raised by a stand-in on the harness's behalf."""


def decision_value(out):
    """The decision string of an Outcome, or None if it is not a Decision."""
    from ndg.xacml.core.context.result import Decision
    if not out.ok or not isinstance(out.value, Decision):
        return None
    return out.value.value


def make_condition(ctx, fn):
    """A Condition whose evaluation is ``fn(context)``."""
    from ndg.xacml.core.condition import Condition

    class StubCondition(Condition):
        def evaluate(self, context):
            return fn(context)
    return StubCondition()


def make_expr(ctx, fn):
    """An Expression whose evaluation is ``fn(context)``."""
    from ndg.xacml.core.expression import Expression

    class StubExpression(Expression):
        ELEMENT_LOCAL_NAME = 'StubExpression'

        def evaluate(self, context):
            return fn(context)
    return StubExpression()


def make_expr_condition(ctx, fn):
    """A real Condition over an expression that evaluates to fn(context)."""
    from ndg.xacml.core.condition import Condition
    c = Condition()
    c.expression = make_expr(ctx, fn)
    return c


def make_target(ctx, fn):
    from ndg.xacml.core.target import Target

    class StubTarget(Target):
        def match(self, context):
            return fn(context)
    return StubTarget()


def make_rule(ctx, tag, effect, outcome_true, outcome_error, log=None):
    """A real Rule deciding ``effect`` if outcome_true, NotApplicable if not,
    and Indeterminate if outcome_error."""
    from ndg.xacml.core.rule import Rule, Effect

    def cond(context):
        if log is not None:
            log.append(tag)
        if outcome_error:
            raise StubError(tag)
        return outcome_true
    r = Rule()
    r.id = tag
    r.effect = Effect(effect)
    r.condition = make_condition(ctx, cond)
    return r


# ---- reference combining algorithms (XACML 2.0, appendix C) -------------
def rule_deny_overrides(rs):
    """rs: list of (decision, effect) -> decision"""
    anyp = Or([Eq(d, PERMIT) for d, e in rs])
    anyd = Or([Eq(d, DENY) for d, e in rs])
    ind_d = Or([And(Eq(d, IND), Eq(e, DENY)) for d, e in rs])
    ind = Or([Eq(d, IND) for d, e in rs])
    return If(anyd, DENY, If(ind_d, IND, If(anyp, PERMIT, If(ind, IND, NA))))


def rule_permit_overrides(rs):
    anyp = Or([Eq(d, PERMIT) for d, e in rs])
    anyd = Or([Eq(d, DENY) for d, e in rs])
    ind_p = Or([And(Eq(d, IND), Eq(e, PERMIT)) for d, e in rs])
    ind = Or([Eq(d, IND) for d, e in rs])
    return If(anyp, PERMIT, If(ind_p, IND, If(anyd, DENY, If(ind, IND, NA))))


def first_applicable(ds):
    r = NA
    for d in reversed(list(ds)):
        r = If(Eq(d, NA), r, d)
    return r


def rule_first_applicable(rs):
    return first_applicable([d for d, e in rs])


def policy_deny_overrides(ds):
    return If(Or([Or(Eq(d, DENY), Eq(d, IND)) for d in ds]), DENY,
              If(Or([Eq(d, PERMIT) for d in ds]), PERMIT, NA))


def policy_permit_overrides(ds):
    return If(Or([Eq(d, PERMIT) for d in ds]), PERMIT,
              If(Or([Eq(d, DENY) for d in ds]), DENY,
                 If(Or([Eq(d, IND) for d in ds]), IND, NA)))


RULE_ORACLES = {'deny-overrides': rule_deny_overrides,
                'permit-overrides': rule_permit_overrides,
                'first-applicable': rule_first_applicable}
POLICY_ORACLES = {'deny-overrides': policy_deny_overrides,
                  'permit-overrides': policy_permit_overrides,
                  'first-applicable': first_applicable}


def rule_decision(effect, applies, error):
    return If(error, IND, If(applies, effect, NA))


# ---- stand-ins for whole policies ---------------------------------------
def make_policy_stub(ctx, ident, decision_fn, set_=False):
    """A Policy (or PolicySet) whose evaluation is ``decision_fn(context)`` (a string)."""
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.context.result import Decision

    class StubPolicy(Policy):
        def evaluate(self, context):
            return Decision(decision_fn(context))
    if set_:
        from ndg.xacml.core.policyset import PolicySet

        class StubPolicySet(PolicySet):
            def evaluate(self, context):
                return Decision(decision_fn(context))
        p = StubPolicySet()
        p.policySetId = ident
        return p
    p = StubPolicy()
    p.policyId = ident
    return p


def raiser(exc):
    def f(*a, **k):
        raise exc
    return f


#: kinds of error a part of the evaluation may raise
def error_kinds():
    from ndg.xacml.core.context.exceptions import (
        XacmlContextError, XacmlContextTypeError, MissingAttributeError)
    from ndg.xacml.core.functions import UnsupportedStdFunctionError
    from ndg.xacml.parsers import XMLParseError
    return [StubError, XacmlContextError, XacmlContextTypeError,
            MissingAttributeError, TypeError, ValueError, KeyError,
            AttributeError, NotImplementedError, RecursionError,
            UnsupportedStdFunctionError, XMLParseError, AssertionError,
            StopIteration, OSError, ZeroDivisionError, UnicodeError,
            MemoryError, IndexError, re.error, ImportError]


def single_result_decision(out):
    """Decision string of a Response with exactly one Result, else None."""
    from ndg.xacml.core.context.response import Response
    from ndg.xacml.core.context.result import Result, Decision
    if not out.ok or not isinstance(out.value, Response):
        return None
    rs = out.value.results
    if len(rs) != 1 or not isinstance(rs[0], Result) or \
            not isinstance(rs[0].decision, Decision):
        return None
    return rs[0].decision.value


def resolved(out, value_of, lo, hi, any_error):
    """What an evaluation some parts of which fail may answer.

    lo / hi: the reference outcome with every failed part read as False / as
    True.  Without a failure the outcome is lo; with one, it is an error, or
    a value that does not depend on how the failed parts would have come out.
    """
    if not out.ok:
        return any_error
    v = value_of(out.value)
    if v is None:
        return False
    return And(Iff(v, lo), Iff(v, hi))


# ---- attribute values and requests --------------------------------------
XS = 'http://www.w3.org/2001/XMLSchema#'
STRING, ANYURI, INTEGER, BOOLEAN = (XS + t for t in
                                    ('string', 'anyURI', 'integer',
                                     'boolean'))
CATEGORIES = ('Subject', 'Resource', 'Action', 'Environment')
FN1 = 'urn:oasis:names:tc:xacml:1.0:function:'
FN2 = 'urn:oasis:names:tc:xacml:2.0:function:'


def attr_class(uri=STRING):
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory
    return AttributeValueClassFactory()(uri)


def designator(cat):
    import ndg.xacml.core.attributedesignator as d
    return getattr(d, cat + 'AttributeDesignator')()


def make_attribute(ident, dtype, issuer, values):
    from ndg.xacml.core.attribute import Attribute
    a = Attribute()
    a.attributeId = ident
    a.dataType = dtype
    if issuer is not None:
        a.issuer = issuer
    for v in values:
        a.attributeValues.append(v)
    return a


def context_class(cat):
    from ndg.xacml.core.context.subject import Subject
    from ndg.xacml.core.context.resource import Resource
    from ndg.xacml.core.context.action import Action
    from ndg.xacml.core.context.environment import Environment
    return dict(Subject=Subject, Resource=Resource, Action=Action,
                Environment=Environment)[cat]


def add_child(request, cat, child):
    if cat == 'Subject':
        request.subjects.append(child)
    elif cat == 'Resource':
        request.resources.append(child)
    elif cat == 'Action':
        request.action = child
    else:
        request.environment = child


def same_value(x, y):
    """Two attribute values of the same class, data type and content."""
    if x is y or (type(x) is type(y) and x.value is y.value and
                  x.dataType is y.dataType):      # NaN is itself
        return True
    return And(type(x) is type(y), Eq(x.dataType, y.dataType),
               Eq(x.value, y.value)) if type(x) is type(y) else False


def same_bag(bag, expected):
    """A list of attribute values equal, in order, to ``expected``."""
    if not isinstance(bag, list) or len(bag) != len(expected):
        return False
    return And([same_value(x, y) for x, y in zip(bag, expected)])


def request_state(request):
    """Everything a request holds, as nested lists (for comparisons)."""
    def child(c):
        if c is None:
            return None
        return [c.__class__.__name__, getattr(c, 'subjectCategory', None),
                [[a.attributeId, a.dataType, a.issuer,
                  [[v.__class__.__name__, v.dataType, v.value]
                   for v in a.attributeValues]] for a in c.attributes]]
    return [[child(c) for c in request.subjects],
            [child(c) for c in request.resources],
            child(request.action), child(request.environment)]


def same_state(x, y):
    """Structural equality of nested lists of plain or symbolic leaves."""
    if isinstance(x, (list, tuple)):
        return isinstance(y, (list, tuple)) and len(x) == len(y) and \
            And([same_state(p, q) for p, q in zip(x, y)])
    if isinstance(y, (list, tuple)):
        return False
    return Eq(x, y)


# ---- long lists of which only a few members are arbitrary ----------------
LONG = (5, 8, 12, 17, 33)


def sparse(ctx, ns, specials, tag=''):
    """A length out of ``ns`` and the places of ``specials`` different members,
    each at any place."""
    n = ctx.choice('length' + tag, ns)
    places = []
    for k in range(specials):
        p = ctx.choice('place%s%d' % (tag, k), range(max(ns)))
        ctx.assume(p < n and (not places or p > places[-1]))
        places.append(p)
    return n, places
