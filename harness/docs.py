"""Policy documents as trees, and a reference reading of them.

The reference decides straight from the document tree and a plain description
of the request.  It shares no code with the repository and no intermediate
representation: strings in the document and the request may be symbolic.
"""
from harness.common import *

NS = '{urn:oasis:names:tc:xacml:2.0:policy:schema:cd:04}'
MATCH_OF = dict(Subject='SubjectMatch', Resource='ResourceMatch',
                Action='ActionMatch', Environment='EnvironmentMatch')


class Node(object):
    """An element; '#comment' and '#pi' stand for those, '' for no prefix."""
    tail = None

    def __init__(self, tag, attrib=None, children=(), text=None):
        self.tag, self.attrib = tag, dict(attrib or {})
        self.children, self.text = list(children), text

    def all(self, *tags):
        return [c for c in self.children if c.tag in tags]

    def one(self, tag):
        r = self.all(tag)
        return r[0] if r else None


def E(tag, *children, **kw):
    text = kw.pop('text', None)
    return Node(tag, kw, children, text)


def to_element(node, ns=NS):
    from ndg.xacml import importElementTree
    ET = importElementTree()
    if node.tag == '#comment':
        e = ET.Comment('comment')
    elif node.tag == '#pi':
        e = ET.ProcessingInstruction('target', 'data')
    else:
        e = ET.Element(node.tag if node.tag.startswith('{') else ns + node.tag,
                       dict(node.attrib))
        e.text = node.text
        for c in node.children:
            e.append(to_element(c, ns))
    e.tail = node.tail
    return e


def from_file(path):
    from xml.etree import ElementTree as ET

    def conv(e):
        return Node(e.tag.rsplit('}', 1)[-1], e.attrib,
                    [conv(c) for c in e if isinstance(c.tag, str)], e.text)
    return conv(ET.parse(path).getroot())


# ------------------------------------------------------ building documents
def value_el(text, dtype=STRING):
    return E('AttributeValue', DataType=dtype, text=text)


def designator_el(cat, ident, dtype=STRING, **kw):
    return E(cat + 'AttributeDesignator', AttributeId=ident, DataType=dtype,
             **kw)


def match_el(cat, ident, text, dtype=STRING, fn=FN1 + 'string-equal', **kw):
    return E(MATCH_OF[cat], value_el(text, dtype),
             designator_el(cat, ident, dtype, **kw), MatchId=fn)


def target_el(**sections):
    """subject=[[match, ...], ...]: a target of alternatives of matches"""
    out = []
    for cat, alts in sections.items():
        out.append(E(cat + 's', *[E(cat, *ms) for ms in alts]))
    return E('Target', *out)


def apply_el(fn, *args):
    return E('Apply', *args, FunctionId=fn)


def rule_el(ident, effect, target=None, condition=None):
    return E('Rule', *[c for c in
                       (target, condition and E('Condition', condition))
                       if c is not None], RuleId=ident, Effect=effect)


def policy_el(ident, alg, rules, target=None):
    return E('Policy', *(([target] if target is not None else []) +
                         list(rules)), PolicyId=ident,
             RuleCombiningAlgId=RULE_ALG + alg)


def policyset_el(ident, alg, children, target=None):
    return E('PolicySet', *(([target] if target is not None else []) +
                            list(children)), PolicySetId=ident,
             PolicyCombiningAlgId=POLICY_ALG + alg)


# ------------------------------------------------- requests, two ways
class Req(object):
    """A plain description of a request, and the request object.

    content: {category: [child, ...]}; child: [(id, type, issuer, [text])]
    """

    def __init__(self, content):
        self.content = content

    def attributes(self, cat):
        return [a for child in self.content.get(cat, ()) for a in child]

    def build(self):
        from ndg.xacml.core.context.request import Request
        r = Request()
        for cat, children in self.content.items():
            for child in children:
                o = context_class(cat)()
                for ident, dtype, issuer, texts in child:
                    o.attributes.append(make_attribute(
                        ident, dtype, issuer,
                        [attr_class(dtype)(t) for t in texts]))
                add_child(r, cat, o)
        return r


# ------------------------------------------------------- the reference
class R(object):
    """An evaluation result: ``err`` (condition) or a value."""

    def __init__(self, err, value, dtype=None):
        self.err, self.value, self.dtype = err, value, dtype


class Bag(object):
    def __init__(self, items, dtype):
        self.items, self.dtype = items, dtype     # [(guard, text)]


def ref_designator(node, req):
    cat = node.tag[:-len('AttributeDesignator')]
    want_id, want_type = node.attrib['AttributeId'], node.attrib['DataType']
    issuer = node.attrib.get('Issuer')
    items = []
    for ident, dtype, iss, texts in req.attributes(cat):
        g = And(Eq(ident, want_id), Eq(dtype, want_type))
        if issuer is not None:
            g = And(g, False if iss is None else Eq(iss, issuer))
        items += [(g, t) for t in texts]
    mandatory = node.attrib.get('MustBePresent', 'false')
    must = In(mandatory, ('true', '1'))
    return R(And(must, Not(Or([g for g, _ in items]))),
             Bag(items, want_type))


def ref_apply(node, req):
    fn = node.attrib['FunctionId']
    args = [ref_expr(c, req) for c in node.children]
    err = Or([a.err for a in args])
    name = fn.rsplit(':', 1)[-1]
    vals = [a.value for a in args]
    if name == 'and':
        return R(err, And(vals), 'bool')
    if name == 'not':
        return R(err, Not(vals[0]), 'bool')
    if name.endswith('-one-and-only'):
        items = vals[0].items
        first, one = '', 0
        for g, t in reversed(items):
            first = If(g, t, first)
        return R(Or(err, Not(Eq(Count([g for g, _ in items]), 1))), first,
                 vals[0].dtype)
    if name.endswith('-bag'):
        return R(err, Bag([(True, v) for v in vals],
                          args[0].dtype if args else None))
    if name.endswith('-at-least-one-member-of'):
        return R(err, Or([And(g, h, Eq(t, u)) for g, t in vals[0].items
                          for h, u in vals[1].items]), 'bool')
    if name.endswith('-equal'):
        return R(err, Eq(vals[0], vals[1]), 'bool')
    if name.endswith('-regexp-match'):
        return R(err, ReMatch('match', vals[0], vals[1]), 'bool')
    if name.endswith('-concatenate'):
        return R(err, Concat(*vals), args[0].dtype)
    raise NotImplementedError(fn)


def ref_expr(node, req):
    if node.tag == 'Apply':
        return ref_apply(node, req)
    if node.tag == 'AttributeValue':
        return R(False, node.text, node.attrib['DataType'])
    if node.tag.endswith('AttributeDesignator'):
        return ref_designator(node, req)
    raise NotImplementedError(node.tag)


def ref_match(node, req):
    value = node.one('AttributeValue').text
    d = [c for c in node.children if c.tag.endswith('Designator')][0]
    bag = ref_designator(d, req)
    name = node.attrib['MatchId'].rsplit(':', 1)[-1]

    def holds(t):
        if name.endswith('regexp-match'):
            return ReMatch('match', value, t)
        return Eq(value, t)
    return R(bag.err, Or([And(g, holds(t)) for g, t in bag.value.items]))


def ref_target(node, req, failed):
    """Does the target match, reading failed matches as ``failed``?"""
    if node is None:
        return R(False, True)
    err, sections = [], []
    for cat in CATEGORIES:
        sec = node.one(cat + 's')
        alts = []
        for alt in (sec.children if sec is not None else ()):
            ms = [ref_match(m, req) for m in alt.children]
            err += [m.err for m in ms]
            alts.append(And([If(m.err, failed, m.value) for m in ms]))
        sections.append(Or(alts) if alts else True)
    return R(Or(err), And(sections))


def ref_rule(node, req):
    t = ref_target(node.one('Target'), req, True)
    c = node.one('Condition')
    cond = ref_expr(c.children[0], req) if c is not None else R(False, True)
    effect = node.attrib['Effect']
    return If(t.err, IND, If(Not(t.value), NA, If(cond.err, IND, If(
        cond.value, effect, NA)))), effect


def ref_policy(node, req, lookup=None):
    t = ref_target(node.one('Target'), req, True)
    if node.tag == 'Policy':
        alg = node.attrib['RuleCombiningAlgId']
        table, prefix = RULE_ORACLES, RULE_ALG
        parts = [ref_rule(r, req) for r in node.all('Rule')]
    else:
        alg = node.attrib['PolicyCombiningAlgId']
        table, prefix = POLICY_ORACLES, POLICY_ALG
        parts = []
        for c in node.all('Policy', 'PolicySet', 'PolicyIdReference',
                          'PolicySetIdReference'):
            if c.tag.endswith('Reference'):
                c = lookup(c.tag, c.text)
            parts.append(ref_policy(c, req, lookup))
    d = None
    for name, oracle in table.items():
        here = oracle(parts)
        is_it = Eq(alg, prefix + name)
        if is_it is True:
            d = here
            break
        if is_it is not False:
            d = here if d is None else If(is_it, here, d)
    return If(t.err, IND, If(t.value, d, NA))


def index(*nodes):
    """Lookup of references among the policies written out in ``nodes``."""
    table = {}

    def walk(n):
        if n.tag == 'Policy':
            table['PolicyIdReference', n.attrib['PolicyId']] = n
        elif n.tag == 'PolicySet':
            table['PolicySetIdReference', n.attrib['PolicySetId']] = n
        for c in n.children:
            if c.tag in ('Policy', 'PolicySet'):
                walk(c)
    for n in nodes:
        walk(n)
    return lambda tag, ref: table[tag, ref]


def designators(node):
    """Every (category, id, type) that ``node`` asks for, in order."""
    out = []

    def walk(n):
        if n.tag.endswith('AttributeDesignator'):
            k = (n.tag[:-len('AttributeDesignator')], n.attrib['AttributeId'],
                 n.attrib['DataType'])
            if k not in out:
                out.append(k)
        for c in n.children:
            walk(c)
    walk(node)
    return out


def pdp_of(node, finder=None):
    """A decision point for the document, by the real reader."""
    from ndg.xacml.core.context.pdp import PDP
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
    return PDP.fromPolicySource(to_element(node), ReaderFactory,
                                finder or LocalPolicyFinder())


def load_readers():
    import ndg.xacml.core.context.pdp                    # noqa: F401
    import ndg.xacml.finder.localpolicyfinder           # noqa: F401
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    import ndg.xacml.core.policy as p
    import ndg.xacml.core.policyset as ps
    from ndg.xacml.core import (target, rule, condition, apply, subject,
                                resource, action, environment, match,
                                attributevalue, attributeselector,
                                attributedesignator, policydefaults,
                                policybase)
    for t in [p.Policy, ps.PolicySet, target.Target, rule.Rule,
              condition.Condition, apply.Apply, subject.Subject,
              resource.Resource, action.Action, environment.Environment,
              match.SubjectMatch, match.ResourceMatch, match.ActionMatch,
              match.EnvironmentMatch,
              attributevalue.AttributeValue,
              attributeselector.AttributeSelector,
              attributedesignator.SubjectAttributeDesignator,
              attributedesignator.ResourceAttributeDesignator,
              attributedesignator.ActionAttributeDesignator,
              attributedesignator.EnvironmentAttributeDesignator,
              policydefaults.PolicyDefaults, policybase.PolicyBase]:
        ReaderFactory.getReader(t)
    from harness.funcs import load_all
    load_all()
