#!/usr/bin/env python3
"""Write DESIGN.md (run with python3-vt after all quick checks)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

# id: (what is decided and how, oracle, beyond the tests, limits)
T = {
 'C01': ('Policy.evaluate (and the algorithm classes directly) over rules '
         'whose outcome and effect are solver variables',
         'the pseudo-code of XACML 2.0 appendix C as a formula over the '
         'outcomes (`RULE_ORACLES`)',
         'orderings and mixtures of failing, permitting, denying and '
         'inapplicable rules grow as 8^n'),
 'C02': ('PolicySet.evaluate over children with arbitrary decisions, sets in '
         'sets, chains of sets', 'appendix C for policies '
         '(`POLICY_ORACLES`)', 'as C01; and what an inner set answers is '
         'arbitrary as well'),
 'C03': ('Rule.evaluate with a target and a condition that answer or raise '
         'anything', 'target, then condition, then effect; errors give '
         'Indeterminate', 'faults in every place and of every kind; results '
         'that are no booleans'),
 'C04': ('PolicyBase.evaluate/evaluateResponse and PDP.evaluate over '
         'targets and algorithms that answer or raise anything',
         'the target gates, errors are Indeterminate, the response has one '
         'result with the decision', 'faults'),
 'C05': ('Target.match over match stand-ins with arbitrary outcomes',
         'a conjunction of disjunctions of conjunctions; where a match '
         'fails, either an error or an answer that does not depend on it',
         'all shapes and outcomes instead of two or three'),
 'C06': ('MatchBase.evaluate over bags of arbitrary size and function '
         'outcome, and with the real functions on symbolic strings',
         'a disjunction over the bag; errors are never true',
         'position and size of the satisfying value, faults'),
 'C07': ('the four designators on requests whose identifiers, types, '
         'issuers and values are symbolic strings',
         'a filter over the plain description of the request',
         'near-misses in exactly one of the criteria, order, repetition'),
 'C08': ('designators and selectors with every mark, through rules and '
         'policies', 'a missing-attribute error iff marked and nothing is '
         'found', 'requests that hold almost the attribute asked for'),
 'C09': ('SubjectAttributeDesignator.evaluate with a context handler that '
         'supplies arbitrary values', 'multiset inclusion both ways and '
         'order, as formulas', 'what the handler says is not fixed'),
 'C10': ('every equality, match and regexp function on symbolic values of '
         'its type, with every other type, and in sequences',
         'equality of the native values; z3 regular expression membership '
         'for the patterns', 'all strings, numbers and dates instead of a '
         'few; dependence on earlier evaluations'),
 'C11': ('And and Not on arbitrary booleans and foreign arguments',
         'conjunction, negation', 'number and position of arguments'),
 'C12': ('the bag functions on bags of symbolic values',
         'size one; element-wise equality; existence of an equal pair',
         'sizes, positions, equal members, NaN and signed zero'),
 'C13': ('string- and uri-concatenate on symbolic texts',
         'z3 concatenation', 'number of arguments, empty ones'),
 'C14': ('Apply.evaluate over recording operands, over real designators '
         'that resemble one another, and over real nested functions',
         'the list of operand values in order; the composition as a formula',
         'operands that look the same, faults in any of them'),
 'C15': ('the identifier setters and factories on arbitrary strings',
         'the list of names the package provides (`harness/c15.py`)',
         'the identifier is any string: near-misses cannot be listed'),
 'C16': ('reading a document by the real readers and PDP.evaluate on '
         'requests of arbitrary strings', '`docs.ref_policy`, an independent '
         'reading of the document tree', 'all parts together on all strings: '
         'every decision of a document is reached and compared'),
 'C17': ('histories of evaluations on decision points of one process with '
         'symbolic requests, the caller interfering between them',
         '`docs.ref_policy` for each evaluation on its own; content of '
         'policy and request before and after',
         'what one evaluation leaves behind shows in another only'),
 'C18': ('constructors, setters, comparison of decisions, effects, status '
         'codes, obligation effects on any string and foreign values, in '
         'sequences', 'membership in the vocabulary',
         'any string; sequences of assignments'),
 'C19': ('TypedList, UniqList, AttributeValue and all typed attributes and '
         'lists of policy and request objects under sequences of operations',
         'plain lists with a type filter', 'combinations of operation, '
         'container and type; atomicity of refused ones'),
 'C20': ('the readers on element trees whose strings are symbolic',
         'a walk over the tree in parallel with the object (`Reading`)',
         'every optional part, any string, any place'),
 'C21': ('the readers on documents with one defect',
         'an error', 'the defect stands in every place where it can, with '
         'any string'),
 'C22': ('policy sets with references, the network replaced by a recording '
         'stand-in', 'the C20 comparison with the document the reference '
         'leads to; the list of addresses asked for',
         'any identifiers and addresses'),
 'C23': ('to XML, compare, from XML, compare, for requests and responses of '
         'symbolic texts', 'the plain description', 'any text, order, '
         'namespace, comments'),
 'C24': ('urlfetcher with a recording opener, hosts and no_proxy entries '
         'symbolic', 'equality of host and an entry', 'any host and entry: '
         'prefixes, suffixes, blanks'),
 'C25': ('VettedDict, RestrictedKeyNamesDict and the registries under '
         'sequences of operations with symbolic keys and values',
         'a list of pairs with filters', 'every writing operation in '
         'combination'),
 'C26': ('pickling (protocols 0, 2, 5) and deep copies of objects with '
         'symbolic content', 'content before and after, the classes, and '
         'writing to the copy', 'any content; what the copy accepts '
         'afterwards'),
 'C27': ('AttributeSelector and the ElementTree XPath engine on requests '
         'with symbolic texts and attributes', 'a hand-written evaluation '
         'of each path on the plain description', 'which elements are '
         'there and what they hold is arbitrary'),
 'C28': ('the class and reader registries under histories of additions, and '
         'documents over an added type, with symbolic identifiers and '
         'contents', 'the table of additions as formulas over the '
         'identifier looked up; content equality', 'any identifiers, '
         'repeated and overlapping additions, any contents'),
}


def cell(s):
    return ' '.join(str(s).split()).replace('|', '\\|')


def main():
    from symx import hook
    hook.install()
    props = [json.loads(line) for line in open(os.path.join(
        HERE, 'properties.jsonl'))]
    out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
    out.append('## The properties\n')
    for p in props:
        m = importlib.import_module('harness.' + p['id'].lower())
        what, oracle, beyond = T[p['id']]
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append('* Decided: %s.\n* Oracle: %s.\n* What the tests cannot '
                   'reach: %s.' % (what, oracle, beyond))
        if m.ASSUMPTIONS:
            out.append('* Assumed: %s.' % '; '.join(
                cell(a) for a in m.ASSUMPTIONS))
        walls = json.load(open(os.path.join(HERE, 'tools', 'walls.json')))
        w = walls.get(p['id'])
        if w:
            out.append('* Quick run: %d s on 8 cores, %d paths, %d solver '
                       'queries, %d truncated paths.' % tuple(w))
        out.append('\n| harness | bounds |\n|---|---|')
        for h in m.HARNESSES:
            out.append('| %s%s | %s |' % (
                cell(h.name), ' (thorough)' if h.thorough_only else '',
                cell(h.bounds)))
        out.append('')
    out.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


if __name__ == '__main__':
    main()
