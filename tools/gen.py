#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe=(),
         state=(), note='', claimed=True, reason=''):
    P.append(dict(id=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  observe=list(observe), state=list(state), note=note,
                  claimed=claimed, reason=reason))


X = 'ndg/xacml/'

prop('C01', 'Rule combining algorithms decide as XACML 2.0 specifies',
     'For every sequence of rules, each of which permits, denies, does not '
     'apply or fails, a policy\'s decision under deny-overrides, '
     'permit-overrides and first-applicable rule combining is exactly the one '
     'of the XACML 2.0 specification: an overriding effect anywhere wins, an '
     'error in a rule that could have had the overriding effect yields '
     'Indeterminate, and first-applicable answers with the first rule that '
     'applies or fails. No rules, or none that applies, yields NotApplicable. '
     'A rule is asked with the request being decided.',
     ['inputs'], 'every list of 0..4 (thorough 0..6) rules with every '
     'combination of effect and outcome, and lists of 5..33 rules alike but '
     'for any one or two, for each of the three algorithms',
     'Tests cover a handful of one- and two-rule policies; the algorithms '
     'differ only in orderings and in mixes of failing and deciding rules.',
     [X + 'core/rule_combining_alg.py', X + 'core/policy.py',
      X + 'core/rule.py'],
     [('combining algorithms', X + 'core/rule_combining_alg.py: *.evaluate')],
     ['Policy.evaluate'])
prop('C02', 'Policy combining algorithms decide as XACML 2.0 specifies',
     'For every sequence of policies and nested policy sets, a policy set\'s '
     'decision under deny-overrides, permit-overrides and first-applicable '
     'policy combining is exactly the one of the XACML 2.0 specification: '
     'under deny-overrides a Deny or an error of any child denies, under '
     'permit-overrides any Permit wins, then Deny, then Indeterminate, and '
     'first-applicable answers with the first child that is not '
     'NotApplicable. This holds for nested sets at every level.',
     ['inputs'], 'every list of 0..5 (thorough 0..7) children with every '
     'decision, lists of up to 33 children alike but for any one or two, '
     'nesting up to 8 levels, each algorithm',
     'Tests combine two or three policies in a few fixed outcomes.',
     [X + 'core/policy_combining_alg.py', X + 'core/policyset.py'],
     [('combining algorithms', X + 'core/policy_combining_alg.py')],
     ['PolicySet.evaluate'])
prop('C03', 'A rule decides by target, then condition, and fails closed',
     'A rule whose target matches (or is absent) and whose condition is true '
     '(or absent) decides its own effect; a target that does not match or a '
     'false condition gives NotApplicable. Any error raised while the target '
     'or the condition is evaluated, and a condition that does not come out '
     'as a boolean, gives Indeterminate, never an exception and never the '
     'rule\'s effect.',
     ['inputs', 'fault_sequences'], 'every outcome of target and condition, '
     'including every kind of exception, and both effects',
     'Tests hold a few rules whose parts do not fail; no test makes a '
     'condition yield a non-boolean.',
     [X + 'core/rule.py', X + 'core/condition.py'],
     [('Rule.evaluate', X + 'core/rule.py')], ['Rule.evaluate'])
prop('C04', 'A policy decides only when its target matches; a PDP relays it',
     'A policy or policy set consults its rules or children only when its '
     'target matches or is absent: a target that does not match gives '
     'NotApplicable, and any error while matching or combining gives '
     'Indeterminate, never an exception. The decision point returns, for '
     'every request, a response with exactly one result carrying the decision '
     'of the policy it was given.',
     ['inputs', 'fault_sequences'], 'every outcome of target, and of each '
     'rule or child, including every kind of exception, for policies, policy '
     'sets, sets in sets, and the decision point above them',
     'Tests do not inject failures below a policy; they check a few '
     'decisions through a PDP.',
     [X + 'core/policybase.py', X + 'core/policy.py', X + 'core/policyset.py',
      X + 'core/context/pdp.py'],
     [('PolicyBase.evaluate', X + 'core/policybase.py'),
      ('PDP.evaluate', X + 'core/context/pdp.py')],
     ['PDP.evaluate', 'Policy.evaluateResponse'])
prop('C05', 'A target matches by AND over sections, OR within, AND of matches',
     'A target matches a request exactly if each of its four sections '
     '(subjects, resources, actions, environments) is empty or has an '
     'alternative all of whose matches hold. A failing match makes the target '
     'either fail or answer with what every possible outcome of the failed '
     'match would have given.',
     ['inputs', 'fault_sequences'], 'every combination of outcomes of the '
     'matches of a section of 0..3 alternatives with 0..3 matches, and of all '
     'four sections with 0..2 alternatives; up to 17 alternatives or matches '
     'of which any one is arbitrary',
     'Tests hold targets with one or two sections and one match each.',
     [X + 'core/target.py', X + 'core/__init__.py'],
     [('Target.match', X + 'core/target.py')], ['Target.match'])
prop('C06', 'A match holds iff some value the request supplies satisfies it',
     'A match holds exactly if its function, applied to the policy\'s literal '
     'value as first argument and a value found in the request as second, is '
     'true for at least one value found; it does not hold when none is found. '
     'An error from finding the values or from the function is never read as '
     'a match, and a match set up with no source of values is an error.',
     ['inputs', 'fault_sequences'], 'bags of 0..4 values with every '
     'combination of outcomes, bags of up to 16 of which at most two match; '
     'real match functions over symbolic strings',
     'Tests match one fixed value against one or two in the request.',
     [X + 'core/match.py', X + 'core/functions/v1/match.py'],
     [('MatchBase.evaluate', X + 'core/match.py')],
     ['SubjectMatch/ResourceMatch/ActionMatch/EnvironmentMatch.evaluate'])
prop('C07', 'Designators retrieve exactly the request attributes they name',
     'A subject, resource, action or environment designator yields exactly '
     'the values of the request\'s attributes of that category whose '
     'identifier and data type equal its own (and whose issuer equals its '
     'own, if it has one), in request order, every value of every such '
     'attribute, and nothing from another category, identifier, data type or '
     'issuer. The bag has the data type asked for.',
     ['inputs'], 'requests with up to 2 subjects/resources of up to 2 '
     'attributes of up to 2 values, with arbitrary identifiers, types and '
     'issuers; up to 17 subjects, attributes or values of which any one is '
     'arbitrary',
     'Tests hold requests in which every attribute differs in its identifier '
     'and none in its type or issuer only.',
     [X + 'core/attributedesignator.py'],
     [('*AttributeDesignator.evaluate', X + 'core/attributedesignator.py')],
     ['*AttributeDesignator.evaluate'])
prop('C08', 'A mandatory attribute that is missing is an error, not empty',
     'A designator or selector marked as mandatory that finds nothing raises '
     'a missing-attribute error and one not so marked yields an empty bag, '
     'whatever other attributes the request holds; this error makes the rule '
     'and policy Indeterminate. A selector yields exactly the selected text '
     'values, in order, as values of its data type.',
     ['inputs'], 'arbitrary requests as in C07, every setting of the mark and '
     'of the data types; selections of 0..3 arbitrary strings',
     'Tests have one missing attribute case.',
     [X + 'core/attributedesignator.py', X + 'core/attributeselector.py'],
     [('mustBePresent handling', X + 'core/attributedesignator.py')],
     ['*AttributeDesignator.evaluate', 'AttributeSelector.evaluate'])
prop('C09', 'Attributes from the information point add to the request\'s own',
     'When a request has a context handler, a subject designator evaluated '
     'against it asks the handler for the attribute it names; the values '
     'supplied come after those of the request itself (which are neither '
     'lost, altered nor reordered), each value that is there already is not '
     'repeated, and a supplied value of another data type is an error, not a '
     'match. Supplying nothing changes nothing, and the request is left as it '
     'was.',
     ['inputs'], 'requests as in C07 with 0..2 subjects and a handler that '
     'supplies none or 0..2 arbitrary values for each query, or up to 14 of '
     'which any one is arbitrary',
     'One test uses a handler with one subject.',
     [X + 'core/attributedesignator.py', X + 'core/context/handlerinterface.py'],
     [('SubjectAttributeDesignator.evaluate',
       X + 'core/attributedesignator.py')],
     ['SubjectAttributeDesignator.evaluate'])
prop('C10', 'Equality functions are exact, typed and never coerce',
     'Each typed equality function, and each typed match function, is true '
     'exactly for two values of its own data type with equal content '
     '(regular-expression match: exactly when the pattern matches at the '
     'start of the value), and raises an error for every argument of another '
     'data type instead of coercing or answering. The answer depends on the '
     'two arguments alone, whatever was evaluated before.',
     ['inputs', 'histories'], 'every equality and match function with '
     'arbitrary strings of any length, integers, booleans, floats, dates '
     'and durations, 20 patterns; every pairing of data types; sequences of evaluations',
     'Tests evaluate a few functions on a few constants.',
     [X + 'core/functions/v1/equal.py', X + 'core/functions/v1/match.py',
      X + 'core/functions/v1/regexp_match.py',
      X + 'core/functions/v2/regexp_match.py', X + 'core/attributevalue.py'],
     [('EqualBase.evaluate', X + 'core/functions/v1/equal.py'),
      ('RegexpMatchBase.evaluate', X + 'core/functions/v1/regexp_match.py')],
     ['<Function>.evaluate'])
prop('C11', 'Boolean functions compute and / not and reject non-booleans',
     'The and function is the conjunction of any number of booleans (true for '
     'none), the not function the negation of one; an argument that is not a '
     'boolean which the answer depends on, and a wrong number of arguments, '
     'is an error and never taken by its truthiness.',
     ['inputs'], '0..5 arguments, each an arbitrary boolean or a value of 8 '
     'other kinds; up to 33 arguments of which any one is', 'Tests try few argument lists.',
     [X + 'core/functions/v1/and.py', X + 'core/functions/v1/not.py'],
     [('And.evaluate', X + 'core/functions/v1/and.py'),
      ('Not.evaluate', X + 'core/functions/v1/not.py')], ['<Function>.evaluate'])
prop('C12', 'Bag functions: one-and-only, bag and at-least-one-member-of',
     'One-and-only returns the element of a one-element bag of its type and '
     'is an error for any other size or type; bag builds exactly the bag of '
     'its arguments and rejects values of other types; at-least-one-member-of '
     'is true exactly if the two bags of its type share an equal value.',
     ['inputs'], 'bags of 0..3 arbitrary values of each data type; bags of up '
     'to 40 of which any one value is arbitrary; bags of another type',
     'Tests use one or two bags.',
     [X + 'core/functions/v1/one_and_only.py', X + 'core/functions/v1/bag.py',
      X + 'core/functions/v1/at_least_one_member_of.py'],
     [('evaluate', X + 'core/functions/v1/')], ['<Function>.evaluate'])
prop('C13', 'Concatenation joins all its arguments in order',
     'String and URI concatenation yield, for two or more arguments, the '
     'value of the right data type whose text is that of the arguments joined '
     'in order, and are an error for fewer arguments or for arguments of '
     'other data types; the arguments are not changed.',
     ['inputs'], '0..4 arguments of arbitrary text up to 4 characters, and of '
     'other types; up to 33 arguments of which any one is of any length', 'Tests join two or three constants.',
     [X + 'core/functions/v2/concatenate.py'],
     [('ConcatenateBase.evaluate', X + 'core/functions/v2/concatenate.py')],
     ['<Function>.evaluate'])
prop('C14', 'Function application passes its operands in order, every time',
     'Applying a function evaluates each operand against the request being '
     'decided and passes the results in the order written, at every depth of '
     'nesting; the application yields what the function returns for them. An '
     'error in an operand or in the function is an error of the whole, and '
     'makes a rule that depends on it Indeterminate.',
     ['inputs', 'fault_sequences'], '0..5 operands with arbitrary values or '
     'errors, up to 20 of which any one is arbitrary, nesting to depth 25, '
     'the real functions',
     'Tests evaluate a few fixed nested expressions.',
     [X + 'core/apply.py', X + 'core/condition.py'],
     [('Apply.evaluate', X + 'core/apply.py')],
     ['Apply.evaluate', 'Rule.evaluate'])
prop('C15', 'Unknown or unsupported identifiers are refused, never ignored',
     'A combining algorithm, match function or applied function identifier is '
     'accepted only if it is one the implementation provides, and then '
     'selects exactly the function of that name; every other identifier, '
     'including standard ones that are not implemented, is refused with an '
     'error when it is set, and a policy that never was given a valid one '
     'never permits. A function registered by an application cannot '
     'replace a standard one.',
     ['inputs'], 'arbitrary identifier strings up to 80 characters; all '
     'standard names; registrations of arbitrary names',
     'Tests try a few known names and one unknown.',
     [X + 'core/functions/__init__.py', X + 'core/policy.py',
      X + 'core/policyset.py', X + 'core/rule_combining_alg.py',
      X + 'core/policy_combining_alg.py', X + 'core/match.py',
      X + 'core/apply.py'],
     [('FunctionMap', X + 'core/functions/__init__.py'),
      ('combining algorithm factories', X + 'core/*_combining_alg.py')],
     ['Policy.ruleCombiningAlgId', 'Apply.functionId', 'Match.matchId'])
prop('C16', 'End to end, the decision point decides as the policy reads',
     'For a policy document as the parser delivers it and every request, the '
     'decision point\'s decision is the one a reader of the policy would '
     'derive from the standard: targets, conditions, rule effects and '
     'combining algorithms together, with no part of the policy left out.',
     ['inputs'], 'policies of the test-suite and of this check, parsed from '
     'their XML by the real reader; requests with arbitrary attribute values',
     'Tests send a dozen fixed requests to each policy.',
     [X + 'core/', X + 'parsers/etree/'],
     [('whole evaluation', X + 'core/context/pdp.py')], ['PDP.evaluate'])
prop('C17', 'Decisions depend on policy and request only; evaluation is pure',
     'The decision for a request is a function of the policy and the request '
     'alone: earlier requests, other decision points and other policies in '
     'the same process do not influence it, and repeating it gives the same '
     'answer. Evaluating changes neither the policy nor the request, nor what '
     'an information point answered with, and a caller changing a response it '
     'received does not influence later decisions.',
     ['histories', 'inputs'], 'histories of up to 4 evaluations with '
     'arbitrary attribute values on two decision points sharing the process, '
     'and of 20 (thorough 150) evaluations of two requests in turn',
     'Tests evaluate each request once on a fresh decision point.',
     [X + 'core/context/pdp.py', X + 'core/context/result.py',
      X + 'core/functions/v1/regexp_match.py'],
     [('no state kept in evaluation', X + 'core/')], ['PDP.evaluate'],
     state=[('regular expression cache', 'compiled patterns by text',
             X + 'core/functions/v1/regexp_match.py'),
            ('decision constants', 'shared by every response',
             X + 'core/context/result.py')])
prop('C18', 'Decisions and effects hold only the standard vocabulary',
     'A decision is always one of Permit, Deny, Indeterminate and '
     'NotApplicable, an effect one of Permit and Deny, and a status code one '
     'of the standard ones; setting anything else is refused and leaves the '
     'old value. The predefined constants cannot be changed; two decisions '
     '(effects) are equal exactly if their values are, and comparison with a '
     'value outside the vocabulary is an error. The effect class of '
     'obligations behaves alike.',
     ['inputs', 'histories'], 'arbitrary strings and values of 8 other kinds, '
     'sequences of assignments',
     'Tests set a few valid values.',
     [X + 'core/context/result.py', X + 'core/rule.py',
      X + 'core/obligation.py'],
     [('Decision', X + 'core/context/result.py'),
      ('Effect', X + 'core/rule.py')], ['Decision.value', 'Effect.value'])
prop('C19', 'Typed values and containers never hold a foreign type',
     'An attribute value holds only content of its data type\'s native type. '
     'A typed list accepts elements of its type only, and a unique list '
     'leaves out an element equal to one it holds, when they are built, '
     'appended to, extended (by a list, tuple or iterator, by method or +=), '
     'inserted into and, for typed lists, assigned items or slices; a refused '
     'operation is a TypeError and changes nothing, and an accepted one adds '
     'every element given, in order. The typed attributes of policy and '
     'request objects refuse values of other types and keep their value; the '
     'lists of parts of these objects take parts of their kind only.',
     ['inputs', 'histories'], 'sequences of 2 (typed) and 3 (unique) '
     'operations with 0..2 elements of up to 7 types; 15 data types with '
     'values of 12 kinds; 40 typed attributes and 16 lists with values of 42 '
     'kinds',
     'Tests append a few elements.',
     [X + 'utils/__init__.py', X + 'core/attributevalue.py', X + 'core/'],
     [('TypedList', X + 'utils/__init__.py'),
      ('UniqList', X + 'utils/__init__.py'),
      ('AttributeValue.value', X + 'core/attributevalue.py')],
     ['TypedList', 'UniqList', 'AttributeValue.value'])
prop('C20', 'A parsed policy says what the document says',
     'Parsing a policy or policy set document (from a file name, a file '
     'object or an element) yields exactly its content: identifiers, version '
     '(2.0 if none is given), description, combining algorithms, targets, '
     'rules with their effects, conditions and nested expressions, attribute '
     'designators and selectors with their flags and issuers, and non-empty '
     'text values of string-like data types, in document order, with nothing '
     'dropped, duplicated, reordered or made up; comments and processing '
     'instructions change nothing.',
     ['inputs', 'programs'], 'documents of the supported elements with every '
     'number of children 0..2 (3), every optional part present or absent, '
     'comments in between, and arbitrary attribute values and text; up to 11 '
     '(thorough 40) parts of one kind, or as deep nesting, of which any one '
     'is arbitrary; the '
     'document is an element tree (the XML parser itself is trusted)',
     'Tests parse some twenty documents and look at few of their parts.',
     [X + 'parsers/etree/'],
     [('readers', X + 'parsers/etree/*reader.py')],
     ['Policy.fromSource', 'PolicySet.fromSource', 'PDP.fromPolicySource'])
prop('C21', 'A malformed or unsupported policy is refused when parsed',
     'A document is refused with an error, and never yields a policy in which '
     'the offending part is silently missing, if it lacks a required '
     'attribute or element (including the value or the designator or selector '
     'of a match), has an element in a place where the readers do not expect '
     'it, has a second target, condition or designator where one is allowed, '
     'has an effect, MustBePresent flag, function, data type or combining '
     'algorithm that is not one of those supported, has no text or elements '
     'in a value, or repeats a rule or policy identifier.',
     ['inputs', 'programs'], 'the documents of C20 with one part removed, '
     'repeated, renamed or added, or with arbitrary text in its place',
     'Tests parse few malformed documents.',
     [X + 'parsers/etree/', X + 'core/policybase.py'],
     [('readers', X + 'parsers/etree/*reader.py')],
     ['Policy.fromSource', 'PolicySet.fromSource'],
     note='A second AttributeValue in a match is accepted (the last counts): '
          'a document of the repository\'s own tests depends on it')
prop('C22', 'Policy references resolve to the one policy they name',
     'A policy set that refers to other policies holds, at the place of each '
     'reference, exactly the policy or policy set of the kind and with the '
     'identifier referred to, in document order among the inline ones: one '
     'that comes earlier in the document, wherever it is nested, or else the '
     'one at the address the reference leads to (absolute URLs and paths as '
     'they are, others below the configured base, by default the folder of '
     'the policy file), fetched once. A reference that leads nowhere, to a '
     'document with another identifier or kind, or to no policy is an error.',
     ['inputs', 'configurations'], 'sets of 2 policies and a reference with '
     'arbitrary identifiers in 4 arrangements, of up to 9 with references to '
     'all of them; 10 forms of address with '
     'arbitrary text, 3 bases; chains of 2 documents',
     'Tests resolve a few fixed references.',
     [X + 'finder/', X + 'parsers/etree/policysetreader.py'],
     [('LocalPolicyFinder', X + 'finder/localpolicyfinder.py'),
      ('UrlPolicyFinder', X + 'finder/urlpolicyfinder.py')],
     ['PolicySet.fromSource', 'PDP.fromPolicySource'])
prop('C23', 'Requests and responses survive conversion to XML and back',
     'A request converted to an XML element and read back is the same: every '
     'subject with its category, resource with its content, action and '
     'environment, with all attributes in order, their identifiers, data '
     'types, issuers and values (of string-like data types), whatever texts '
     'these are. So is a response: every result with its decision and its '
     'resource identifier, however the result was made. The element is the '
     'one the specification asks for, in its namespace. Reading disregards '
     'comments and the order of categories; it refuses documents with '
     'another root, unknown children of the request, response or result, '
     'attributes without identifier, data type or value or with an unknown '
     'data type, and any decision but the four.',
     ['inputs'], 'requests of 0..2 subjects or resources, 0..2 attributes of '
     '1..2 values in one category, any texts, or up to 17 of them of which any '
     'one is arbitrary; responses of 0..2 results',
     'Tests convert a request or two and print them.',
     [X + 'parsers/etree/context.py', X + 'core/context/result.py'],
     [('*ElementTree', X + 'parsers/etree/context.py'),
      ('createInitialised', X + 'core/context/result.py')],
     ['RequestElementTree', 'ResponseElementTree'])
prop('C24', 'Fetching a URL follows no_proxy and never hides an error',
     'Fetching a URL asks for exactly that URL, once, and gives what was '
     'answered, unchanged. The connection goes past every proxy exactly if '
     'the URL\'s host is one of the comma-separated names in the no_proxy '
     'environment variable (compared as a whole, with the blanks around an '
     'entry ignored); other URLs are left to the default proxy handling. An '
     'HTTP or other error is raised and never taken for an answer.',
     ['inputs', 'configurations'], 'hosts of 1..4 and exclusion lists of 0..2 '
     'entries of 0..4 lower-case characters, 5 forms of URL, 3 entry points',
     'Tests fetch nothing.',
     [X + 'utils/urlfetcher.py'],
     [('_should_use_proxy', X + 'utils/urlfetcher.py'),
      ('open_url', X + 'utils/urlfetcher.py')],
     ['fetch_stream_from_url', 'fetch_data_from_url', 'open_url'])
prop('C25', 'Vetted and restricted dictionaries admit only vetted entries',
     'A vetted dictionary holds an entry only if both its filters admit it, '
     'and a dictionary with fixed key names only those keys, whichever '
     'operation writes; what was admitted is found again by every way of '
     'looking it up and in insertion order, and looking up anything else is a '
     'key error or the default given. The registries built on them (attribute '
     'value classes, functions, readers) accept exactly keys and classes of '
     'their kind, and registering one leaves all others as they were.',
     ['inputs', 'histories'], 'sequences of 2 operations of 13 (10) kinds '
     'with arbitrary keys and values; 4 registries with keys and values of '
     '6 and 7 kinds', 'Tests insert a few entries.',
     [X + 'utils/__init__.py', X + 'core/attributevalue.py',
      X + 'core/functions/__init__.py', X + 'parsers/etree/factory.py',
      X + 'parsers/etree/attributevaluereader.py'],
     [('VettedDict', X + 'utils/__init__.py'),
      ('RestrictedKeyNamesDict', X + 'utils/__init__.py')],
     ['VettedDict', 'RestrictedKeyNamesDict'])
prop('C26', 'What is pickled or copied comes back the same',
     'Requests (also those read from XML), responses, results with status and '
     'obligation, attribute values of every type, decisions, effects and the '
     'typed and unique lists come back from pickling and from deep copying '
     'with all of their content, still enforcing their types and, where they '
     'were read only, still read only, and independent of the original. A '
     'deep copy of a policy has all its content and decides every request as '
     'its document says; pickling a policy either fails or yields the same '
     'policy.',
     ['inputs'], 'the objects of C05 and C20 with arbitrary contents; '
     'pickle protocols 0, 2 and 5 and deepcopy',
     'Tests pickle one empty object of a few classes.',
     [X + 'core/__init__.py', X + 'core/attributevalue.py',
      X + 'core/attribute.py', X + 'core/context/', X + 'utils/__init__.py'],
     [('__getstate__/__setstate__', X + 'core/__init__.py'),
      ('TypedList.__reduce__', X + 'utils/__init__.py')], ['pickle'])

prop('C27', 'Attribute selectors retrieve just what their path selects',
     'An attribute selector yields the texts of exactly those elements of the '
     "request that its path names, in document order and as values of the "
     'declared data type, however the document looks: elements of another '
     'name, namespace, position or attribute value, or elsewhere, never '
     'count. It reads the request as it is when evaluated, and no other '
     'request, and leaves it unchanged; an element without text never counts '
     'as a value; a path that cannot be evaluated is an error, so that the '
     'rule is Indeterminate. A match over a selector holds iff some selected '
     'text satisfies it.',
     ['inputs', 'histories'], '17 paths of child and descendant steps with '
     'attribute and position predicates, 0..2 records with arbitrary texts '
     'and attributes; 5 histories of 3 evaluations',
     'Tests evaluate six paths over fixed documents.',
     [X + 'core/attributeselector.py', X + 'utils/xpath_selector.py',
      X + 'core/context/request.py'],
     [('AttributeSelector.evaluate', X + 'core/attributeselector.py'),
      ('EtreeXPathSelector.selectText', X + 'utils/xpath_selector.py')],
     ['AttributeSelector.evaluate', 'PDP.evaluate'],
     note='The path language is that of the standard library, and with lxml '
     'also paths to text() and attributes.')

prop('C28', 'Data types, readers and functions an application adds are used',
     'After an application has added an attribute value class and a reader '
     'for a data type identifier, values and designators of that type in the '
     'policies read afterwards are of that class, with the content as its '
     'reader reads it, and every other identifier behaves as before. Adding a '
     'class without leave to overwrite keeps the class an identifier already '
     'has. An identifier that is not text, or what is not an attribute value '
     'class or a reader class, is refused with TypeError, and nothing '
     'changes. Two values of an added type are equal exactly if their '
     'contents are, also when the class computes its value, so that matches, '
     'equality, set and one-and-only functions over the type and information '
     'points supplying it decide as the contents say. A document that uses a '
     'type without a class or reader, or a value that its reader refuses, is '
     'refused.',
     ['inputs', 'histories', 'configurations'], 'histories of 1..2 (thorough '
     '3) additions and one look-up, of arbitrary texts of up to 80 '
     'characters or over 5 identifiers; 0..2 values of arbitrary contents in '
     'the request, 1..2 in the policy; 7 kinds of class, key and reader',
     'Tests add one type and evaluate one policy with it.',
     [X + 'core/attributevalue.py', X + 'parsers/etree/attributevaluereader.py',
      X + 'parsers/etree/factory.py', X + 'core/attributedesignator.py'],
     [('AttributeValueClassFactory.addClass', X + 'core/attributevalue.py'),
      ('DataTypeReaderClassFactory', X +
       'parsers/etree/attributevaluereader.py'),
      ('ReaderFactory.addReader', X + 'parsers/etree/factory.py')],
     ['AttributeValueClassFactory.addClass',
      'DataTypeReaderClassFactory.addReader', 'PDP.evaluate'],
     state=[('class table', 'identifier to class, one per process',
             X + 'core/attributevalue.py')])

exec(open(os.path.join(HERE, 'tools', 'overrides.py')).read()) \
    if os.path.exists(os.path.join(HERE, 'tools', 'overrides.py')) else None

LEVEL_NOTE = ('Every path of the real Python code under the harness is '
              'executed on symbolic inputs and each assertion is decided by '
              'z3 for all values within the bounds given in the evidence. '
              'Trusted: the value proxies of symx (validated on every run by '
              'replaying solver models on the plain code), z3, CPython. ')


def done(pid):
    return os.path.exists(os.path.join(HERE, 'harness', pid.lower() + '.py'))


with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=p['files'],
                 mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                 observe_at=p['observe'], hook_needed=None)
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=w)
                          for n, m, w in p['state']]
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'], anchors=a)) + '\n')
        assert len(p['title']) <= 80, p['title']

checks, na = [], []
for p in P:
    if p['claimed'] and done(p['id']):
        checks.append(dict(
            property=p['id'],
            quick_cmd='python3-vt check.py %s quick' % p['id'],
            thorough_cmd='python3-vt check.py %s thorough' % p['id'],
            technique='symbolic execution of the real Python code, decided '
                      'by z3',
            level='model_checking',
            level_note=LEVEL_NOTE + 'Bounds: ' + p['text'] + '.' +
            (' ' + p['note'] if p['note'] else '')))
    else:
        na.append(dict(property=p['id'], reason=p['reason'] or
                       'check not built yet'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"',
               checks=checks, not_applicable=na,
               notes='See DESIGN.md. tools/gen.py writes this file and '
                     'properties.jsonl.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
