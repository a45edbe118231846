"""C15 identifiers of combining algorithms and functions."""
from harness.funcs import *

ASSUMPTIONS = [
    'the import system knows the modules of the repository and no others '
    'below ndg (names it is given are case split over them)',
]
NS3 = 'urn:oasis:names:tc:xacml:3.0:function:'
#: what the implementation provides, written down from the standard's list
PROVIDED = {FN1 + 'and': None, FN1 + 'not': None, FN1 + 'round': None,
            FN1 + 'string-regexp-match': 'string',
            FN2 + 'string-concatenate': 'string',
            FN2 + 'url-string-concatenate': 'anyURI'}
for _t in EQUAL_TYPES + ['base64Binary']:
    PROVIDED[FN1 + _t + '-equal'] = _t
for _t in MATCH_TYPES:
    PROVIDED[FN1 + _t + '-match'] = _t
for _n, _t in REGEXP:
    PROVIDED[_n + _t + '-regexp-match'] = _t
for _t in BAG_TYPES + ['base64Binary']:
    for _s in ('-bag', '-one-and-only'):
        PROVIDED[FN1 + _t + _s] = _t
    PROVIDED[FN1 + _t + '-at-least-one-member-of'] = _t
SUFFIXES = ['equal', 'match', 'bag', 'one-and-only',
            'at-least-one-member-of', 'regexp-match', 'concatenate', 'and',
            'not', 'round']


def provided():
    """PROVIDED, less the names the implementation's own list leaves out."""
    return PROVIDED


def rule_alg(ctx, maxlen):
    from ndg.xacml.core.policy import Policy
    s = ctx.str('id', maxlen=maxlen)
    p = Policy()
    p.rules.append(make_rule(ctx, 'r', PERMIT, True, False))
    out = ctx.call(setattr, p, 'ruleCombiningAlgId', s)
    names = [RULE_ALG + n for n in RULE_ORACLES]
    ctx.observe('ok', out.ok)
    ctx.check('accepted-iff-provided', Iff(out.ok, Or([Eq(s, n)
                                                       for n in names])))
    if out.ok:
        ctx.check('kept', Eq(p.ruleCombiningAlgId, s))
        for i, fx in enumerate(((PERMIT, DENY), (DENY, PERMIT))):
            while len(p.rules):
                p.rules.pop()
            for e in fx:
                p.rules.append(make_rule(ctx, e, e, True, False))
            d = decision_value(ctx.call(p.evaluate, object()))
            ctx.check('the-algorithm-named', And([
                Implies(Eq(s, RULE_ALG + n),
                        Eq(d, f([(e, e) for e in fx])))
                for n, f in RULE_ORACLES.items()]))
    else:
        d = decision_value(ctx.call(p.evaluate, object()))
        ctx.check('refused-never-permits', Eq(d, IND))


def policy_alg(ctx, maxlen):
    from ndg.xacml.core.policyset import PolicySet
    s = ctx.str('id', maxlen=maxlen)
    p = PolicySet()
    p.policies.append(make_policy_stub(ctx, 'p', lambda c: PERMIT))
    out = ctx.call(setattr, p, 'policyCombiningAlgId', s)
    names = [POLICY_ALG + n for n in POLICY_ORACLES]
    ctx.observe('ok', out.ok)
    ctx.check('accepted-iff-provided', Iff(out.ok, Or([Eq(s, n)
                                                       for n in names])))
    if out.ok:
        ctx.check('kept', Eq(p.policyCombiningAlgId, s))
        for fx in ((PERMIT, DENY), (DENY, PERMIT), (IND, PERMIT)):
            while len(p.policies):
                p.policies.pop()
            for e in fx:
                p.policies.append(make_policy_stub(
                    ctx, e, lambda c, e=e: e))
            d = decision_value(ctx.call(p.evaluate, object()))
            ctx.check('the-algorithm-named', And([
                Implies(Eq(s, POLICY_ALG + n), Eq(d, f(list(fx))))
                for n, f in POLICY_ORACLES.items()]))
    else:
        d = decision_value(ctx.call(p.evaluate, object()))
        ctx.check('refused-never-permits', Eq(d, IND))


def alg_kinds(ctx):
    """Identifiers that are not strings."""
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.apply import Apply
    from ndg.xacml.core.match import SubjectMatch
    what = ctx.choice('what', ['policy', 'set', 'apply', 'match'])
    kind = ctx.choice('kind', ['none', 'int', 'bool', 'float', 'list',
                               'string', 'bytes'])
    bad = b'x' if kind == 'bytes' else argument(ctx, 'bad', kind)
    obj, attr = {'policy': (Policy(), 'ruleCombiningAlgId'),
                 'set': (PolicySet(), 'policyCombiningAlgId'),
                 'apply': (Apply(), 'functionId'),
                 'match': (SubjectMatch(), 'matchId')}[what]
    out = ctx.call(setattr, obj, attr, bad)
    ctx.observe('ok', out.ok)
    ctx.check('not-a-string-is-refused', not out.ok)


def holder(ctx, what):
    from ndg.xacml.core.apply import Apply
    import ndg.xacml.core.match as m
    if what == 'apply':
        return Apply(), 'functionId'
    return getattr(m, what + 'Match')(), 'matchId'


def accepts(ctx, what, ident, names):
    """Set the identifier; it must be accepted exactly if it is provided."""
    obj, attr = holder(ctx, what)
    out = ctx.call(setattr, obj, attr, ident)
    ctx.observe('ok', out.ok)
    ctx.check('accepted-iff-provided', Iff(out.ok, Or([Eq(ident, n)
                                                       for n in names])))
    if out.ok:
        ctx.check('kept', Eq(getattr(obj, attr), ident))
        ctx.check('has-a-function', obj.function is not None)
    else:
        from ndg.xacml.core.context.request import Request
        ev = ctx.call(obj.evaluate, Request())
        ctx.check('refused-never-evaluates', Or(
            not ev.ok, what != 'apply' and ev.ok and Not(b(ev.value))
            if ev.ok else True))
    return obj, out


def foreign_namespace(ctx, maxlen):
    """Any string that is not in one of the two namespaces."""
    what = ctx.choice('what', ['apply', 'Subject', 'Environment'])
    s = ctx.str('id', maxlen=maxlen)
    ctx.assume(Not(StartsWith(s, FN1)))
    ctx.assume(Not(StartsWith(s, FN2)))
    accepts(ctx, what, s, [])


ASCII = [(' ', '~')]


def in_namespace(ctx, maxlen, suffixes):
    """<namespace><any text>-<function suffix>"""
    what = ctx.choice('what', ['apply', 'Resource'])
    ns = ctx.choice('ns', [FN1, FN2])
    suf = ctx.choice('suffix', suffixes)
    t = ctx.str('type', maxlen=maxlen, vector=True, chars=ASCII)
    names = [n for n in provided() if n.startswith(ns)]
    accepts(ctx, what, Concat(ns, t, suf), names)


def near_miss(ctx, maxlen, suffixes):
    """The name of a data type with any text in place of a letter."""
    suf = ctx.choice('suffix', suffixes)
    typ = ctx.choice('type', ['string', 'anyURI', 'dnsName', 'ipAddress',
                              'x500Name', 'url-string', 'base64Binary',
                              'xpath-node', 'integer'])
    ns = ctx.choice('ns', [FN1, FN2])
    at = ctx.choice('at', [0, 3, len(typ) - 1, len(typ)])
    t = ctx.str('text', maxlen=maxlen, vector=True, chars=ASCII)
    names = [n for n in provided() if n.startswith(ns)]
    accepts(ctx, 'apply', Concat(ns, typ[:at], t, typ[at + 1:], '-' + suf),
            names)


def with_tail(ctx, maxlen):
    """A provided name followed by any other text is not provided."""
    base = ctx.choice('base', [
        FN1 + 'string-equal', FN1 + 'and', FN1 + 'x500Name-match',
        FN1 + 'string-regexp-match', FN2 + 'anyURI-regexp-match',
        FN2 + 'string-concatenate', FN1 + 'string-bag',
        FN1 + 'integer-one-and-only', FN1 + 'not'])
    tail = ctx.str('tail', minlen=1, maxlen=maxlen, vector=True, chars=ASCII)
    accepts(ctx, 'apply', Concat(base, tail), list(provided()))


def every_standard_name(ctx):
    """Every identifier of the standard's list: provided or refused, and the
    one provided is of the data type named."""
    from ndg.xacml.core.functions import XacmlFunctionNames
    ident = ctx.choice('id', list(XacmlFunctionNames.FUNCTION_NAMES) +
                       [FN2 + 'url-string-concatenate'])
    what = ctx.choice('what', ['apply', 'Action'])
    obj, out = accepts(ctx, what, ident, list(provided()))
    if not out.ok:
        return
    f = obj.function
    t = provided()[ident]
    name = ident.split(':')[-1]
    if t is None or t == 'base64Binary':
        return
    from ndg.xacml.utils import TypedList
    others = [u for u in TYPES if TYPE_OF[u] != TYPE_OF[t]]
    v = plain_value(t)

    def args(u):
        w = plain_value(u)
        bag = TypedList(attr_class(TYPE_OF[u]))
        bag.append(w)
        if name.endswith('-one-and-only'):
            return (bag,)
        if name.endswith('-bag'):
            return (w,)
        if name.endswith('-at-least-one-member-of'):
            return (bag, bag)
        if name == 'url-string-concatenate':
            return (w, plain_value('string'))
        return (w, w)
    good = ctx.call(f.evaluate, *args(t))
    ctx.check('takes-its-type', good.ok)
    if good.ok:
        r = good.value
        if name.endswith('-bag'):
            ok = isinstance(r, TypedList) and len(r) == 1
        elif name.endswith('-one-and-only'):
            ok = type(r) is type(v)
        elif name.endswith('-concatenate'):
            ok = type(r) is type(v) and r.value == 'xx'
        else:
            ok = IsBool(r) and r == True     # noqa: E712
        ctx.check('is-the-function-named', ok)
    for u in others:
        bad = ctx.call(f.evaluate, *args(u))
        ctx.check('takes-no-other-type', not bad.ok)


def sequences(ctx):
    """Which function an identifier gets does not depend on the ones asked
    for before."""
    from ndg.xacml.core.apply import Apply
    NAMES = [FN1 + 'string-equal', FN1 + 'anyURI-equal', FN2 +
             'anyURI-regexp-match', FN1 + 'string-regexp-match',
             FN1 + 'or', FN1 + 'String-equal', 'urn:x', FN1 + 'string-bag']
    n1 = ctx.choice('first', NAMES)
    n2 = ctx.choice('second', NAMES)
    from ndg.xacml.core.functions import FunctionMap
    fm = FunctionMap() if ctx.choice('fresh', [False, True]) else None

    def get(name):
        a = Apply()
        if fm is not None:
            a.loadFunctionFromId = False
            a.functionId = name
            out = ctx.call(a.setFunctionFromMap, fm)
        else:
            out = ctx.call(setattr, a, 'functionId', name)
        return a, out
    for name in (n1, n2, n1):
        a, out = get(name)
        ctx.check('accepted-iff-provided', out.ok == (name in provided()))
        if out.ok and not name.endswith('-bag'):
            t = provided()[name]
            v = plain_value(t)
            r = ctx.call(a.function.evaluate, v, v)
            o = plain_value('integer')
            bad = ctx.call(a.function.evaluate, o, o)
            ctx.check('its-own-type', r.ok and r.value and not bad.ok)


def reassigned(ctx):
    """A valid identifier replaces the function of the one before."""
    from ndg.xacml.core.apply import Apply
    what = ctx.choice('what', ['apply', 'Subject'])
    obj, attr = holder(ctx, what)
    t1 = ctx.choice('first', ['string', 'anyURI', 'integer'])
    t2 = ctx.choice('second', ['string', 'anyURI', 'integer'])
    setattr(obj, attr, FN1 + t1 + '-equal')
    setattr(obj, attr, FN1 + t2 + '-equal')
    v, w = plain_value(t1), plain_value(t2)
    r = ctx.call(obj.function.evaluate, w, w)
    ctx.check('the-last-one', r.ok and r.value)
    if t1 != t2:
        r = ctx.call(obj.function.evaluate, v, v)
        ctx.check('not-the-former', not r.ok)


def custom(ctx, maxlen):
    """load_custom_function: any name but a standard one."""
    from ndg.xacml.core.functions import (FunctionMap, AbstractFunction,
                                          XacmlFunctionNames)
    from ndg.xacml.core.apply import Apply
    how = ctx.choice('name', ['any', 'near', 'standard'])
    if how == 'any':
        name = ctx.str('id', maxlen=maxlen)
        std = Or([Eq(name, n) for n in XacmlFunctionNames.FUNCTION_NAMES])
    elif how == 'near':
        name = Concat(FN1 + 'string-', ctx.str('id', maxlen=2, vector=True,
                                                 chars=ASCII))
        std = Or([Eq(name, n) for n in XacmlFunctionNames.FUNCTION_NAMES])
    else:
        name = ctx.choice('std', [
            FN1 + 'string-equal', FN1 + 'or', FN1 + 'and',
            FN2 + 'anyURI-regexp-match', FN1 + 'string-bag',
            FN1 + 'x500Name-match', FN2 + 'time-in-range'])
        std = True
    gives = ctx.choice('gives', ['class', 'none', 'not-a-function'])
    loaded = ctx.choice('loaded', [False, True])

    class Custom(AbstractFunction):
        FUNCTION_NS = 'urn:custom'

        def evaluate(self, *args):
            return 'custom'

    def factory(ident):
        return {'class': Custom, 'none': None,
                'not-a-function': dict}[gives]
    fm = FunctionMap()
    before = None
    if loaded and how == 'standard':
        before = ctx.call(fm.get, name).value
    out = ctx.call(fm.load_custom_function, name, factory)
    ctx.observe('ok', out.ok)
    ctx.check('registered-iff-not-standard', Iff(
        out.ok, And(Not(std), gives == 'class')))
    a = Apply()
    a.loadFunctionFromId = False
    a.functionId = name
    got = ctx.call(a.setFunctionFromMap, fm)
    if out.ok:
        ctx.check('gets-the-custom-one', got.ok and
                  isinstance(a.function, Custom))
    else:
        ctx.check('never-the-custom-one', not isinstance(a.function, Custom))
        if how == 'standard':
            ctx.check('standard-ones-kept', got.ok == (name in provided()))


def own_map(ctx):
    """A map of one's own, and functions loaded on request only."""
    from ndg.xacml.core.functions import (FunctionMap, AbstractFunction,
                                          functionMap)
    from ndg.xacml.core.context.request import Request
    what = ctx.choice('what', ['apply', 'Subject', 'Resource', 'Action',
                               'Environment'])
    obj, attr = holder(ctx, what)

    class Custom(AbstractFunction):
        FUNCTION_NS = 'urn:custom'

        def evaluate(self, *args):
            return True
    fm = FunctionMap()
    fm['urn:custom'] = Custom
    own = ctx.choice('own', [True, False])
    if own:
        out = ctx.call(setattr, obj, 'functionMap', fm)
        ctx.check('set', out.ok and obj.functionMap is fm)
    bad = ctx.choice('bad', ['none', 'dict', 'class', 'text', None])
    if bad:
        out = ctx.call(setattr, obj, 'functionMap', {
            'none': None, 'dict': {'urn:custom': Custom},
            'class': FunctionMap, 'text': 'urn:custom'}[bad])
        ctx.check('refuses-other-maps', out.raised(TypeError))
        ctx.check('keeps-its-map', obj.functionMap is (
            fm if own else functionMap))
    loads = ctx.choice('loads', [True, False])
    ctx.check('flag-set', ctx.call(setattr, obj, 'loadFunctionFromId',
                                   loads).ok)
    for v in (None, 0, 'no'):
        out = ctx.call(setattr, obj, 'loadFunctionFromId', v)
        ctx.check('flag-refuses-others', out.raised(TypeError) and
                  obj.loadFunctionFromId is loads)
    name = ctx.choice('name', [FN1 + 'string-equal', 'urn:custom',
                               FN1 + 'or', 'urn:other'])
    out = ctx.call(setattr, obj, attr, name)
    ctx.observe('ok', out.ok)

    def there(m):
        return name == FN1 + 'string-equal' or (m is fm and
                                                name == 'urn:custom')
    mine = fm if own else functionMap
    if loads:
        ctx.check('from-its-map', out.ok == there(mine))
    else:
        ctx.check('not-loaded', out.ok and obj.function is None)
        if what == 'apply':
            ctx.check('no-function-no-answer',
                      not ctx.call(obj.evaluate, Request()).ok)
        second = ctx.choice('from', ['own', 'shared'])
        m = fm if second == 'own' else functionMap
        out = ctx.call(obj.setFunctionFromMap, m)
        ctx.check('from-the-map-given', out.ok == there(m))
    if out.ok:
        ctx.check('the-function-named',
                  isinstance(obj.function, Custom) == (name == 'urn:custom')
                  and obj.function is not None)
        ctx.check('kept', getattr(obj, attr) == name)
    else:
        ctx.check('no-function', obj.function is None)
    # what one map holds does not show in the other, nor in other objects
    ctx.check('shared-map-as-it-was', 'urn:custom' not in functionMap)
    other, oattr = holder(ctx, what)
    ctx.check('others-as-they-were', other.functionMap is functionMap and
              other.loadFunctionFromId is True and
              not ctx.call(setattr, other, oattr, 'urn:custom').ok)


warm_up = load_all

HARNESSES = [
    Harness('rule-algorithm', rule_alg, 'any string up to 90',
            params=dict(maxlen=90), must_reach=(
                'the-algorithm-named', 'refused-never-permits')),
    Harness('policy-algorithm', policy_alg, 'any string up to 90',
            params=dict(maxlen=90), must_reach=(
                'the-algorithm-named', 'refused-never-permits')),
    Harness('not-strings', alg_kinds, '7 other kinds of value',
            must_reach=('not-a-string-is-refused',)),
    Harness('foreign-namespace', foreign_namespace, 'any string up to 80 '
            'outside the two namespaces', params=dict(maxlen=80),
            must_reach=('refused-never-evaluates',)),
    Harness('in-namespace', in_namespace, 'namespace, any ASCII text up to '
            '1, and each of 17 function names with and without hyphen',
            params=dict(maxlen=1, suffixes=SUFFIXES + ['-' + x for x in
                                                       SUFFIXES[:7]]),
            must_reach=('accepted-iff-provided',)),
    Harness('near-miss', near_miss, '9 data types with one letter replaced '
            'by any ASCII text up to 1, each of 7 function names',
            params=dict(maxlen=1, suffixes=SUFFIXES[:7]),
            must_reach=('accepted-iff-provided', 'kept')),
    Harness('with-tail', with_tail, '9 names with any ASCII tail up to 2',
            params=dict(maxlen=2), must_reach=('accepted-iff-provided',)),
    Harness('in-namespace-deep', in_namespace, 'any ASCII text up to 3',
            params=dict(maxlen=3, suffixes=SUFFIXES + ['-' + x for x in
                                                       SUFFIXES[:7]]),
            must_reach=('accepted-iff-provided',), thorough_only=True),
    Harness('near-miss-deep', near_miss, 'any ASCII text up to 2',
            params=dict(maxlen=2, suffixes=SUFFIXES[:7]),
            must_reach=('accepted-iff-provided',), thorough_only=True),
    Harness('standard-names', every_standard_name, 'all names of the standard\'s list',
            must_reach=('takes-no-other-type', 'is-the-function-named',
                        'refused-never-evaluates')),
    Harness('sequences', sequences, '8 names, three look-ups, shared and '
            'fresh maps', must_reach=('accepted-iff-provided',
                                      'its-own-type')),
    Harness('reassigned', reassigned, '3 names', must_reach=(
        'the-last-one', 'not-the-former')),
    Harness('own-map', own_map, '5 kinds of holders, 4 names, own and shared '
            'maps, loading on and off', must_reach=(
                'from-its-map', 'from-the-map-given', 'refuses-other-maps',
                'others-as-they-were')),
    Harness('custom', custom, 'any name up to 20; names near the standard '
            'ones; 7 standard names', params=dict(maxlen=20), must_reach=(
                'registered-iff-not-standard', 'gets-the-custom-one',
                'standard-ones-kept')),
]
