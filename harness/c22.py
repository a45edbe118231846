"""C22 policy references resolve to the one policy they name."""
import contextlib

from harness.c20 import *

ASSUMPTIONS = [
    'fetching a URL is replaced by a stand-in that records the URL and '
    'returns a document of the harness (the default finder reads real files)',
    'relative references do not begin with a slash after the file://. prefix']


@contextlib.contextmanager
def web(ctx, serve):
    """``serve(url)`` in place of the network and the file system."""
    import ndg.xacml.utils.urlfetcher as u
    log = []

    def fetch(url, *a, **k):
        log.append(url)
        return serve(url)
    saved = u.fetch_stream_from_url, u.open_url
    u.fetch_stream_from_url = u.open_url = fetch
    try:
        yield log
    finally:
        u.fetch_stream_from_url, u.open_url = saved


def read(ctx, node, finder, entry='pdp'):
    from ndg.xacml.core.context.pdp import PDP
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    if entry == 'pdp':
        return ctx.call(lambda: PDP.fromPolicySource(
            to_element(node), ReaderFactory, finder).policy)
    return ctx.call(PolicySet.fromSource, to_element(node), ReaderFactory,
                    finder)


def reading(ctx, node, obj, lookup):
    r = Reading(ctx, lookup)
    r.policy(node, obj)
    r.done()


def make(kind, ident, effect='Permit'):
    if kind == 'Policy':
        return policy_el(ident, 'deny-overrides', [rule_el('r', effect)])
    return policyset_el(ident, 'deny-overrides', [])


# ------------------------------------------ policies of the same document
def local(ctx, finder, shapes):
    """A reference among policies whose identifiers are arbitrary."""
    from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    shape = ctx.choice('shape', shapes)
    ref_kind = ctx.choice('ref-kind', ['Policy', 'PolicySet'])
    kinds = [ctx.choice('kind%d' % i, ['Policy', 'PolicySet'])
             for i in range(2)]
    ids = [ctx.str('id%d' % i) for i in range(2)]
    effects = [ctx.str('effect%d' % i, domain=[PERMIT, DENY])
               for i in range(2)]
    ref = ctx.str('reference')
    for i in ids + [ref]:
        ctx.assume(Not(In(i, ('top', 'mid'))))
    ctx.assume(Not(Eq(*ids)))
    a, c = [make(k, i, e) for k, i, e in zip(kinds, ids, effects)]
    r = E(ref_kind + 'IdReference', text=ref)
    kids = {'after': [a, c, r], 'between': [a, r, c],
            'from-inner': [policyset_el('mid', 'deny-overrides', [a]), r, c],
            'to-outer': [a, policyset_el('mid', 'deny-overrides', [r]), c],
            }[shape]
    node = policyset_el('top', 'first-applicable', kids)
    fnd = LocalPolicyFinder() if finder == 'local' else \
        UrlPolicyFinder('/base')

    def nothing(url):
        raise IOError('no document')
    with web(ctx, nothing):
        out = read(ctx, node, fnd, ctx.choice('entry', ['pdp', 'set']))
    earlier = [a, c] if shape == 'after' else [a]
    known = [And(Eq(n.tag, ref_kind), Eq(ref, i))
             for n, i in zip([a, c], ids)]
    ctx.observe('outcome', out.exc_name)
    ctx.check('resolved-if-written-above', Implies(
        Or(known[:len(earlier)]), out.ok))
    ctx.check('refused-if-nowhere', Implies(out.ok, Or(known)))
    if out.ok:
        n = a if ctx.decide(known[0]) else c
        reading(ctx, node, out.value, lambda tag, t: n)
        parts = out.value.policies
        if shape in ('after', 'between'):
            where = {'after': (2, [0, 1]), 'between': (1, [0, 2])}[shape]
            same = [parts[where[0]] is parts[k] for k in where[1]]
            ctx.check('the-policy-itself', same == [n is a, n is c])


# --------------------------------------------------- policies at an address
PREFIXES = ['', '/', 'file://', 'file:///', 'file://./', 'http://',
            'https://', 'ftp://', './', 'urn:']
BASES = ['/base', '/base/', '/a b/c']


def address(prefix, rest, base):
    """Where a reference leads: absolute ones are taken as they are."""
    ref = Concat(prefix, rest) if prefix else rest
    below = base if base.endswith('/') else base + '/'
    if prefix in ('http://', 'https://', 'ftp://', 'file:///'):
        return ref
    if prefix == '/':
        return Concat('file://', ref)
    if prefix in ('file://', 'file://./'):
        return Concat('file://', below, rest)
    return Concat('file://', below, ref)


def fetched(ctx, prefixes, bases):
    """The document at the address holds an arbitrary identifier."""
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    prefix = ctx.choice('prefix', prefixes)
    base = ctx.choice('base', bases)
    rest = ctx.str('rest')
    if prefix == '':
        # has none of the other prefixes
        for p in PREFIXES[1:-1]:
            ctx.assume(Not(StartsWith(rest, p)))
    if prefix in ('file://', 'file://./'):
        for p in ('/', './'):
            ctx.assume(Not(StartsWith(rest, p)))
    ref = Concat(prefix, rest) if prefix else rest
    ref_kind = ctx.choice('ref-kind', ['Policy', 'PolicySet'])
    kind = ctx.choice('kind', ['Policy', 'PolicySet'])
    same = ctx.choice('identifier', ['the-same', 'another'])
    ident = ref if same == 'the-same' else ctx.str('other')
    ctx.assume(And(Not(Eq(ident, 'top')), Not(Eq(ref, 'top'))))
    doc = make(kind, ident, DENY)
    r = E(ref_kind + 'IdReference', text=ref)
    again = ctx.choice('again', [False, True])
    node = policyset_el('top', 'first-applicable', [
        make('Policy', 'top')] + [r] * (1 + again))
    with web(ctx, lambda url: to_element(doc)) as log:
        out = read(ctx, node, UrlPolicyFinder(base))
    want = address(prefix, rest, base)
    ctx.check('looked-up-where-it-leads', And(
        [len(log) >= 1] + [Eq(u, want) for u in log]))
    ctx.check('resolved-iff-named-so', Iff(out.ok, And(
        kind == ref_kind, Eq(ident, ref))))
    ctx.observe('outcome', out.exc_name)
    if out.ok:
        ctx.check('fetched-once', len(log) == 1)
        reading(ctx, node, out.value, lambda tag, t: doc)


def chain(ctx):
    """A fetched policy set that refers to further policies."""
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    shape = ctx.choice('shape', ['refer', 'inline', 'self'])
    if shape == 'self':         # concrete: the stack runs out
        a, c = 'outer', 'inner'
    else:
        a, c = ctx.str('a'), ctx.str('b')
    for i in (a, c):
        ctx.assume(And(Not(Eq(i, 'top')), Not(Contains(i, ':')),
                       Not(StartsWith(i, '/'))))
    ctx.assume(Not(Eq(a, c)))
    kinds = ctx.choice('kinds', [('PolicySet', 'Policy'),
                                 ('PolicySet', 'PolicySet')])
    inner = make(kinds[1], c, DENY)
    ref_c = E(kinds[1] + 'IdReference', text=c)
    outer = policyset_el(a, 'deny-overrides', {
        'refer': [ref_c], 'inline': [inner],
        'self': [E('PolicySetIdReference', text=a)]}[shape])
    node = policyset_el('top', 'first-applicable', [
        E('PolicySetIdReference', text=a)] +
        ([ref_c] if shape != 'self' else []))
    docs = [(Concat('file:///base/', a), outer),
            (Concat('file:///base/', c), inner)]

    def serve(url):
        for u, d in docs:
            if ctx.decide(Eq(url, u)):
                return to_element(d)
        raise IOError('no document')
    with web(ctx, serve) as log:
        out = read(ctx, node, UrlPolicyFinder('/base'))
    ctx.observe('outcome', out.exc_name)
    if shape == 'self':
        ctx.check('circle-is-refused', not out.ok)
        return
    ctx.check('resolved', out.ok)
    ctx.check('fetched-once-each', And(
        [len(log) == (2 if shape == 'refer' else 1)] +
        [Eq(u, d[0]) for u, d in zip(log, docs)]))
    reading(ctx, node, out.value, lambda tag, t: (
        outer if t is a else inner))
    ctx.check('the-policy-itself',
              out.value.policies[0].policies[0] is out.value.policies[1])


def many(ctx, ns, finders):
    """Many policies and references to any of them, in any order; some of
    the policies far inside."""
    from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    n, (at,) = sparse(ctx, ns, 1)
    finder = ctx.choice('finder', finders)
    ident = ctx.str('id', minlen=1)
    ctx.assume(And(Not(Eq(ident, 'top')), Not(StartsWith(ident, 'urn:')),
                   Not(Contains(ident, ':')), Not(StartsWith(ident, '/'))))
    inside = ctx.choice('inside', ['flat', 'nested'])
    kinds = ['Policy' if i % 2 else 'PolicySet' for i in range(n)]
    ids = [ident if i == at else 'p%d' % i for i in range(n)]
    for i in ids:
        if i is not ident:
            ctx.assume(Not(Eq(ident, i)))
    pols = [make(k, i) for k, i in zip(kinds, ids)]
    refs = [E(k + 'IdReference', text=i) for k, i in zip(kinds, ids)]
    if finder == 'fetched':
        kids = [refs[at]] + refs[::-1] + [refs[at]]
    elif inside == 'flat':
        kids = pols + [refs[at]] + refs[::-1] + [refs[at]]
    else:
        inner = pols
        while len(inner) > 2:
            half = len(inner) // 2
            inner = [policyset_el('in%d-%s' % (len(inner), side),
                                  'deny-overrides', part) for side, part in
                     (('a', inner[:half]), ('b', inner[half:]))]
            ctx.assume(And([Not(Eq(ident, x.attrib['PolicySetId']))
                            for x in inner]))
        kids = inner + [refs[at]] + refs[::-1]
    node = policyset_el('top', 'first-applicable', kids)

    def serve(url):
        if finder == 'fetched':
            for i, p in zip(ids, pols):
                if ctx.decide(Eq(url, Concat('file:///base/', i))):
                    return to_element(p)
        raise IOError('no document')
    with web(ctx, serve) as log:
        out = read(ctx, node, LocalPolicyFinder() if finder == 'local' else
                   UrlPolicyFinder('/base'))
    ctx.observe('outcome', out.exc_name)
    ctx.check('resolved', out.ok)
    ctx.check('fetched-once-each', len(log) == (
        n if finder == 'fetched' else 0))
    by = dict(zip(map(id, ids), pols))
    reading(ctx, node, out.value, lambda tag, t: by[id(t)])


def two_documents(ctx):
    """Of documents read one after the other, none sees into another."""
    from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    kind = ctx.choice('kind', ['Policy', 'PolicySet'])
    finder = ctx.choice('finder', ['default', 'local', 'url'])
    first = ctx.choice('first', ['inline', 'nested', 'fetched', 'broken'])
    second = ctx.choice('second', ['reference', 'own', 'alone', 'fetched',
                                   'top'])
    if finder != 'url':
        ctx.assume(first != 'fetched' and second != 'fetched')
    entry = ctx.choice('entry', ['pdp', 'set'])
    a, c = ctx.str('a'), ctx.str('b')
    for i in (a, c):
        ctx.assume(And(Not(In(i, ('one', 'two', 'mid'))),
                       Not(Contains(i, ':')), Not(StartsWith(i, '/'))))
    pa = make(kind, a, PERMIT)
    pb = make(kind, c, DENY)
    ref_a = E(kind + 'IdReference', text=a)
    ref_b = E(kind + 'IdReference', text=c)
    one = policyset_el('one', 'first-applicable', {
        'inline': [pa, ref_a], 'fetched': [ref_a],
        'nested': [policyset_el('mid', 'deny-overrides', [pa]), ref_a],
        'broken': [pa, rule_el('r', PERMIT)]}[first])
    two = policyset_el('one' if second == 'top' else 'two',
                       'first-applicable', {
                           'reference': [ref_b], 'own': [pb, ref_b],
                           'alone': [pb], 'fetched': [ref_b],
                           'top': [pb, ref_b]}[second])

    def new():
        return {'default': lambda: None, 'local': LocalPolicyFinder,
                'url': lambda: UrlPolicyFinder('/base')}[finder]()
    served = []

    def serve(url):
        if served:
            return to_element(served[0])
        raise IOError('no document')
    with web(ctx, serve) as log:
        if first == 'fetched':
            served.append(pa)
        out = read(ctx, one, new(), entry)
        ctx.check('first-read', out.ok == (first != 'broken'))
        del served[:], log[:]
        if second == 'fetched':
            served.append(pb)
        again = read(ctx, two, new(), entry)
        ctx.observe('second', again.exc_name)
        if second == 'reference':
            ctx.check('unknown-in-this-document', not again.ok)
        else:
            ctx.check('second-read', again.ok)
            ctx.check('fetched-once-each',
                      len(log) == (second == 'fetched'))
    if again.ok and second != 'reference':
        reading(ctx, two, again.value, lambda tag, t: pb)
    if out.ok:
        reading(ctx, one, out.value, lambda tag, t: pa)


def unreachable(ctx):
    """What the address has is no policy of any kind."""
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    ref = ctx.str('reference')
    ctx.assume(Not(Eq(ref, 'top')))
    what = ctx.choice('what', ['error', 'other', 'none', 'broken'])
    kind = ctx.choice('kind', ['Policy', 'PolicySet'])

    def serve(url):
        if what == 'error':
            raise IOError('no document')
        if what == 'none':
            return None
        if what == 'other':
            return to_element(rule_el(ref, 'Permit'))
        doc = make(kind, ref)
        doc.children.append(E('Obligations'))
        return to_element(doc)
    node = policyset_el('top', 'first-applicable', [
        E(kind + 'IdReference', text=ref)])
    with web(ctx, serve):
        out = read(ctx, node, UrlPolicyFinder('/base'))
    ctx.observe('outcome', out.exc_name)
    ctx.check('refused', not out.ok)


def no_base(ctx):
    """Without a base, only absolute references can lead anywhere."""
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    prefix = ctx.choice('prefix', PREFIXES[1:-2] + ['plain', 'file://x'])
    rest = ctx.str('rest')
    ref = Concat(prefix, rest)
    node = policyset_el('top', 'first-applicable', [
        E('PolicyIdReference', text=ref)])
    with web(ctx, lambda url: to_element(make('Policy', ref))) as log:
        out = read(ctx, node, UrlPolicyFinder(None))
    ctx.observe('outcome', out.exc_name)
    if prefix in ('file://./', 'plain', 'file://x'):
        ctx.check('relative-refused', And(not out.ok, len(log) == 0))
    elif prefix == 'file://':
        ctx.check('relative-refused', Iff(out.ok, StartsWith(rest, '/')))
    else:
        ctx.check('absolute-taken-as-it-is', And(
            [out.ok] + [Eq(u, address(prefix, rest, '/')) for u in log]))


def default_base(ctx):
    """References in a file lead to the folder it is in."""
    from ndg.xacml.core.context.pdp import PDP
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    how = ctx.choice('how', ['absolute', 'relative', 'name', 'dotted',
                             'file', 'file-relative'])
    entry = ctx.choice('entry', ['pdp', 'set'])
    name = 'policy_set_url_references.xml'
    cwd = os.getcwd()
    try:
        os.chdir(os.path.join(TESTS, 'context') if how == 'dotted' else
                 os.path.dirname(TESTS) if 'relative' in how else TESTS)
        path = {'absolute': os.path.join(TESTS, name), 'name': name,
                'relative': os.path.join('test', name),
                'dotted': os.path.join('..', name),
                'file': os.path.join(TESTS, name),
                'file-relative': os.path.join('test', name)}[how]
        src = open(path) if how.startswith('file') else path
        if entry == 'pdp':
            out = ctx.call(lambda: PDP.fromPolicySource(
                src, ReaderFactory).policy)
        else:
            out = ctx.call(PolicySet.fromSource, src, ReaderFactory)
    finally:
        os.chdir(cwd)
    ctx.observe('outcome', out.exc_name)
    ctx.check('resolved', out.ok)
    node = from_file(os.path.join(TESTS, name))
    inner = from_file(os.path.join(
        TESTS, 'urn:ndg:security:1.0:authz:test:policy-set-2'))
    for n in nodes_of(node) + nodes_of(inner):
        if n.tag == 'Description':
            n.stripped = (n.text or '').strip()
    reading(ctx, node, out.value, index(node, inner))


def nodes_of(node):
    return [node] + [d for c in node.children for d in nodes_of(c)]


HARNESSES = [
    Harness('local', local, 'a policy set of two policies or sets with any '
            'identifiers and a reference of any text, 4 places',
            params=dict(finder='local', shapes=[
                'after', 'between', 'from-inner', 'to-outer']),
            must_reach=('resolved-if-written-above', 'policies')),
    Harness('local-by-url-finder', local, 'the same with the finder that '
            'fetches, and nothing to be fetched', params=dict(
                finder='url', shapes=['after', 'to-outer']),
            must_reach=('resolved-if-written-above', 'policies')),
    Harness('fetched', fetched, '10 forms of address with any text, 3 '
            'bases; the document has the same or any other identifier',
            params=dict(prefixes=PREFIXES, bases=BASES),
            must_reach=('resolved-iff-named-so', 'fetched-once')),
    Harness('many', many, '5 or 9 policies and references to all of them in '
            'another order, one identifier arbitrary; in the document, far '
            'inside it, or fetched', params=dict(
                ns=(5, 9), finders=['local', 'url', 'fetched']),
            must_reach=('resolved', 'fetched-once-each')),
    Harness('two-documents', two_documents, '2 documents with any '
            'identifiers read one after the other, 4 and 5 forms, 3 finders',
            must_reach=('unknown-in-this-document', 'second-read',
                        'policies')),
    Harness('chain', chain, 'a fetched set that refers to another document, '
            'has it inline, or refers to itself', must_reach=(
                'fetched-once-each', 'circle-is-refused')),
    Harness('unreachable', unreachable, 'errors and documents that are no '
            'policies, any reference', must_reach=('refused',)),
    Harness('no-base', no_base, 'no base, 10 forms of address with any text',
            must_reach=('relative-refused', 'absolute-taken-as-it-is')),
    Harness('default-base', default_base, 'a policy file given by 4 kinds of '
            'path or as 2 kinds of file object', must_reach=('resolved',)),
]
HARNESSES += [under_lxml(h) for h in HARNESSES if h.name in ('two-documents',)]
