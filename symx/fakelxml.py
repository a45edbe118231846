"""A stand-in for lxml.etree in plain Python, so that the repository's lxml
branches run on symbolic texts.

lxml itself is compiled code: it can hold no symbolic value.  What the
repository uses of it is modelled here: elements that know their parent (so
appending one moves it), namespace maps, comments, XPath by ETXPath, and
serialisation of an element, its tail included.  Explored paths and
counterexamples are run again on the real lxml.
"""
import re
import sys
import types
from xml.etree import ElementPath, ElementTree as _ET


class Error(Exception):
    pass


class LxmlError(Error):
    pass


class LxmlSyntaxError(LxmlError, SyntaxError):
    pass


class XMLSyntaxError(LxmlSyntaxError):
    pass


ParseError = XMLSyntaxError


class XPathError(LxmlError):
    pass


class XPathSyntaxError(LxmlSyntaxError, XPathError):
    pass


class XPathEvalError(XPathError):
    pass


QName = _ET.QName


class _Element(object):
    def __init__(self, tag, attrib=None, nsmap=None, **extra):
        self.tag, self.attrib = str(tag), dict(attrib or {}, **extra)
        self.text = self.tail = None
        self._own = dict(nsmap or {})
        self._parent, self._children = None, []

    @property
    def nsmap(self):
        d = dict(self._parent.nsmap) if self._parent is not None else {}
        d.update(self._own)
        return d

    def getparent(self):
        return self._parent

    # -- children
    def _take(self, e):
        if not isinstance(e, _Element):
            raise TypeError('Argument has incorrect type')
        if e._parent is not None:
            e._parent._children.remove(e)
        e._parent = self
        return e

    def append(self, e):
        self._children.append(self._take(e))

    def insert(self, i, e):
        self._take(e)
        self._children.insert(i, e)

    def extend(self, es):
        for e in list(es):
            self.append(e)

    def remove(self, e):
        self._children.remove(e)
        e._parent = None

    def __delitem__(self, i):
        for e in (self._children[i] if isinstance(i, slice)
                  else [self._children[i]]):
            e._parent = None
        del self._children[i]

    def __setitem__(self, i, e):
        old = self._children[i]
        self._take(e)
        i = self._children.index(old)
        old._parent = None
        self._children[i] = e

    def __len__(self):
        return len(self._children)

    def __iter__(self):
        return iter(list(self._children))

    def __getitem__(self, i):
        return self._children[i]

    def getchildren(self):
        return list(self._children)

    def index(self, e):
        return self._children.index(e)

    def __bool__(self):
        return bool(self._children)

    # -- attributes
    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def set(self, k, v):
        if not isinstance(v, str):
            raise TypeError('Argument must be bytes or unicode')
        self.attrib[k] = v

    def keys(self):
        return list(self.attrib)

    def items(self):
        return list(self.attrib.items())

    # -- searching
    def iter(self, *tags):
        if not tags or tags == (None,) or self.tag in tags or (
                '*' in tags and isinstance(self.tag, str)):
            yield self
        for c in list(self._children):
            for x in c.iter(*tags):
                yield x

    def iterchildren(self):
        return iter(list(self._children))

    def itertext(self):
        if self.text is not None:
            yield self.text
        for c in self._children:
            if isinstance(c.tag, str):
                for x in c.itertext():
                    yield x
            if c.tail is not None:
                yield c.tail

    def find(self, path, namespaces=None):
        return ElementPath.find(self, path, namespaces)

    def findall(self, path, namespaces=None):
        return ElementPath.findall(self, path, namespaces)

    def iterfind(self, path, namespaces=None):
        return ElementPath.iterfind(self, path, namespaces)

    def findtext(self, path, default=None, namespaces=None):
        return ElementPath.findtext(self, path, default, namespaces)

    def xpath(self, path, **kw):
        return _evaluate(_parse_path(path, ext=False), self)

    # -- copies
    def __copy__(self):
        return self.__deepcopy__({})

    def __deepcopy__(self, memo):
        e = _Element.__new__(type(self))
        e.tag, e.attrib, e.text = self.tag, dict(self.attrib), self.text
        e.tail, e._own, e._parent = self.tail, self.nsmap, None
        e._children = []
        for c in self._children:
            c = c.__deepcopy__(memo)
            c._parent = e
            e._children.append(c)
        return e

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle 'lxml.etree._Element' object")


class _Comment(_Element):
    def __init__(self, text=None):
        _Element.__init__(self, '')
        self.tag, self.text = Comment, text


class _PI(_Element):
    def __init__(self, target, text=None):
        _Element.__init__(self, '')
        self.tag, self.text, self.target = ProcessingInstruction, text, target


def Comment(text=None):
    return _Comment(text)


def ProcessingInstruction(target, text=None):
    return _PI(target, text)


PI = ProcessingInstruction


def Element(tag, attrib=None, nsmap=None, **extra):
    return _Element(tag, attrib, nsmap, **extra)


def SubElement(parent, tag, attrib=None, nsmap=None, **extra):
    e = _Element(tag, attrib, nsmap, **extra)
    parent.append(e)
    return e


def iselement(o):
    return isinstance(o, _Element)


class _ElementTree(object):
    def __init__(self, root):
        self._root = root

    def getroot(self):
        return self._root


def ElementTree(element=None):
    return _ElementTree(element)


def _convert(e):
    if e.tag is _ET.Comment:
        n = _Comment(e.text)
    elif e.tag is _ET.ProcessingInstruction:
        n = _PI((e.text or '').split(' ')[0])
    else:
        n = _Element(e.tag, e.attrib)
        n.text = e.text
        for c in e:
            n.append(_convert(c))
    n.tail = e.tail
    return n


def parse(source, parser=None):
    return _ElementTree(_convert(_ET.parse(source).getroot()))


# ---------------------------------------------------------- serialisation
_TEXTS = {}
_TOKEN = re.compile(r'<fake-lxml n="(\d+)"/>\Z')


def tostring(e, encoding=None, with_tail=True, **kw):
    c = e.__deepcopy__({})
    if not with_tail:
        c.tail = None
    t = '<fake-lxml n="%d"/>' % len(_TEXTS)
    _TEXTS[t] = c
    return t if encoding in (str, 'unicode') else t.encode()


def XML(text, parser=None):
    if isinstance(text, bytes):
        text = text.decode()
    text = str(text)
    if text in _TEXTS:
        e = _TEXTS[text].__deepcopy__({})
        if e.tail is not None and e.tail.strip():
            raise XMLSyntaxError('Extra content at the end of the document')
        e.tail = None
        return e
    try:
        return _convert(_ET.fromstring(text))
    except _ET.ParseError as x:
        raise XMLSyntaxError(str(x))


fromstring = XML


# ------------------------------------------------------------------ XPath
_NAME = r"(?:\{[^{}]*\})?[A-Za-z_][\w.-]*"
_STEP = re.compile(
    r"(?P<sep>//|/|)(?:(?P<dot>\.\.?(?![\w]))|(?P<text>text\(\))|"
    r"(?P<node>node\(\))|@(?P<at>%s|\*)|(?P<name>%s(?![(:])|\*))"
    r"(?P<preds>(?:\[[^\[\]]*\])*)" % (_NAME, _NAME))
_PRED = re.compile(
    r"\[(?:(?P<pos>\d+)|(?P<last>last\(\))|@(?P<a>%s)\s*"
    r"(?:(?P<op>!?=)\s*(?P<q>'[^']*'|\"[^\"]*\"))?|"
    r"(?P<c>%s|text\(\)|\.)\s*(?:=\s*(?P<v>'[^']*'|\"[^\"]*\"))?)\]"
    % (_NAME, _NAME))


def _parse_path(path, ext=True):
    path = str(path)
    steps, i = [], 0
    while i < len(path):
        m = _STEP.match(path, i)
        if m is None or (i and not m.group('sep')):
            rest = path[i:]
            if re.search(r'\w\(', rest.replace('text()', '').replace(
                    'last()', '')) or re.search(r'\w:\w', rest):
                return XPathEvalError('Unregistered function')
            raise XPathSyntaxError('Invalid expression')
        preds, j = [], 0
        p = m.group('preds')
        while j < len(p):
            q = _PRED.match(p, j)
            if q is None:
                if re.search(r'\w\(', p):
                    return XPathEvalError('Unregistered function')
                raise XPathSyntaxError('Invalid predicate')
            preds.append(q.groupdict())
            j = q.end()
        d = m.groupdict()
        d['preds'] = preds
        steps.append(d)
        i = m.end()
    if not steps:
        raise XPathSyntaxError('Invalid expression')
    return steps


def _kids(e, comments=False):
    return [c for c in e._children if isinstance(c.tag, str)]


def _value(e):
    out = ''
    for t in e.itertext():
        out = out + t
    return out


def _texts(e):
    """The text nodes of an element."""
    out, now = [], e.text
    if now is not None and now != '':
        out.append(now)
    for c in e._children:
        if c.tail is not None and c.tail != '':
            out.append(c.tail)
    return out


def _keep(nodes, preds):
    for p in preds:
        if p['pos']:
            k = int(p['pos'])
            nodes = nodes[k - 1:k]
        elif p['last']:
            nodes = nodes[-1:]
        elif p['a']:
            out = []
            for n in nodes:
                if not isinstance(n, _Element) or p['a'] not in n.attrib:
                    continue
                if p['op'] == '=' and not n.attrib[p['a']] == p['q'][1:-1]:
                    continue
                if p['op'] == '!=' and n.attrib[p['a']] == p['q'][1:-1]:
                    continue
                out.append(n)
            nodes = out
        else:
            out = []
            for n in nodes:
                if p['c'] == '.':
                    vals = [_value(n) if isinstance(n, _Element) else n]
                elif p['c'] == 'text()':
                    vals = _texts(n)
                else:
                    vals = [_value(c) for c in _kids(n) if c.tag == p['c']]
                if p['v'] is None:
                    ok = bool(vals)
                else:
                    ok = any(bool(v == p['v'][1:-1]) for v in vals)
                if ok:
                    out.append(n)
            nodes = out
    return nodes


def _evaluate(steps, context):
    if isinstance(steps, Exception):
        raise steps
    now = [context]
    for i, s in enumerate(steps):
        if s['sep'] and i == 0:
            root = context
            while root._parent is not None:
                root = root._parent
            holder = _Element('#document')
            holder._children = [root]
            now = [holder]
        bases = []
        for n in now:
            if not isinstance(n, _Element):
                continue
            for d in ([n] + [x for x in n.iter() if x is not n and
                             isinstance(x.tag, str)]
                      if s['sep'] == '//' else [n]):
                if not any(d is x for x in bases):
                    bases.append(d)
        new = []
        for n in bases:
            if s['dot'] == '.':
                found = [n]
            elif s['dot'] == '..':
                found = [n._parent] if n._parent is not None else []
            elif s['text']:
                found = _texts(n)
            elif s['at']:
                found = ([n.attrib[s['at']]] if s['at'] in n.attrib else [])
                if s['at'] == '*':
                    found = list(n.attrib.values())
            elif s['node']:
                found = list(n._children)
            else:
                found = [c for c in _kids(n) if s['name'] in ('*', c.tag)]
            for x in _keep(found, s['preds']):
                if not isinstance(x, _Element) or not any(
                        x is y for y in new):
                    new.append(x)
        if all(isinstance(x, _Element) for x in new) and len(new) > 1:
            order = [x for x in _root(context).iter()]
            new = [x for x in order if any(x is y for y in new)]
        now = new
    return now


def _root(e):
    while e._parent is not None:
        e = e._parent
    return e


class ETXPath(object):
    def __init__(self, path, **kw):
        self.path = path
        self._steps = _parse_path(path)

    def __call__(self, element, **kw):
        return _evaluate(self._steps, element)


class XPath(ETXPath):
    pass


def install():
    lx = types.ModuleType('lxml')
    lx.etree = sys.modules[__name__]
    lx.__path__ = []
    sys.modules['lxml'] = lx
    sys.modules['lxml.etree'] = lx.etree
