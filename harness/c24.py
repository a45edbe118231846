"""C24 what is fetched, and directly if the host is listed in no_proxy."""
import contextlib
import os
import urllib.error
import urllib.parse
import urllib.request

from harness.common import *

ASSUMPTIONS = [
    'urllib.parse.urlparse is trusted: for symbolic URLs a stand-in gives '
    'the parts the URL was put together from (the real one is used when '
    'models are replayed)',
    'the opener that urllib builds is replaced by one that records what it '
    'was built with and asked for']
HOST = 'abc-.1'
#: what an entry of the list may hold besides
MORE = ':@80'


class Parts(object):
    """As urlparse gives them, for a URL put together from parts."""
    def __init__(self, **parts):
        self.__dict__.update(parts)

    def _replace(self, **parts):
        return Parts(**dict(self.__dict__, **parts))


def url_of(ctx, forms, maxlen):
    """A URL, its host, and its parts."""
    scheme, user, port, path = ctx.choice('form', forms)
    host = ctx.str('host', chars=HOST, maxlen=maxlen, minlen=1, vector=True)
    netloc = Concat(user, host, port)
    url = Concat(scheme, '://', netloc, path)
    parts = Parts(scheme=scheme, netloc=netloc, path=path.split('?')[0],
                  params='', query='', fragment='', hostname=host,
                  port=int(port[1:]) if port else None,
                  username=user[:-1] or None, password=None)
    return url, host, parts


class Reply(object):
    def __init__(self, data):
        self.data, self.open_ = data, True

    def read(self, *a):
        if not self.open_:
            raise ValueError('closed')
        return self.data

    def close(self):
        self.open_ = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


@contextlib.contextmanager
def world(ctx, environ, url, parts, answer=None):
    """The environment, the parsing of the URL, and the network."""
    log = []

    class Opener(object):
        addheaders = []

        def __init__(self, handlers):
            self.handlers = handlers

        def open(self, what, *a, **k):
            log.append((self.handlers, what))
            return answer()
    real = urllib.parse.urlparse
    saved = (os.environ, urllib.parse.urlparse, urllib.parse.urlsplit,
             urllib.request.build_opener)

    def parse(u, *a, **k):
        if u is url or ctx.decide(Eq(u, url)):
            return parts
        return real(u, *a, **k)
    os.environ = environ
    if ctx.symbolic:
        urllib.parse.urlparse = urllib.parse.urlsplit = parse
    urllib.request.build_opener = lambda *h: Opener(h)
    try:
        yield log
    finally:
        (os.environ, urllib.parse.urlparse, urllib.parse.urlsplit,
         urllib.request.build_opener) = saved


def entries(ctx, counts, pads, maxlen):
    """The exclusion list as text, and its entries."""
    n = ctx.choice('entries', counts)
    out, text = [], ''
    for i in range(n):
        e = ctx.str('entry%d' % i, chars=HOST + MORE, maxlen=maxlen, vector=True)
        before, after = ctx.choice('pad%d' % i, pads)
        out.append(e)
        text = Concat(text, ',' if i else '', before, e, after)
    return out, text


def direct(handlers):
    """Whether a connection made with these goes past every proxy."""
    return any(isinstance(h, urllib.request.ProxyHandler) and
               getattr(h, 'proxies', None) == {} for h in handlers)


FORMS = [('http', '', '', '/a'), ('https', '', ':8443', '/a?b=c'),
         ('http', 'u@', ':80', ''), ('http', '', ':8', '/'), ('ftp', '', '', '/')]


def proxies(ctx, forms, counts, pads, maxlen, entry):
    """Listed hosts are fetched from directly, others by the default."""
    import ndg.xacml.utils.urlfetcher as u
    url, host, parts = url_of(ctx, forms, maxlen)
    listed, text = entries(ctx, counts, pads, maxlen)
    env = {} if not listed and ctx.choice('unset', [False, True]) else {
        'no_proxy': text}
    what = ctx.choice('entry', entry)
    data = ctx.str('data')
    reply = Reply(data)
    with world(ctx, env, url, parts, lambda: reply) as log:
        if what == 'data':
            out = ctx.call(u.fetch_data_from_url, url)
        elif what == 'stream':
            out = ctx.call(u.fetch_stream_from_url, url)
        else:
            out = ctx.call(u.open_url, url, ctx.choice(
                'debug', [False, True]))
    ctx.check('answers', out.ok)
    ctx.check('asked-once-for-it', And(
        [len(log) == 1] + [Eq(x, url) for _, x in log]))
    ctx.observe('direct', direct(log[0][0]))
    ctx.check('direct-iff-listed', Iff(
        direct(log[0][0]), In(host, listed)))
    if what == 'data':
        ctx.check('gives-the-data', Eq(out.value, data))
        ctx.check('closed', not reply.open_)
    else:
        ctx.check('gives-the-open-stream', out.value is reply and
                  reply.open_)


def failing(ctx):
    """An error of any kind is never taken for an answer."""
    import ndg.xacml.utils.urlfetcher as u
    url, host, parts = url_of(ctx, FORMS[:1], 2)
    kind = ctx.choice('error', ['http', 'url', 'os', 'value', 'timeout'])
    code = ctx.choice('code', [301, 403, 404, 500])

    def fail():
        if kind == 'http':
            raise urllib.error.HTTPError('http://x/', code, 'no', {}, None)
        raise {'url': urllib.error.URLError('x'), 'os': OSError('x'),
               'value': ValueError('x'), 'timeout': TimeoutError('x')}[kind]
    what = ctx.choice('entry', ['data', 'stream', 'open'])
    f = {'data': u.fetch_data_from_url, 'stream': u.fetch_stream_from_url,
         'open': u.open_url}[what]
    with world(ctx, {}, url, parts, fail):
        out = ctx.call(f, url)
    ctx.observe('error', out.ok)
    ctx.check('fails', not out.ok)


def no_host(ctx):
    """URLs without a host are never excluded."""
    import ndg.xacml.utils.urlfetcher as u
    path = ctx.str('path', chars='ab/.', maxlen=4, vector=True)
    url = Concat('file:///', path)
    listed, text = entries(ctx, [0, 1, 2], [('', '')], 2)
    parts = Parts(scheme='file', netloc='', path=Concat('/', path),
                  params='', query='', fragment='', hostname=None, port=None,
                  username=None, password=None)
    reply = Reply(b'')
    with world(ctx, {'no_proxy': text}, url, parts, lambda: reply) as log:
        out = ctx.call(u.fetch_stream_from_url, url)
    ctx.check('answers', out.ok and out.value is reply)
    ctx.check('asked-once-for-it', And(
        [len(log) == 1] + [Eq(x, url) for _, x in log]))


def warm_up():
    import ndg.xacml.utils.urlfetcher                   # noqa


PADS = [('', ''), (' ', ''), ('', ' '), ('  ', '\t')]
HARNESSES = [
    Harness('proxies', proxies, 'hosts of 1..4 and 0..2 entries of 0..4 '
            'characters of %r, 2 ways of padding, 5 forms of URL, 3 entry '
            'points' % HOST, params=dict(
                forms=FORMS, counts=[0, 1, 2], pads=PADS[:3:2], maxlen=4,
                entry=['stream', 'data', 'open']),
            must_reach=('direct-iff-listed', 'closed')),
    Harness('proxies-deep', proxies, '3 entries of up to 6 characters',
            params=dict(forms=FORMS[:2], counts=[3], pads=PADS, maxlen=6,
                        entry=['stream']),
            must_reach=('direct-iff-listed',), thorough_only=True),
    Harness('failing', failing, '5 kinds of errors, 4 status codes',
            must_reach=('fails',)),
    Harness('no-host', no_host, 'files of any path of up to 4 characters',
            must_reach=('asked-once-for-it',)),
]
