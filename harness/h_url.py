"""J08: which URLs are accepted and fetched; J09: what the document loader reports."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.net import Client, Response

MODS = ['jsonld.tools.url', 'jsonld.engine.utils', 'jsonld.docloader', 'jsonld.tools', 'jsonld']


def inset(api, c, ranges):
    return api.or_(*[c == r if len(r) == 1 else api.and_(r[0] <= c, c <= r[1]) for r in ranges])


def split(api, url):
    """(scheme, netloc) by RFC 3986, None where there is none"""
    i = 0
    n = len(url)
    while i < n and inset(api, url[i], ['az', 'AZ'] + (['09', '+', '-', '.'] if i else [])):
        i += 1
    if not (0 < i and i < n and url[i] == ':'):
        return None, None
    if not (i + 2 < n and url[i + 1] == '/' and url[i + 2] == '/'):
        return url[:i], None
    j = i + 3
    while j < n and not inset(api, url[j], ['/', '?', '#']):
        j += 1
    return url[:i], url[i + 3:j]


def wellformed(api, url, secure):
    scheme, netloc = split(api, url)
    if scheme is None or netloc is None or len(netloc) == 0:
        return False
    low = ''
    for ch in scheme:
        if inset(api, ch, ['AZ']):
            ch = chr(api.ord(ch) + 32)
        low = api.concat(low, ch)
    if not (low == 'https' or (not secure and low == 'http')):
        return False
    for ch in netloc:
        if not inset(api, ch, ['az', 'AZ', '09', '_', '.', ':', '-']):
            return False
    return True


HEADS = ['http://', 'https://', 'HTTP://', 'hTTps://', 'ftp://', 'http:/', 'http:', 'https', '', '//', 'xhttp://',
         'http://a', 'https://a.b:1', 'http://a/', 'https://u@', 'http://[::1]']


def some_url(api, head, n):
    """head followed by up to n arbitrary printable characters"""
    k = api.choice('n', list(range(n + 1)))
    return api.concat(head, api.str('c', k, 0x21, 0x7e)) if k else head


def near_url(api, base):
    """base with one character replaced by an arbitrary one"""
    i = api.choice('at', list(range(len(base))))
    return api.concat(base[:i], api.str('c', 1, 0x21, 0x7e), base[i + 1:])


def verdict(fn):
    r = attempt(fn, ValueError)
    return bool(r[1]) if r[0] == 'ok' else False


KINDS = [{'head': h, 'n': 3} for h in HEADS] + [{'head': 'https://ab', 'n': None}, {'head': 'http://ab/c', 'n': None}]
DEEP = [{'head': h, 'n': 4} for h in HEADS] + [{'head': 'https://ab.cd:80/e?f#g', 'n': None},
                                               {'head': 'http://ab.cd:80/e?f#g', 'n': None}]
BOUNDS = ('every URL of %d beginnings followed by up to 3 (thorough 4) arbitrary printable characters, and every one that '
          'differs in one character from a well-formed one' % len(HEADS))


def sym_url(api, head, n):
    return near_url(api, head) if n is None else some_url(api, head, n)


def cross(kinds, **axes):
    return [{**k, **a} for k in kinds for a in product(**axes)]


@harness('J08', shards=cross(KINDS, which=['tools', 'engine']), thorough=cross(DEEP, which=['tools', 'engine']),
         bounds=BOUNDS, modules=MODS)
def h_validate(api, head, n, which):
    if which == 'tools':
        from jsonld.tools import validate_url
    else:
        from jsonld.engine.utils import validate_url
    url = sym_url(api, head, n)
    secure = api.choice('secure', [False, True, None])
    args = {} if secure is None else {'secure': secure}
    got = verdict(lambda: validate_url(url, **args))
    api.check(got == wellformed(api, url, bool(secure)), 'accepted exactly when well-formed')


@harness('J08', shards=product(which=['tools', 'engine', 'loader'], where=['host', 'only', 'start', 'scheme', 'path', 'port']),
         bounds='any one character that is not ASCII in the host, the port, the scheme or the path of a well-formed URL', modules=MODS)
def h_foreign(api, which, where):
    from jsonld.docloader import RequestsJsonLoader
    from pyld.jsonld import JsonLdError
    c = api.str('c', 1, 0x80, 0x10ffff)
    a, b = {'host': ('https://a', 'b.org/'), 'only': ('https://', ''), 'start': ('http://', '.org:80/d'), 'scheme': ('http', '://a/'),
            'path': ('https://a.org/', ''), 'port': ('https://a.org:', '/')}[where]
    url = api.concat(a, c, b)
    ok = where == 'path'
    if which == 'loader':
        client = Client(api, lambda url: Response('final', {'a': 1}, {'content-type': 'application/ld+json'}))
        secure = api.choice('secure', [False, True])
        r = attempt(lambda: RequestsJsonLoader(secure=secure)(url), JsonLdError)
        api.check((r[0] == 'ok') == ok, 'accepted exactly when well-formed')
        api.check(len(client.urls) == (1 if ok else 0), 'requested exactly when well-formed')
        return
    if which == 'tools':
        from jsonld.tools import validate_url
    else:
        from jsonld.engine.utils import validate_url
    secure = api.choice('secure', [False, True])
    if where == 'start' and secure:
        ok = False
    api.check(verdict(lambda: validate_url(url, secure=secure)) == ok, 'accepted exactly when well-formed')


@harness('J08', shards=cross(KINDS, cached=[False, True]), thorough=cross(DEEP, cached=[False, True]),
         bounds=BOUNDS, modules=MODS)
def h_request(api, head, n, cached):
    from jsonld.docloader import CachedRequestsJsonLoader, RequestsJsonLoader
    from pyld.jsonld import JsonLdError
    client = Client(api, lambda url: Response('final', {'a': 1}, {'content-type': 'application/ld+json'}))
    api.patch(CachedRequestsJsonLoader, 'cached_schemas', {})
    url = sym_url(api, head, n)
    secure = api.choice('secure', [False, True, None])
    args = {} if secure is None else {'secure': secure}
    loader = (CachedRequestsJsonLoader if cached else RequestsJsonLoader)(**args)
    ok = wellformed(api, url, secure is None or secure)
    r = attempt(lambda: loader(url), JsonLdError)
    if ok:
        api.check(r[0] == 'ok', 'a well-formed URL is loaded')
        api.check(len(client.urls) == 1 and client.urls[0] == url, 'with one request for it')
    else:
        api.check(r[0] == 'exc', 'refused with the load error')
        api.check(r[1].code == 'loading document failed', 'as a loading failure')
        api.check(len(client.urls) == 0, 'without network access')


@harness('J08', shards=product(second=[True, None, False]),
         bounds='an https or http document loaded by a loader that need not be secure, then asked for from another one', modules=MODS)
def h_request_cached(api, second):
    from jsonld.docloader import CachedRequestsJsonLoader
    from pyld.jsonld import JsonLdError
    client = Client(api, lambda url: Response('final', {'a': 1}, {'content-type': 'application/ld+json'}))
    api.patch(CachedRequestsJsonLoader, 'cached_schemas', {})
    url = api.concat(api.choice('scheme', ['http', 'https', 'HTTPS', 'Http']), '://', api.str('host', 1, 97, 122))
    first = CachedRequestsJsonLoader(secure=False)
    doc = first(url)
    loader = CachedRequestsJsonLoader(**({} if second is None else {'secure': second}))
    r = attempt(lambda: loader(url), JsonLdError)
    if wellformed(api, url, second is not False):
        api.check(r[0] == 'ok' and r[1] is doc, 'loaded')
    else:
        api.check(r[0] == 'exc', 'a URL that is not secure is refused, wherever its document is')
    api.check(len(client.urls) == 1, 'one request')
    api.check(first(url) is doc, 'the first loader still has it')


# --------------------------------------------------------------------------
# J09

CONTEXT = 'http://www.w3.org/ns/json-ld#context'


def link(target, rel, ctype=None):
    return '<%s>; rel="%s"' % (target, rel) + ('; type="%s"' % ctype if ctype else '')


LINKS = {
    'none': None,
    'context': link('ctx.jsonld', CONTEXT, 'application/ld+json'),
    'other': link('style.css', 'stylesheet'),
    'two': link('a.jsonld', CONTEXT) + ', ' + link('b.jsonld', CONTEXT),
    'alternate': link('/alt.jsonld', 'alternate', 'application/ld+json'),
    'feed': link('/feed', 'alternate', 'application/rss+xml'),
    'feeds': link('/feed', 'alternate', 'application/rss+xml') + ', ' + link('/alt.jsonld', 'alternate',
                                                                            'application/ld+json'),
    'both': link('ctx.jsonld', CONTEXT) + ', ' + link('/alt.jsonld', 'alternate', 'application/ld+json'),
}
REDIRECT = {'alternate', 'feeds', 'both'}


def content_type(api, ctype):
    if ctype == 'app':
        return api.concat('application/', api.str('sub', api.choice('n', [0, 1, 2, 3]), 0x21, 0x7e), 'json')
    if ctype == 'appany':
        return api.concat('application/', api.str('sub', 4, 0x21, 0x7e))
    if ctype == 'ldx':
        return api.concat('application/ld+jso', api.str('sub', 1, 0x21, 0x7e))
    return {'missing': None, 'empty': '', 'params': 'application/ld+json; charset=utf-8',
            'jsonparams': 'application/json; charset=utf-8', 'html': 'text/html', 'ld': 'application/ld+json',
            'as': 'application/activity+json', 'xml': 'application/xml'}[ctype]


def is_json(api, media):
    """application/json or application/<word>+json"""
    if not (len(media) >= 16 and media[:12] == 'application/' and media[-4:] == 'json'):
        return False
    mid = media[12:-4]
    if len(mid) == 0:
        return True
    if not mid[-1] == '+':
        return False
    for ch in mid[:-1]:
        if not inset(api, ch, ['az', 'AZ', '09', '_']):
            return False
    return True


CTYPES = ['app', 'appany', 'ldx', 'missing', 'empty', 'params', 'jsonparams', 'html', 'ld', 'as', 'xml']


@harness('J09', shards=product(ctype=CTYPES, cached=[False, True]),
         bounds='every content type of the form application/... with up to 3 arbitrary characters before "json" or 4 '
                'arbitrary ones, common types with parameters; 8 link headers', modules=MODS)
def h_document(api, ctype, cached):
    from jsonld.docloader import CachedRequestsJsonLoader, RequestsJsonLoader
    from pyld.jsonld import JsonLdError
    api.patch(CachedRequestsJsonLoader, 'cached_schemas', {})
    url = 'https://host.example/dir/doc'
    ct = content_type(api, ctype)
    kind = api.choice('link', list(LINKS))
    body = {'id': api.int('body')}
    headers = {}
    if ct is not None:
        headers['content-type'] = ct
    if LINKS[kind] is not None:
        headers['link'] = LINKS[kind]
    final = 'https://host.example/' + api.choice('moved', ['dir/doc', 'elsewhere'])
    client = Client(api, lambda u: Response(final, body, headers))
    own = {'Accept': 'application/x'} if api.choice('own', [False, True]) else None
    loader = (CachedRequestsJsonLoader if cached else RequestsJsonLoader)(headers=own)
    r = attempt(lambda: loader(url), JsonLdError)
    api.check(len(client.urls) == 1 and client.urls[0] == url, 'one request for the URL')
    if own:
        api.check(api.eq(client.headers[0], own), 'with the headers of the loader')
    else:
        api.check('application/ld+json' in client.headers[0]['Accept'], 'asking for JSON-LD')
    if ct is None or len(ct) == 0:
        media = seen = 'application/octet-stream'
    else:
        media, seen = {'params': 'application/ld+json', 'jsonparams': 'application/json'}.get(ctype, ct), ct
        if ctype in ('app', 'appany', 'ldx'):
            for i in range(12, len(media)):
                api.assume(api.not_(inset(api, media[i], [';', 'AZ'])))
    ld = media == 'application/ld+json'
    if kind == 'two' and not ld:
        api.check(r[0] == 'exc', 'more than one context link is an error')
        return
    api.check(r[0] == 'ok', 'loaded')
    doc = r[1]
    api.check(doc['document'] is body, 'the body')
    want = 'ctx.jsonld' if kind in ('context', 'both') and not ld else None
    api.check(api.eq(doc['contextUrl'], want), 'the context link of other content than JSON-LD')
    if kind in REDIRECT and not is_json(api, media):
        api.check(api.eq(doc['documentUrl'], 'https://host.example/alt.jsonld'), 'the alternate')
        api.check(api.eq(doc['contentType'], 'application/ld+json'), 'as JSON-LD')
    else:
        api.check(api.eq(doc['documentUrl'], final), 'the final URL')
        api.check(api.eq(doc['contentType'], seen), 'the content type')


FAILURES = ['ok', 'connect', 'json', 'links', 'moved', 'alternate']


class Down(Exception):
    pass


@harness('J09', shards=product(cls=['shared', 'one'], steps=[4]) + product(cls=['plain'], steps=[3]),
         thorough=product(cls=['shared', 'one'], steps=[5]) + product(cls=['plain'], steps=[4]),
         bounds='every sequence of 4 (thorough 5; one less without cache) loads of three URLs (one refused), any failure at each request',
         modules=MODS)
def h_history(api, cls, steps):
    from jsonld.docloader import CachedRequestsJsonLoader, RequestsJsonLoader
    from pyld.jsonld import JsonLdError
    api.patch(CachedRequestsJsonLoader, 'cached_schemas', {})
    outcome = {}

    def answer(url):
        k = len(client.urls)
        how = outcome[k] = api.choice('request%d' % k, FAILURES)
        if how == 'connect':
            raise Down()
        headers = {'content-type': 'application/json'}
        if how == 'links':
            headers['link'] = LINKS['two']
        if how == 'alternate':
            headers = {'content-type': 'text/html', 'link': link(other(url), 'alternate', 'application/ld+json')}
        return Response(other(url) if how == 'moved' else url, {'n': k}, headers,
                        fail=ValueError('no JSON') if how == 'json' else None)

    def other(url):
        return 'https://a.example/' + ('y' if url.endswith('x') else 'x')
    client = Client(api, answer)
    make = RequestsJsonLoader if cls == 'plain' else CachedRequestsJsonLoader
    loaders = [make(), make()] if cls == 'shared' else [make()]
    known = {}
    for i in range(steps):
        url = api.choice('url%d' % i, ['https://a.example/x', 'https://a.example/y', 'gopher://a/'])
        loader = loaders[i % len(loaders)]
        before = len(client.urls)
        r = attempt(lambda: loader(url), JsonLdError)
        new = client.urls[before:]
        if url.startswith('gopher'):
            api.check(r[0] == 'exc' and not new, 'refused')
            continue
        if cls != 'plain' and url in known:
            api.check(r[0] == 'ok' and r[1] is known[url], 'the same document')
            api.check(not new, 'without another request')
            continue
        api.check(len(new) == 1 and new[0] == url, 'one request')
        how = outcome[len(client.urls)]
        if how in ('ok', 'moved', 'alternate'):
            api.check(r[0] == 'ok', 'loaded')
            api.check(api.eq(r[1]['document'], {'n': len(client.urls)}), 'the document received')
            api.check(api.eq(r[1]['documentUrl'], url if how == 'ok' else other(url)), 'of this URL')
            known[url] = r[1]
        else:
            api.check(r[0] == 'exc', 'the failure is reported')
            api.check(r[1].code == 'loading document failed', 'as the load error')
            api.check(r[1].cause is not None, 'with its cause')


@harness('J09', shards=product(tail=['/', '/d', '/d?a=', '/d#a', '/d/', ':1']),
         bounds='two URLs that differ in the capitals of the scheme, or in what follows the host: any character after one of '
                'six beginnings against any other character, or none', modules=MODS)
def h_apart(api, tail):
    from jsonld.docloader import CachedRequestsJsonLoader
    api.patch(CachedRequestsJsonLoader, 'cached_schemas', {})
    client = Client(api, lambda u: Response(u, {'n': len(client.urls)}, {'content-type': 'application/ld+json'}))
    digits = (48, 57) if tail == ':1' else (0x21, 0x7e)
    base = 'https://a.example' + tail
    one = api.concat(base, api.str('c', api.choice('n', [0, 1]), *digits))
    how = api.choice('second', ['none', 'char', 'chars', 'scheme', 'user'])
    two = (base if how == 'none' else api.concat(base, api.str('d', 1, *digits)) if how == 'char' else
           api.concat(base, api.str('d', 2, *digits)) if how == 'chars' else
           api.concat('HTTPS', one[5:]) if how == 'scheme' else api.concat('http', one[5:]))
    loader = CachedRequestsJsonLoader(secure=False)
    a = loader(one)
    equal = len(one) == len(two) and one == two
    b = loader(two)
    again = loader(one), loader(two)
    api.check(len(client.urls) == (1 if equal else 2), 'one request for each URL')
    api.check((a is b) == bool(equal), 'URLs are kept apart')
    api.check(api.eq(client.urls[0], one), 'the first URL is requested')
    if not equal:
        api.check(api.eq(client.urls[1], two), 'the second URL is requested')
        api.check(api.eq(b['documentUrl'], two), 'the document of this URL')
    api.check(again[0] is a and again[1] is b, 'the same documents again')
