"""J14: links are resolved on access only, survive failures, and serialise without network access."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.net import Client, Response
from harness.as2 import CONTEXT
from harness.vocabulary import LINKED, KINDS, COLLECTIONS
from harness.h_vocab import make, letter, OWNER, MODS as VMODS

MODS = VMODS + ['jsonld.utils', 'jsonld.tools.url']
AS = 'https://www.w3.org/ns/activitystreams'
GOOD = ['Note', 'Person', 'OrderedCollection', 'Link', 'list_type']
BAD = ['connection', 'timeout', 'os', 'value', 'key', 'runtime', 'not_json', 'none', 'list', 'text', 'number', 'empty',
       'unknown_type', 'no_type', 'bad_value', 'bad_context']


def failure(kind):
    import requests
    return {'connection': requests.ConnectionError('refused'), 'timeout': requests.Timeout('late'),
            'os': OSError('down'), 'value': ValueError('bad url'), 'key': KeyError('x'),
            'runtime': RuntimeError('x')}.get(kind)


class Web:
    """the answers of the network: what each page holds, by its mode"""

    def __init__(self, api):
        self.modes, self.values = {}, {}
        self.client = Client(api, self.answer)
        self.default = 'connection'

    @property
    def urls(self):
        return [u for u in self.client.urls if not str(u).startswith(('https://www.w3.org/', 'http://www.w3.org/'))]

    def reset(self):
        del self.client.urls[:]

    def answer(self, url):
        if isinstance(url, str) and str(url).startswith(('https://www.w3.org/', 'http://www.w3.org/')):
            return Response(url, {'@context': CONTEXT}, {'Content-Type': 'application/ld+json'})
        mode, value = self.mode, self.value
        if failure(mode) is not None:
            raise failure(mode)
        if mode == 'not_json':
            return Response(url, fail=ValueError('not JSON'))
        body = {'none': None, 'list': [], 'text': 'some text', 'number': 4, 'empty': {},
                'unknown_type': {'@context': AS, 'type': 'https://x.example/#Thing', 'content': value},
                'no_type': {'@context': AS, 'content': value},
                'bad_value': {'@context': AS, 'type': 'Note', 'published': 4},
                'bad_context': {'@context': 'not an address', 'type': 'Note'}}.get(mode)
        if mode in GOOD:
            T = 'Note' if mode == 'list_type' else mode
            body = {'@context': AS, 'type': ['Note', 'Person'] if mode == 'list_type' else T,
                    'id': 'https://other/' + '1'}
            body['href' if T == 'Link' else 'content'] = value
        return Response(url, body)


def setup(api):
    from activitystreams import create_engine
    web = Web(api)
    return create_engine(), web


def resolved(api, e, mode, value, got):
    if mode not in GOOD:
        return False
    T = 'Note' if mode == 'list_type' else mode
    return type(got) is getattr(e, T) and api.eq(got.href if T == 'Link' else got.content, value)


@harness('J14', shards=[dict(prop=p) for p in ('attributedTo', 'url', 'object', 'items', 'first', 'closed', 'subject', 'to')],
         thorough=[dict(prop=p) for p in sorted(LINKED)],
         bounds='one access of each property that resolves links, every kind of answer and failure, a second access with '
                'another answer', modules=MODS)
def h_resolve(api, prop):
    e, web = setup(api)
    x, web.value = letter(api, 'x'), letter(api, 'value')
    href = api.concat('https://l/', x)
    web.mode = 'connection'
    owner = make(e, OWNER[prop], {})
    how = api.choice('given', ['link', 'mention', 'address', 'dict'])
    given = {'link': lambda: e.Link(href=href), 'mention': lambda: e.Mention(href=href), 'address': lambda: href,
             'dict': lambda: {'href': href, 'name': 'n'}}[how]()
    setattr(owner, prop, given)
    api.check(not web.urls, 'nothing is fetched before a link is read')
    link = given if how in ('link', 'mention') else None
    for turn in (1, 2):
        web.mode = api.choice('answer%d' % turn, GOOD + BAD if turn == 1 else ['Note', 'os'])
        web.reset()
        got = getattr(owner, prop)
        if how == 'mention':
            api.check(got is link and not web.urls, 'a mention is read as it is')
        elif web.mode in GOOD:
            api.check(api.eq(web.urls, [href]), 'the address of the link is fetched once')
            api.check(resolved(api, e, web.mode, web.value, got), 'the fetched object is given')
        else:
            api.check(api.eq(web.urls, [href]), 'the address of the link is fetched once')
            if link is None:
                link = got
            api.check(type(got) is e.Link and got is link, 'the link itself is given when it cannot be resolved')
            api.check(api.eq(got.href, href) and
                      sorted(got.data()) == sorted(['@context', 'href'] + (['name'] if how == 'dict' else [])),
                      'the link stays usable')
        web.reset()
        data = owner.data()
        api.check(api.eq(data[prop], href), 'the link is still what the object holds')
        api.check(not web.urls, 'serialising fetches nothing')


def tree(api, e, depth, name):
    """an object with links at some of its properties, down to the given depth"""
    if depth == 0:
        return e.Link(href=api.concat('https://l/', letter(api, name)))
    kind = api.choice(name + '_kind', ['link', 'note', 'list', 'collection', 'relationship', 'preview'] if depth > 1 else
                      ['link', 'note', 'preview'])
    if kind == 'link':
        return tree(api, e, 0, name)
    if kind == 'preview':
        return e.Link(href=api.concat('https://l/', letter(api, name)), preview=tree(api, e, 0, name + 'p'))
    if kind == 'list':
        return [tree(api, e, 0, name + '0'), tree(api, e, 1, name + '1')]
    inner = tree(api, e, depth - 1, name + 'i')
    if kind == 'note':
        return e.Note(attributedTo=inner, tag=['https://t/a', e.Mention(href='https://t/b')], url='https://t/c')
    if kind == 'collection':
        return e.OrderedCollection(orderedItems=inner if isinstance(inner, list) else [inner], first='https://t/d')
    return e.Relationship(id=None, subject=inner if not isinstance(inner, list) else inner[0],
                          object=inner if not isinstance(inner, list) else inner[0])


@harness('J14', shards=product(how=['data', 'json', 'str', 'indented', 'excluding']), bounds='objects with links nested to depth 3',
         thorough=product(how=['data', 'json', 'str', 'indented', 'excluding'], depth=[4]), modules=MODS)
def h_serialise(api, how, depth=3):
    e, web = setup(api)
    web.mode, web.value = api.choice('network', ['connection', 'Note']), 'v'
    inner = tree(api, e, depth - 1, 't')
    web.reset()
    top = e.Create(actor=inner, object=inner, result='https://r/1', target={'href': 'https://r/2'})
    if how == 'data':
        d = top.data()
    elif how == 'json':
        d = api.json_loads(top.json())
    elif how == 'str':
        d = api.json_loads(str(top))
    elif how == 'indented':
        d = api.json_loads(top.json(indent=2, include_none=True))
    else:
        d = top.data(exclude=['target'], include_none=True)
    api.check(not web.urls, 'nothing is fetched')
    api.check(d['result'] == 'https://r/1' and d.get('target') == (None if how == 'excluding' else 'https://r/2'),
              'links are serialised by their address')
    if isinstance(inner, e.Link):
        api.check(api.eq(d['actor'], inner.href), 'links are serialised by their address')
    if isinstance(inner, list) and isinstance(inner[0], e.Link):
        api.check(api.eq(d['actor'][0], inner[0].href), 'links are serialised by their address')
    api.check(top.result is not None and len(web.urls) == 1, 'reading the property afterwards still resolves the link')


@harness('J14', shards=product(mode=['Note', 'os']), bounds='a link in a package that belongs to no engine, and in a list',
         modules=MODS)
def h_outside(api, mode):
    from activitystreams.package import create_package
    web = Web(api)
    web.mode, web.value = mode, 'v'
    p = create_package()
    Note, Link = [p['https://www.w3.org/ns/activitystreams#' + t] for t in ('Note', 'Link')]
    href = api.concat('https://l/', letter(api, 'x'))
    link = Link(href=href)
    note = Note(attributedTo=link, to=[link, href])
    api.check(not web.urls, 'nothing is fetched before a link is read')
    api.check(note.attributedTo is link, 'without an engine the link itself is given')
    web.reset()
    api.check(note.to[0] is link and api.eq(note.to[1].href, href) and not web.urls, 'links in lists are read as they are')
    api.check(api.eq(note.data()['to'], [href, href]) and not web.urls, 'links in lists are serialised by their address')
