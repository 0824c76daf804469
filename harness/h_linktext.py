"""J17: text and dictionaries given to properties that can hold links."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.h_url import wellformed
from harness.h_vocab import MODS, engine, letter, make, OWNER, values
from harness.vocabulary import KINDS, LINKED

PROPS = sorted(LINKED)
NS = 'https://www.w3.org/ns/activitystreams#'
FEW = ['attributedTo', 'url', 'tag', 'first']
HEADS = ['http://', 'https://', 'HTTPS://', 'ftp://', 'https:/', 'acct:', 'a', '']
PARTS = {'few': FEW, 'even': PROPS[::2], 'odd': PROPS[1::2]}
MAIL = [('me@example.org', True), ('acct:me@example.org', True), ('me.you+x@a.example.org', True), ('acct:me', False),
        ('mailto:me@example.org', False), ('@', False), ('me@', False), ('@example.org', False),
        ('acct:acct:me@example.org', False), ('', False)]


def some_text(api, head, name, n=2):
    """(text, is it an address): the characters after the head are arbitrary, except @"""
    k = api.choice(name + '_n', list(range(n + 1)))
    t = head
    for i in range(k):
        half = api.choice('%s_h%d' % (name, i), ['low', 'high'])
        lo, hi = (0x21, 0x3f) if half == 'low' else (0x41, 0x7e)
        t = api.concat(t, api.str('%s%d' % (name, i), 1, lo, hi))
    return t


def is_link(api, e, got, text):
    return isinstance(got, e.Link) and type(got) is e.Link and api.eq(got.href, text)


def fresh(api, e, prop, name='old'):
    o = make(e, OWNER[prop], {})
    old = values(api, e, prop, name, first=True)
    setattr(o, prop, old.give)
    return o, old


def broken(text):
    """the standard library refuses to take such text apart"""
    return '[' in text or ']' in text


@harness('J17', shards=product(head=HEADS + ['mail'], props=['few'], shape=['alone', 'list']) +
         product(head=['https://', 'acct:', 'mail'], props=['even', 'odd'], shape=['alone']) +
         product(head=['http://a', 'acct:', 'mail'], props=['few'], shape=['second', 'tuple']),
         thorough=product(head=HEADS + ['mail'], props=['few', 'even', 'odd'], shape=['alone', 'list', 'tuple', 'second']),
         bounds='each of the %d link-valued properties; at four of them texts of %d beginnings followed by up to two arbitrary printable '
                'characters other than @, and eleven e-mail-like texts; alone or in a list' % (len(PROPS), len(HEADS)),
         modules=MODS)
def h_text(api, head, props, shape):
    e, client = engine(api)
    prop = api.choice('property', PARTS[props])
    if head == 'mail':
        text, ok = MAIL[api.choice('mail', list(range(len(MAIL))))]
    else:
        text = some_text(api, head, 'c', 2 if prop in ('attributedTo', 'url') else 1)
        if broken(text):
            return
        ok = wellformed(api, text, False)
    many = KINDS[prop][1]
    o, old = fresh(api, e, prop)
    other = e.Link(href='https://other/')
    give = {'alone': text, 'list': [text, other], 'tuple': (text, other), 'second': [other, text]}[shape]
    accepted = (ok or 'text' in KINDS[prop][0]) and (shape == 'alone' or many)
    r = attempt(lambda: setattr(o, prop, give), ValueError)
    api.check((r[0] == 'ok') == accepted, 'text is accepted exactly when it is an address (or the property holds text)')
    if not accepted:
        api.check(old.read(api, getattr(o, prop)), 'refused text leaves the previous value')
        return
    got, out = getattr(o, prop), o.data()[prop]
    if shape != 'alone':
        api.check(isinstance(got, list) and len(got) == 2 and len(out) == 2, 'one element for each')
        at = 1 if shape == 'second' else 0
        api.check(got[1 - at] is other and out[1 - at] == 'https://other/', 'links stay in their place')
        got, out = got[at], out[at]
    if ok:
        api.check(is_link(api, e, got, text), 'an address becomes a link to exactly this address')
    else:
        api.check(api.eq(got, text), 'other text stays text')
    api.check(api.eq(out, text), 'serialised as the text it was given as')


ATTRS = ['rel', 'name', 'hreflang', 'mediaType']


@harness('J17', shards=product(head=['https://', 'HTTP://', 'ftp://', 'a', 'mail', 'none', 'missing', 'number'], props=['few']) +
         product(head=['https://', 'number'], props=['even', 'odd']),
         thorough=product(head=['https://', 'HTTP://', 'ftp://', 'a', '', 'mail', 'none', 'missing', 'number'],
                          props=['few', 'even', 'odd']),
         bounds='dictionaries with an href of five beginnings followed by up to two arbitrary printable characters other than @, an '
                'e-mail-like one, none or a number, and any subset of four attributes; alone or in a list', modules=MODS)
def h_dict(api, head, props):
    e, client = engine(api)
    prop = api.choice('property', PARTS[props])
    wide = prop == 'attributedTo'
    ok = False
    if head == 'mail':
        href = MAIL[0][0]
    elif head in ('none', 'missing'):
        href = None
    elif head == 'number':
        href = api.int('href')
    else:
        href = some_text(api, head, 'c', 1)
        if broken(href):
            return
        ok = wellformed(api, href, False)
    d = {} if head == 'missing' else {'href': href}
    for a in ATTRS:
        if (wide or a == 'name') and api.bool('has_' + a):
            d[a] = letter(api, a)
    o, old = fresh(api, e, prop)
    shape = api.choice('shape', ['alone', 'list'])
    given = dict(d)
    accepted = (ok or 'dict' in KINDS[prop][0]) and (shape == 'alone' or KINDS[prop][1])
    r = attempt(lambda: setattr(o, prop, d if shape == 'alone' else [d]), ValueError)
    api.check((r[0] == 'ok') == accepted, 'a dictionary is accepted exactly when its href is a URL (or the property holds dictionaries)')
    api.check(d.keys() == given.keys() and all(d[k] is given[k] for k in given), 'the dictionary is not changed')
    if not accepted:
        api.check(old.read(api, getattr(o, prop)), 'a refused dictionary leaves the previous value')
        return
    got = getattr(o, prop)
    if shape == 'list':
        api.check(isinstance(got, list) and len(got) == 1, 'one element for each')
        got = got[0]
    if ok:
        api.check(is_link(api, e, got, href), 'becomes a link to its href')
        for a in ATTRS:
            x = getattr(got, a)
            api.check(api.eq(x, given[a]) if a in given else x is None, 'with exactly its attributes')
    else:
        api.check(isinstance(got, dict) and got.keys() == given.keys() and all(api.eq(got[k], given[k]) for k in given),
                  'another dictionary stays as it is')


@harness('J17', shards=product(mode=['package', 'mix', 'foreign'], prop=['attributedTo', 'items', 'url']),
         bounds='objects of two engines and of a package without engine, any of which was used before', modules=MODS)
def h_owner(api, mode, prop):
    from activitystreams import create_engine, create_package
    from harness.net import Client

    def answer(url):
        raise OSError('no network here')
    Client(api, answer)
    e, f = create_engine(), create_engine()
    p = create_package()
    owners = {'package': p[NS + 'Collection'], 'mix': e.Collection, 'foreign': f.Collection}
    first = api.choice('first', [None] + sorted(owners))
    if first:
        before = owners[first]()
        setattr(before, prop, 'https://before/')
    owner = owners[mode]
    link = {'package': p[NS + 'Link'], 'mix': e.Link, 'foreign': f.Link}[mode]
    o = owner()
    text = api.concat('https://a/', letter(api, 'c'))
    form = api.choice('form', ['text', 'dict', 'list', 'constructor'])
    if form == 'constructor':
        o = owner(**{prop: text})
    else:
        setattr(o, prop, {'text': text, 'dict': {'href': text}, 'list': [text]}[form])
    got = getattr(o, prop)
    if form == 'list':
        got = got[0]
    api.check(type(got) is link, 'a link of the package of the object')
    api.check(api.eq(got.href, text), 'to the address')
