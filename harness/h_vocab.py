"""J13: every property of every ActivityStreams type; J05: what their properties accept."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.net import Client
from harness.vocabulary import TYPES, KINDS, LINKED, COLLECTIONS

MODS = ['activitystreams', 'activitystreams.models', 'activitystreams.properties', 'activitystreams.package',
        'jsonld.package', 'jsonld.kamino', 'jsonld.engine.jsonld_engine']


def engine(api):
    from activitystreams import create_engine

    def answer(url):
        raise OSError('no network here')
    return create_engine(), Client(api, answer)


def letter(api, name):
    return api.str(name, 1, 97, 122)


class Value:
    """a value for a property: what is given, what is expected to be read back and
    what is expected in the serialised form"""

    def __init__(self, give, read=None, out=None):
        self.give, self.out = give, give if out is None else out
        self.read = (lambda api, got: same(api, got, give)) if read is None else read


def same(api, a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(api, x, y) for x, y in zip(a, b))
    return a is b or api.eq(a, b)


def two(n):
    return '%02d' % n


def value(api, e, kind, name, prop):
    if kind == 'object':
        c = letter(api, name)
        o = e.Note(id=api.concat('https://h/', c), content=c)
        return Value(o, lambda api, got: got is o,
                     {'id': api.concat('https://h/', c), 'type': 'Note', 'content': c})
    if kind in ('page', 'collection'):
        n = api.int(name, 0, 9)
        o = (e.CollectionPage if kind == 'page' else e.Collection)(totalItems=n)
        return Value(o, lambda api, got: got is o,
                     {'type': 'CollectionPage' if kind == 'page' else 'Collection', 'totalItems': n})
    if kind == 'link':
        href = api.concat('https://l/', letter(api, name))
        o = e.Link(href=href)
        return Value(o, lambda api, got: got is o, href)
    if kind == 'address':
        a = api.concat('https://a/', letter(api, name))
        if prop not in LINKED:
            return Value(a)
        return Value(a, lambda api, got: isinstance(got, e.Link) and api.eq(got.href, a))
    if kind == 'text':
        return Value(api.str(name, 2) if prop not in LINKED else api.concat('?', letter(api, name)))
    if kind == 'dict':
        d = {'k': letter(api, name)}
        return Value(d, None, {'k': d['k']})
    if kind == 'time':
        t = api.datetime.datetime(2024, 2, 3, 4, api.int(name, 0, 59), 6)
        return Value(t, None, api.concat('2024-02-03T04:', two(t.minute), ':06Z'))
    if kind == 'timetext':
        m = api.int(name, 0, 59)
        t = api.datetime.datetime(2024, 2, 3, 4, 5, m)
        text = api.concat('2024-02-03T04:05:', two(m), 'Z')
        return Value(text, lambda api, got: api.eq(got, t), text)
    if kind == 'span':
        n = api.int(name, 1, 59)
        return Value(api.datetime.timedelta(seconds=n), None, api.concat('PT', '%d' % n, 'S'))
    if kind == 'flag':
        return Value(api.bool(name))
    if kind == 'number':
        return Value(api.int(name, 0))
    if kind == 'negative':
        return Value(api.int(name, None, -1))
    if kind == 'real':
        return Value(api.real(name, 0))
    raise AssertionError(kind)


def values(api, e, prop, name, lists=True, first=False):
    """some value for the property, of any permitted kind"""
    kinds, many = KINDS[prop]
    if first:
        return value(api, e, kinds[0], name, prop)
    shape = api.choice(name + '_kind', kinds + (['list', 'empty'] if many and lists else []))
    if shape == 'empty':
        return Value([])
    if shape == 'list':
        vs = [value(api, e, k, '%s%d' % (name, i), prop) for i, k in enumerate([kinds[0], kinds[-1]])]
        return Value([v.give for v in vs],
                     lambda api, got: (isinstance(got, list) and len(got) == len(vs) and
                                       all(v.read(api, g) for v, g in zip(vs, got))),
                     [v.out for v in vs])
    return value(api, e, shape, name, prop)


NEEDS_ID = ['Relationship', 'Place', 'Profile', 'Tombstone']


def make(e, T, given):
    cls = getattr(e, T)
    if T in NEEDS_ID and 'id' not in given:
        given = {'id': None, **given}
    return cls(**given)


def expected(api, T, given):
    want = {k: v.out for k, v in given.items()}
    want['@context'] = 'https://www.w3.org/ns/activitystreams'
    if T not in ('Object', 'Link'):
        want['type'] = T
    if T in COLLECTIONS and 'totalItems' not in given:
        held = given.get('orderedItems') or given.get('items')
        want['totalItems'] = len(held.give) if held and isinstance(held.give, list) else 0
    if T == 'OrderedCollectionPage' and 'startIndex' not in given:
        want['startIndex'] = 0
    return want


def compare(api, o, T, given, msg):
    for p, v in given.items():
        api.check(v.read(api, getattr(o, p)), msg + ': a given property is read back with its value')
    want = expected(api, T, given)
    got = o.data()
    api.check(sorted(got) == sorted(want), msg + ': the serialised form has exactly the given properties')
    for k in want:
        api.check(api.eq(got[k], want[k]), msg + ': the serialised form has the given values')


SIMPLE = [t for t in TYPES if TYPES[t] is TYPES['Note'] and t not in ('Object',)]
ACTIVE = [t for t in TYPES if TYPES[t] is TYPES['Like']]
REST = [t for t in TYPES if t not in SIMPLE and t not in ACTIVE]
FEW = ['Note', 'Page', 'Image', 'Person', 'Create', 'TentativeAccept', 'Block'] + REST


@harness('J13', shards=[dict(T=t) for t in FEW],
         thorough=[dict(T=t) for t in TYPES],
         bounds='any one property of a type (quick: one type per constructor), lists of up to two, given at '
                'construction or assigned', modules=MODS)
def h_one(api, T):
    e, client = engine(api)
    p = api.choice('property', TYPES[T])
    v = values(api, e, p, 'v')
    if api.choice('assigned', [False, True]):
        o = make(e, T, {})
        api.check(getattr(o, p) is None or p in ('totalItems', 'startIndex'), 'a property that is not given is None')
        setattr(o, p, v.give)
        if p in ('items', 'orderedItems') or (p == 'totalItems'):
            # the number of items is taken at construction only
            api.check(v.read(api, getattr(o, p)), 'assigned: read back')
            api.check(api.eq(o.data()[p], v.out), 'assigned: the serialised form has the given values')
            return
    else:
        o = make(e, T, {p: v.give})
        # a collection looks at its items to count them
        api.check(not client.urls or p == 'items', 'no network access at construction')
    compare(api, o, T, {p: v}, p)


@harness('J13', shards=[dict(T=t) for t in FEW],
         thorough=[dict(T=t) for t in sorted(TYPES)],
         bounds='all properties of a type at once (quick: one type per constructor), a distinct symbolic value each, '
                'and all but one', modules=MODS)
def h_all(api, T):
    e, client = engine(api)
    cls = getattr(e, T)
    api.check(cls.__name__ == T, 'the engine has the type under its name')
    given = {p: values(api, e, p, 'v_' + p, first=True) for p in TYPES[T]}
    o = make(e, T, {p: v.give for p, v in given.items()})
    compare(api, o, T, given, 'all')
    drop = api.choice('left_out', TYPES[T])
    rest = {p: v for p, v in given.items() if p != drop}
    q = make(e, T, {p: v.give for p, v in rest.items()})
    compare(api, q, T, rest, 'all but one')


@harness('J13', shards=product(T=['Note', 'Link', 'Like', 'OrderedCollectionPage', 'Question', 'Place', 'Tombstone',
                                  'Relationship', 'Profile'], part=[0, 1, 2]),
         thorough=product(T=sorted(TYPES), part=[0, 1, 2]),
         bounds='all properties of a type given, then any one assigned anew or set to None', modules=MODS)
def h_assign(api, T, part):
    e, client = engine(api)
    given = {p: values(api, e, p, 'v_' + p, first=True) for p in TYPES[T]}
    o = make(e, T, {p: v.give for p, v in given.items()})
    p = api.choice('property', TYPES[T][part::3])
    if api.choice('to_none', [False, True]):
        setattr(o, p, None)
        api.check(getattr(o, p) is None, 'a property set to None is None')
        del given[p]
    else:
        given[p] = values(api, e, p, 'w', lists=T in ('Note', 'Link', 'Question'))
        setattr(o, p, given[p].give)
    for q, v in given.items():
        api.check(v.read(api, getattr(o, q)), 'each property holds the value last given to it')
    got, want = o.data(), {k: v.out for k, v in given.items()}
    api.check(sorted(set(got) - {'@context', 'type'}) == sorted(set(want) - {'type'}),
              'the serialised form has exactly the given properties')
    for k in want:
        if k != 'type':
            api.check(api.eq(got[k], want[k]), 'the serialised form has the given values')


@harness('J13', shards=[dict(T=t) for t in ['Note', 'Link', 'Like', 'OrderedCollectionPage', 'Question', 'Place', 'Tombstone',
                                            'Relationship', 'Profile']],
         thorough=[dict(T=t) for t in sorted(TYPES)],
         bounds='two objects of a type (and one of another), any one property', modules=MODS)
def h_isolation(api, T):
    e, client = engine(api)
    p = api.choice('property', TYPES[T])
    a, b = values(api, e, p, 'a', first=True), values(api, e, p, 'b', first=True)
    one = make(e, T, {p: a.give})
    two_ = make(e, T, {p: b.give})
    bare = make(e, T, {})
    compare(api, one, T, {p: a}, 'first')
    compare(api, two_, T, {p: b}, 'second')
    compare(api, bare, T, {}, 'bare')
    setattr(bare, p, a.give)
    setattr(one, p, None)
    api.check(getattr(one, p) is None and p not in one.data(), 'a property set to None is absent')
    compare(api, two_, T, {p: b}, 'second')
    api.check(a.read(api, getattr(bare, p)), 'assigned')


@harness('J13', shards=product(T=COLLECTIONS, n=[0, 1, 2, 3]), bounds='up to three items', modules=MODS)
def h_iterate(api, T, n):
    e, client = engine(api)
    kinds = [api.choice('kind%d' % i, ['object', 'link']) for i in range(n)]
    vs = [value(api, e, k, 'v%d' % i, 'items') for i, k in enumerate(kinds)]
    how = api.choice('given', ['list', 'none'] if n == 0 else ['list', 'tuple'])
    items = None if how == 'none' else (list if how == 'list' else tuple)(v.give for v in vs)
    o = make(e, T, {'items': items})
    got = list(o)
    api.check(len(got) == n and all(v.read(api, g) for v, g in zip(vs, got)), 'iterating gives the items in order')
    api.check(api.eq(o.totalItems, n), 'the number of items')
    api.check(api.eq(o.data().get('items'), None if items is None else [v.out for v in vs]), 'the items are serialised')


# ------------------------------------------------------------------ J05
OWNER = {}
for t in ['Object', 'Link', 'Activity', 'Collection', 'OrderedCollection', 'CollectionPage', 'OrderedCollectionPage',
          'Question', 'Relationship', 'Place', 'Profile', 'Tombstone']:
    for p in TYPES[t]:
        OWNER.setdefault(p, 'Note' if t == 'Object' else t)


def probe(api, e, kind):
    """(value, kinds of which it is a value)"""
    if kind == 'int':
        v = api.int('v')
        return v, ['number'] if v >= 0 else ['negative']
    if kind == 'real':
        v = api.real('v')
        return v, ['real'] if v >= 0 else ['negreal']
    if kind == 'text':
        return api.concat('?', letter(api, 'v')), ['text']
    if kind == 'address':
        return api.concat('https://a/', letter(api, 'v')), ['address']
    if kind == 'object':
        return e.Person(name=letter(api, 'v')), ['object']
    if kind == 'collection':
        return e.OrderedCollection(name=letter(api, 'v')), ['object', 'collection']
    if kind == 'page':
        return e.OrderedCollectionPage(name=letter(api, 'v')), ['object', 'collection', 'page']
    if kind == 'link':
        return e.Link(href=letter(api, 'v')), ['link']
    if kind == 'mention':
        return e.Mention(href=letter(api, 'v')), ['link']
    if kind == 'dict':
        return {'k': letter(api, 'v')}, ['dict']
    if kind == 'linkdict':
        return {'href': api.concat('https://a/', letter(api, 'v'))}, ['dict', 'linkdict']
    if kind == 'time':
        return api.datetime.datetime(2024, 2, 3), ['time']
    if kind == 'timetext':
        return api.concat('2024-02-03T04:05:0', api.str('v', 1, 48, 57), 'Z'), ['text', 'timetext']
    if kind == 'span':
        return api.datetime.timedelta(seconds=5), ['span']
    return None, None


PROBES = ['int', 'real', 'text', 'address', 'object', 'collection', 'page', 'link', 'mention', 'dict', 'linkdict', 'time',
          'timetext', 'span', 'none']


def may(prop, kinds):
    permitted = KINDS[prop][0]
    if prop in LINKED and 'linkdict' in kinds:
        return True
    if 'negreal' in kinds:
        return 'negative' in permitted
    return any(k in permitted for k in kinds)


@harness('J05', shards=product(slice=list(range(8))), bounds='each property of the vocabulary, values of fifteen kinds, '
         'alone and in lists', modules=MODS)
def h_vocabulary(api, slice):
    e, client = engine(api)
    props = sorted(KINDS)
    prop = api.choice('property', props[slice::8])
    o = make(e, OWNER[prop], {})
    old = values(api, e, prop, 'old', first=True)
    setattr(o, prop, old.give)
    kind = api.choice('kind', PROBES)
    v, kinds = probe(api, e, kind)
    ok = v is None or may(prop, kinds)
    if api.choice('in_list', [False, True]):
        v, ok = [v], ok and KINDS[prop][1]
    r = attempt(lambda: setattr(o, prop, v), ValueError)
    api.check((r[0] == 'ok') == ok, 'a value is accepted exactly when the property permits it')
    if not ok:
        api.check(old.read(api, getattr(o, prop)), 'a refused value leaves the previous one')
