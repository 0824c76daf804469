"""J10: parsing JSON gives objects of the declared types with their data."""
import copy
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.vocabulary import TYPES, KINDS, LINKED
from harness.h_vocab import make, letter, same, two, FEW, OWNER
from harness.h_links import setup, MODS as LMODS, AS

MODS = LMODS + ['jsonld.engine.json_input', 'jsonld.docloader']


class Data:
    """JSON data for a property with what is to be read and to be serialised"""

    def __init__(self, json, read, out=None):
        self.json, self.read, self.out = json, read, json if out is None else out


def plain(json, out=None):
    return Data(json, lambda api, got: same(api, got, json), out)


def nested(api, e, name, T='Note', **more):
    c = letter(api, name)
    d = {'type': T, 'content': c, 'id': api.concat('https://n/', c), **more}
    return Data(d, lambda api, got: (type(got) is getattr(e, T) and api.eq(got.content, c) and api.eq(got.id, d['id']) and
                                     got.name is None),
                dict(d))


def datum(api, e, kind, name, prop):
    if kind == 'object':
        return nested(api, e, name)
    if kind in ('page', 'collection'):
        n = api.int(name, 0, 9)
        T = 'CollectionPage' if kind == 'page' else 'Collection'
        d = {'type': T, 'totalItems': n}
        return Data(d, lambda api, got: type(got) is getattr(e, T) and api.eq(got.totalItems, n))
    if kind == 'link':
        href = api.concat('https://l/', letter(api, name))
        return Data({'type': 'Link', 'href': href}, lambda api, got: type(got) is e.Link and api.eq(got.href, href), href)
    if kind == 'address':
        a = api.concat('https://a/', letter(api, name))
        if prop not in LINKED:
            return plain(a)
        return Data(a, lambda api, got: type(got) is e.Link and api.eq(got.href, a))
    if kind == 'text':
        return plain(api.str(name, 2) if prop not in LINKED else api.concat('?', letter(api, name)))
    if kind == 'dict':
        c = letter(api, name)
        return Data({'k': c, 'l': [c, {'m': None}], 'n': {'type': 'Note', 'content': c}},
                    lambda api, got: (type(got) is dict and sorted(got) == ['k', 'l', 'n'] and api.eq(got['k'], c) and
                                      api.eq(got['l'], [c, {'m': None}]) and
                                      (type(got['n']) is e.Note and api.eq(got['n'].content, c))))
    if kind in ('time', 'timetext'):
        m = api.int(name, 0, 59)
        t = api.datetime.datetime(2024, 2, 3, 4, 5, m)
        return Data(api.concat('2024-02-03T04:05:', two(m), 'Z'), lambda api, got: api.eq(got, t))
    if kind == 'span':
        return plain(api.concat('PT', letter(api, name), 'S'))
    if kind == 'flag':
        return plain(api.bool(name))
    if kind == 'number':
        return plain(api.int(name, 0))
    if kind == 'negative':
        return plain(api.int(name, None, -1))
    if kind == 'real':
        return plain(api.real(name, 0))
    raise AssertionError(kind)


def data_of(api, e, prop, name, first=False):
    kinds, many = KINDS[prop]
    if first:
        return datum(api, e, kinds[0], name, prop)
    shape = api.choice(name + '_kind', kinds + (['list', 'empty'] if many else []))
    if shape == 'empty':
        return plain([])
    if shape == 'list':
        ds = [datum(api, e, k, '%s%d' % (name, i), prop) for i, k in enumerate([kinds[-1], kinds[0]])]
        return Data([d.json for d in ds],
                    lambda api, got: (isinstance(got, list) and len(got) == len(ds) and
                                      all(d.read(api, g) for d, g in zip(ds, got))),
                    [d.out for d in ds])
    return datum(api, e, shape, name, prop)


def freeze(v):
    """a copy that shares the leaves"""
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, list):
        return [freeze(x) for x in v]
    return v


DERIVED = ('totalItems', 'startIndex', '@context')


def check_object(api, o, T, e, given, declared=True):
    api.check(type(o) is getattr(e, T), 'the object is of exactly the declared type')
    for p in TYPES[T]:
        if p in given:
            api.check(given[p].read(api, getattr(o, p)), 'a property holds the given value')
        elif p not in DERIVED:
            api.check(getattr(o, p) is None, 'a property that is not given is None')
    out = o.data()
    want = {'type': T, **{p: d.out for p, d in given.items()}}
    api.check(sorted(set(out) - set(DERIVED)) == sorted(set(want) - set(DERIVED)),
              'the serialised form has the properties of the data')
    for p in want:
        api.check(api.eq(out[p], want[p]), 'the serialised form has the values of the data')


@harness('J10', shards=[dict(T=t) for t in FEW], thorough=[dict(T=t, more=True) for t in sorted(TYPES)],
         bounds='one property of any kind with symbolic values, as dictionary and as text; quick: one type '
                'per constructor', modules=MODS)
def h_property(api, T, more=False):
    e, web = setup(api)
    web.mode = 'connection'
    p = api.choice('property', TYPES[T])
    given = {p: data_of(api, e, p, 'v')}
    extras = ['none', 'value', 'object']
    extra = api.choice('extra', extras if more else [extras[TYPES[T].index(p) % 3]])
    data = {'@context': AS, 'type': T, **{k: d.json for k, d in given.items()}}
    if extra != 'none':
        data['surplus'] = letter(api, 'x') if extra == 'value' else {'type': 'Note', 'content': letter(api, 'x')}
        data['alsoKnownAs'] = ['https://k/']
    before = freeze(data)
    text = extra == 'none'
    o = e.from_json(api.json_text(data) if text else data)
    check_object(api, o, T, e, given)
    api.check(not hasattr(o, 'surplus') and not hasattr(o, 'alsoKnownAs'), 'other keys are ignored')
    api.check(api.eq(data, before), 'the input is not changed')
    again = e.from_json(o.json())
    api.check(type(again) is type(o) and api.eq(again.data(), o.data()), 'the JSON of an object gives an equal object')


def uri(api, T, form):
    return {'short': T, 'full': AS + '#' + T, 'prefix': 'as:' + T, 'list': [T], 'list2': [T, 'Person', 'https://x/#Y'],
            'fulllist': [AS + '#' + T]}[form]


@harness('J10', shards=product(form=['short', 'full', 'prefix', 'list', 'list2', 'fulllist'],
                               key=['type', '@type']),
         bounds='every registered type, every way of naming it', modules=MODS)
def h_types(api, form, key):
    e, web = setup(api)
    web.mode = 'connection'
    T = api.choice('type', sorted(TYPES))
    c = letter(api, 'c')
    context = api.choice('context', ['given', 'absent', 'list', 'inline'])
    data = {key: uri(api, T, form), 'name': c}
    inline = {'as': AS + '#', '@vocab': AS + '#', 'type': '@type', 'id': '@id'}
    if context != 'absent':
        data['@context'] = {'given': AS, 'list': [AS, {'ext': 'https://ext.example/#'}], 'inline': inline}[context]
    before = freeze(data)
    o = e.from_json(data)
    api.check(type(o) is getattr(e, T), 'the object is of exactly the declared type')
    api.check(type(o).__name__ == T, 'the type has its name')
    api.check(api.eq(o.name, c), 'a property holds the given value')
    api.check(o.__namespace__ == AS + '#' + T, 'the object knows its type')
    api.check(api.eq(o.data()['@context'], data.get('@context', AS)), 'the context of the data is kept')
    if (form == 'short' and key == 'type') or T not in ('Object', 'Link'):
        # plain objects and links have the type that was given under that name
        api.check(o.data()['type'] == T, 'the type is serialised')
    api.check(api.eq(data, before), 'the input is not changed')


@harness('J10', shards=product(T=['Nota', 'note', '', 'https://www.w3.org/ns/activitystreams', AS + '#Nota', 'ext:Note',
                                  '#Note', None, 'LIST', 'SECOND', 'EMPTY']),
         bounds='unknown and missing types, at the top and nested', modules=MODS)
def h_unknown(api, T):
    e, web = setup(api)
    web.mode = 'connection'
    c = letter(api, 'c')
    T = {'LIST': ['Nota'], 'SECOND': ['Nota', 'Note'], 'EMPTY': []}.get(T, T) if isinstance(T, str) else T
    data = {'@context': [AS, {'ext': 'https://ext.example/#'}], 'name': c}
    if T is not None:
        data[api.choice('key', ['type', '@type'])] = T
    where = api.choice('where', ['top', 'text', 'indexed', 'nested'])
    if where == 'nested':
        if T is None or T == []:
            return
        o = e.from_json({'@context': AS, 'type': 'Create', 'object': data, 'actor': {'type': 'Person', 'name': c}})
        api.check(type(o) is e.Create and o.object is None and type(o.actor) is e.Person,
                  'a nested object of an unknown type is left out')
        return
    known = dict(e.class_registry)
    r = attempt(lambda: e.from_json(data) if where == 'top' else
                e.from_json(api.json_text(data)) if where == 'text' else e[api.json_text(data)], ValueError)
    api.check(r[0] == 'exc', 'data of an unknown type is refused')
    api.check(e.class_registry == known, 'the known types stay the same')


@harness('J10', shards=product(shape=['object', 'list', 'dict', 'deep', 'context']),
         bounds='nested objects to depth 4, lists of three', modules=MODS)
def h_nested(api, shape):
    e, web = setup(api)
    web.mode = 'connection'
    c, d = letter(api, 'c'), letter(api, 'd')
    if shape == 'object':
        T = api.choice('type', ['Note', 'Person', 'Link', 'OrderedCollection', 'Place', 'Tombstone', 'Question', 'Like'])
        form = api.choice('form', ['short', 'full', 'list'])
        key = api.choice('key', ['type', '@type'])
        o = e.from_json({'@context': AS, 'type': 'Create', 'object': {key: uri(api, T, form), 'name': c}, 'name': d})
        if T == 'Link':
            api.check(type(o.object) is e.Link and api.eq(o.object.name, c), 'nested objects are of their type')
        else:
            api.check(type(o.object) is getattr(e, T) and api.eq(o.object.name, c), 'nested objects are of their type')
        api.check(type(o) is e.Create and api.eq(o.name, d), 'the outer object has its own data')
    elif shape == 'list':
        kinds = [api.choice('kind%d' % i, ['Note', 'address', 'link', 'dict', 'Person']) for i in range(3)]
        cs = [letter(api, 'c%d' % i) for i in range(3)]
        items = [{'Note': lambda c: {'type': 'Note', 'name': c}, 'Person': lambda c: {'type': 'Person', 'name': c},
                  'address': lambda c: api.concat('https://a/', c), 'link': lambda c: {'type': 'Mention', 'href': c},
                  'dict': lambda c: {'name': c}}[k](x) for k, x in zip(kinds, cs)]
        o = e.from_json({'@context': AS, 'type': 'Note', 'tag': items})
        api.check(isinstance(o.tag, list) and len(o.tag) == 3, 'lists keep their length')
        for k, x, got in zip(kinds, cs, o.tag):
            ok = {'Note': lambda: type(got) is e.Note and api.eq(got.name, x),
                  'Person': lambda: type(got) is e.Person and api.eq(got.name, x),
                  'address': lambda: type(got) is e.Link and api.eq(got.href, api.concat('https://a/', x)),
                  'link': lambda: type(got) is e.Mention and api.eq(got.href, x),
                  'dict': lambda: api.eq(got, {'name': x})}[k]()
            api.check(ok, 'lists hold their items in order')
    elif shape == 'dict':
        inner = {'en': c, 'n': api.int('n'), 'f': api.bool('f'), 'z': None, 'l': [c, {'m': d}], 'o': {'type': 'Note', 'name': d}}
        o = e.from_json({'@context': AS, 'type': 'Note', 'name': inner})
        api.check(sorted(o.name) == sorted(inner), 'untyped objects stay dictionaries with their keys')
        for k in ('en', 'n', 'f', 'z', 'l'):
            api.check(api.eq(o.name[k], inner[k]), 'untyped objects stay dictionaries with their values')
        api.check(type(o.name['o']) is e.Note and api.eq(o.name['o'].name, d), 'typed objects inside them are of their type')
    elif shape == 'deep':
        o = e.from_json({'@context': AS, 'type': 'Announce', 'object': {
            'type': 'Create', 'actor': {'type': 'Person', 'name': c, 'icon': [{'type': 'Image', 'name': d}]},
            'object': {'type': 'Note', 'attributedTo': {'type': 'Group', 'name': d}, 'content': c}}})
        api.check(type(o.object.actor.icon[0]) is e.Image and api.eq(o.object.actor.icon[0].name, d), 'nested data')
        api.check(type(o.object.object.attributedTo) is e.Group and api.eq(o.object.object.attributedTo.name, d), 'nested data')
        api.check(api.eq(o.object.object.content, c) and api.eq(o.object.actor.name, c), 'nested data')
        api.check(o.object.object.attributedTo.content is None and o.object.content is None, 'nested data')
    else:
        # a nested object is read in the context of the outer one unless it has its own
        remark = {'Remark': AS + '#Note', 'type': '@type', 'name': AS + '#name', 'id': '@id'}
        person = {'Remark': AS + '#Person', 'type': '@type', 'name': AS + '#name', 'id': '@id'}
        own = api.choice('own_context', [False, True])
        leaf = {'type': 'Remark', 'name': d}
        # where the innermost object is: alone, in a list, in a dictionary
        place, put, pick = [
            ('attachment', lambda v: v, lambda o: o),
            ('attachment', lambda v: [v], lambda o: o[0]),
            ('attachment', lambda v: ['https://a/', v, v], lambda o: o[2]),
            ('nameMap', lambda v: {'k': v}, lambda o: o['k']),
            ('nameMap', lambda v: {'k': [v]}, lambda o: o['k'][0])][api.choice('where', list(range(5)))]
        mid = {'type': 'Remark', 'name': c}
        key = 'attachment' if place == 'attachment' else 'name'
        mid[key] = put(leaf)
        if own:
            mid['@context'] = person
        # where the middle object is
        shape_ = api.choice('middle', ['alone', 'list', 'dict'])
        top = {'@context': remark, 'type': 'Remark'}
        if shape_ == 'dict':
            top['name'] = {'k': mid}
        else:
            top['attributedTo'] = mid if shape_ == 'alone' else [mid, {'type': 'Remark', 'name': c}]
        before = freeze(top)
        o = e.from_json(top)
        api.check(api.eq(top, before), 'the input is not changed')
        got = o.name['k'] if shape_ == 'dict' else o.attributedTo if shape_ == 'alone' else o.attributedTo[0]
        T = e.Person if own else e.Note
        api.check(type(o) is e.Note and type(got) is T, 'the outer context is used')
        if key != 'name':
            api.check(api.eq(got.name, c), 'the outer context is used')
        deep = pick(getattr(got, key))
        api.check(type(deep) is T and api.eq(deep.name, d), 'the nearest context is used')
        api.check(api.eq(got.acontext, person if own else remark) and api.eq(deep.acontext, person if own else remark) and
                  api.eq(o.acontext, remark), 'objects have the context of their data')
        if shape_ == 'list':
            api.check(type(o.attributedTo[1]) is e.Note and api.eq(o.attributedTo[1].acontext, remark),
                      'the context of one object does not apply to others')


def document(api, e, kind, tag):
    """(data, check): a document and what reading it alone has to give"""
    c = letter(api, 'c' + tag)
    named = {'name': AS + '#name'}
    if kind in ('Note', 'Person', 'full'):
        T = 'Note' if kind == 'full' else kind
        return {'@context': AS, 'type': AS + '#Note' if kind == 'full' else kind, 'name': c}, lambda o: type(o) is getattr(e, T) and api.eq(o.name, c)
    if kind in ('T-Note', 'T-Person'):
        T = kind[2:]
        return {'@context': {'type': '@type', 'T': AS + '#' + T}, 'type': 'T', 'name': c}, \
            lambda o: type(o) is getattr(e, T) and api.eq(o.name, c)
    if kind in ('kind-Note', 'kind-Person'):
        T = kind[5:]
        return {'@context': {'kind': '@type'}, 'kind': AS + '#' + T, 'name': c}, \
            lambda o: type(o) is getattr(e, T) and api.eq(o.name, c)
    if kind == 'nocontext':
        return {'type': 'Person', 'name': c}, lambda o: type(o) is e.Person and api.eq(o.name, c) and api.eq(o.acontext, AS)
    if kind == 'unknown':
        return {'@context': {'type': '@type', 'T': AS + '#Nota'}, 'type': 'T', 'name': c}, None
    ctx = {'type': '@type', 'T': AS + '#Note', 'U': AS + '#Create', 'object': AS + '#object'}
    if kind == 'inside':
        ctx['T'] = AS + '#Person'
    return {'@context': ctx, 'type': 'U', 'object': {'type': 'T', 'name': c}}, \
        lambda o: type(o) is e.Create and type(o.object) is (e.Person if kind == 'inside' else e.Note) and api.eq(o.object.name, c)


DOCUMENTS = ['Note', 'Person', 'full', 'T-Note', 'T-Person', 'kind-Note', 'kind-Person', 'nocontext', 'unknown', 'inside', 'inside2']


@harness('J10', shards=product(first=DOCUMENTS, n=[2]),
         thorough=product(first=DOCUMENTS, n=[3]),
         bounds='two (three) documents of eleven kinds, one after another on one engine', modules=MODS)
def h_sequence(api, first, n):
    e, web = setup(api)
    web.mode = 'connection'
    kinds = [first] + [api.choice('kind%d' % i, DOCUMENTS) for i in range(1, n)]
    docs = [document(api, e, k, str(i)) for i, k in enumerate(kinds)]
    objects = []
    for data, right in docs:
        before = freeze(data)
        text = api.choice('text%d' % len(objects), [False, True])
        r = attempt(lambda: e.from_json(api.json_text(data) if text else data), ValueError)
        api.check((r[0] == 'exc') == (right is None), 'what was read before does not matter')
        api.check(right is None or right(r[1]), 'what was read before does not matter')
        api.check(api.eq(data, before), 'the input is not changed')
        objects.append(r[1])
    for o, (data, right) in zip(objects, docs):
        api.check(right is None or right(o), 'what is read afterwards does not matter')


@harness('J10', shards=product(n=[0, 1, 2, 3]), bounds='lists of up to three texts', modules=MODS)
def h_index(api, n):
    e, web = setup(api)
    web.mode = 'connection'
    Ts = [api.choice('type%d' % i, ['Note', 'Person', 'Link']) for i in range(n)]
    cs = [letter(api, 'c%d' % i) for i in range(n)]
    texts = [api.json_text({'@context': AS, 'type': t, 'name': c}) for t, c in zip(Ts, cs)]
    got = e[api.choice('as', [list, tuple])(texts)]
    api.check(len(got) == n and all(type(o) is getattr(e, t) and api.eq(o.name, c) for o, t, c in zip(got, Ts, cs)),
              'indexing with texts gives one object for each, in order')
    if n == 1:
        one = e[texts[0]]
        api.check(type(one) is getattr(e, Ts[0]) and api.eq(one.name, cs[0]), 'indexing with a text gives its object')
    if n:
        return
    bad = api.choice('bad', [4, None, {'type': 'Note'}, [{'type': 'Note'}], ['{}', None]])
    api.check(attempt(lambda: e[bad], TypeError)[0] == 'exc', 'anything but texts is refused')
