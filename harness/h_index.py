"""J15: objects are read like a mapping of their properties."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import same

MODS = ['jsonld.base', 'jsonld.jsonld']

OWN = ['a', 'bc', 'de']


def classes():
    """a class with three properties, one that inherits, overrides and adds, one that has none"""
    from jsonld.base import PropertyAwareObject, contextualproperty

    class Base(PropertyAwareObject):
        plain = 'no property'

        @property
        def a(self):
            return self.__dict__.get('_a')

        @contextualproperty
        def bc(self):
            return self.__dict__.get('_bc')

        @bc.getter_context('other')
        def bc(self):
            return 'in the other context'

        @property
        def de(self):
            return self.__dict__.get('_de')

        def method(self):
            return 1

    class Derived(Base):
        @property
        def a(self):
            return self.__dict__.get('_over')

        @property
        def z(self):
            return self.__dict__.get('_z')

    class Empty(PropertyAwareObject):
        pass

    class Mixin:
        @property
        def mx(self):
            return self.__dict__.get('_mx')

    class Third(Derived, Mixin):
        @property
        def q(self):
            return self.__dict__.get('_q')

    return {'Base': Base, 'Derived': Derived, 'Empty': Empty, 'Third': Third}


FIELDS = {'Third': {'a': '_over', 'bc': '_bc', 'de': '_de', 'z': '_z', 'mx': '_mx', 'q': '_q'},
          'Base': {'a': '_a', 'bc': '_bc', 'de': '_de'},
          'Derived': {'a': '_over', 'bc': '_bc', 'de': '_de', 'z': '_z'}, 'Empty': {}}


def build(api, T, tag=''):
    o = classes()[T]()
    vals = {}
    for n, field in FIELDS[T].items():
        v = api.int(tag + 'v_' + n)
        # of six properties, only the last two may be None
        if (T != 'Third' or n in ('mx', 'q')) and api.bool(tag + 'none_' + n):
            v = None
        o.__dict__[field] = v
        vals[n] = v
    return o, vals


def equal(api, a, b):
    return a is None if b is None else same(api, a, b)


def pairs(api, got, vals, msg):
    """each property once, with its value; the namespace counts as a property that is not set"""
    got = [(k, v) for k, v in got if k != '__namespace__']
    api.check(len(got) == len(vals), msg + ': every property once')
    for n, v in vals.items():
        mine = [x for k, x in got if k == n]
        api.check(len(mine) == 1 and equal(api, mine[0], v), msg + ': with its value')


def iterable(kind, xs):
    return {'list': list, 'tuple': tuple, 'set': set, 'gen': iter, 'dict': lambda v: {x: 0 for x in v}}[kind](xs)


KINDS = ['list', 'tuple', 'set', 'gen', 'dict']
TYPES = ['Base', 'Derived', 'Third', 'Empty']


@harness('J15', shards=product(T=TYPES, n=[0, 1, 2, 12]),
         bounds='texts of 0-2 characters (and 13 characters), objects with 0-6 properties that are None or any integer', modules=MODS)
def h_name(api, T, n):
    o, vals = build(api, T)
    k = api.str('k', n if n != 12 else 13, 0, 0x7f)
    if n == 12:
        # longer names: only the namespace has one as long
        if k == '__namespace__':
            return
    r = attempt(lambda: o[k], KeyError)
    mine = [(x, v) for x, v in vals.items() if k == x]
    if mine:
        api.check(r[0] == 'ok' and len(r[1]) == 1, 'one name gives its property')
        for kk, v in r[1].items():
            api.check(kk == mine[0][0] and equal(api, v, mine[0][1]), 'one name gives its value')
    else:
        api.check(r[0] == 'exc', 'another name raises KeyError')


@harness('J15', shards=product(T=['Base', 'Derived'], kind=KINDS, bad=[False, True]) +
         product(T=['Third'], kind=['list', 'gen'], bad=[False, True]) +
         product(T=['Empty'], kind=['list', 'gen'], bad=[False, True]),
         bounds='any subset of the properties in any kind of iterable, with or without a name of two characters that is '
                'none', modules=MODS)
def h_names(api, T, kind, bad):
    o, vals = build(api, T)
    ask = [n for n in vals if api.bool('ask_' + n)]
    if bad:
        k = api.str('k', 2, 0, 0x7f)
        if k in list(vals):
            return
        at = api.choice('at', ['first', 'last'])
        names = [k] + ask if at == 'first' else ask + [k]
        r = attempt(lambda: o[iterable(kind, names)], KeyError)
        api.check(r[0] == 'exc', 'an unknown name among the names raises KeyError')
        return
    got = o[iterable(kind, ask)]
    api.check(isinstance(got, dict) and len(got) == len(ask), 'exactly the named properties')
    for n in ask:
        api.check(n in got and equal(api, got[n], vals[n]), 'with their values')
    if kind in ('list', 'tuple') and ask:
        again = o[iterable(kind, ask + ask[:1])]
        api.check(len(again) == len(ask), 'a name given twice')


@harness('J15', shards=product(T=TYPES, how=['iter', 'dict', 'twice', 'nested']),
         bounds='objects with 0-6 properties that are None or any integer', modules=MODS)
def h_iterate(api, T, how):
    o, vals = build(api, T)
    if how == 'iter':
        pairs(api, [p for p in o], vals, 'iteration')
    elif how == 'dict':
        d = dict(o)
        pairs(api, list(d.items()), vals, 'as dict')
    elif how == 'twice':
        a = [p for p in o]
        v = api.int('new')
        for n, field in FIELDS[T].items():
            o.__dict__[field] = v
        pairs(api, a, vals, 'first iteration')
        pairs(api, [p for p in o], {n: v for n in vals}, 'iteration after a change')
    else:
        for _ in o:
            pairs(api, [p for p in o], vals, 'iteration in an iteration')
    other, ovals = build(api, T, 'o')
    pairs(api, [p for p in other], ovals, 'objects have their own values')
    pairs(api, [p for p in other], ovals, 'objects have their own values')
    api.check({k for k, _ in other if k != '__namespace__'} == set(vals), 'the same properties')


@harness('J15', shards=product(T=['Base', 'Derived', 'Third'], first=['Base', 'Derived', 'Third', 'none']),
         bounds='classes in either order of use; a context in which a property has another value', modules=MODS)
def h_classes(api, T, first):
    kls = classes()
    if first != 'none':
        kls[first]()
    o = kls[T]()
    got = set(o.__properties__) - {'__namespace__'}
    api.check(got == set(FIELDS[T]), 'the properties of the class and what it inherits')
    if first != 'none':
        api.check(set(kls[first]().__properties__) - {'__namespace__'} == set(FIELDS[first]),
                  'the properties of the class used first')
    v = api.int('v')
    o.__dict__['_bc'] = v
    ctx = api.str('ctx', 5, 0, 0x7f)
    with o.switch_context(ctx):
        x = o['bc']['bc']
        y = [b for a, b in o if a == 'bc'][0]
        if ctx == 'other':
            api.check(x == 'in the other context' and y == x, 'read in the context in force')
        else:
            api.check(same(api, x, v) and same(api, y, v), 'contexts without own getter')
    api.check(same(api, o['bc']['bc'], v), 'after the context')


@harness('J15', shards=product(kind=KINDS + ['one'], then=['read', 'again']),
         bounds='one of three properties raises when it is read; any subset of names in any kind of iterable', modules=MODS)
def h_raising(api, kind, then):
    from jsonld.base import PropertyAwareObject

    class Boom(Exception):
        pass

    def make(n):
        def get(self):
            reads.append(n)
            if n == bad:
                raise Boom()
            return vals[n]
        return property(get)

    class Thing(PropertyAwareObject):
        pass
    names = ['a', 'bc', 'de']
    vals = {n: api.int('v_' + n) for n in names}
    bad = api.choice('bad', names + [None])
    reads = []
    for n in names:
        setattr(Thing, n, make(n))
    o = Thing()
    if kind == 'one':
        ask = [api.choice('ask', names)]
        get = lambda: o[ask[0]]
    else:
        ask = [n for n in names if api.bool('ask_' + n)]
        get = lambda: o[iterable(kind, ask)]
    if then == 'again':
        attempt(get, Boom)
        attempt(lambda: list(o), Boom)
        reads.clear()
    r = attempt(get, Boom)
    api.check((r[0] == 'exc') == (bad in ask), 'the exception of a named property, and of no other, passes through')
    api.check(set(reads) <= set(ask), 'only the named properties are read')
    if r[0] == 'ok':
        api.check(set(r[1]) == set(ask) and all(same(api, r[1][n], vals[n]) for n in ask), 'with their values')
    r = attempt(lambda: list(o), Boom)
    api.check((r[0] == 'exc') == (bad is not None), 'iteration: exceptions pass through')
