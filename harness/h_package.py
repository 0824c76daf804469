"""J11: engines; J12: packages; J16: classes of values that pass through packages."""
from sx.registry import harness, product
from sx.api_conc import attempt

MODS = ['jsonld', 'jsonld.package', 'jsonld.kamino', 'jsonld.engine.jsonld_engine', 'jsonld.engine.json_input',
        'jsonld.base', 'jsonld.jsonld']
NS = 'https://t.example/#'


def base():
    from jsonld.jsonld import ApplicationActivityJson

    class Root(ApplicationActivityJson):
        kind = 'Root'

        @classmethod
        def __get_namespace__(cls):
            return NS + cls.kind

        def __init__(self, acontext=None, **kwargs):
            super().__init__(acontext=acontext)
            for k, v in kwargs.items():
                if not k.startswith('__'):
                    setattr(self, k, v)
    return Root


def cls_of(name, parents, **attrs):
    return type(name, tuple(parents), {'kind': name, **attrs})


def prop_class(name, slot=None):
    """a property of that name that stores its value"""
    from jsonld.base import JsonProperty, contextualproperty
    slot = slot or '_%s_' % name

    def get(self):
        return getattr(self, slot, None)

    def put(self, val):
        setattr(self, slot, val)
    get.__name__ = put.__name__ = name
    return type(name.title(), (JsonProperty,), {
        name: contextualproperty(get).setter(put),
        '__get_namespace__': classmethod(lambda cls: NS + 'dfn-' + name)})


def snapshot(classes):
    return [(c, c.__mro__, dict(vars(c))) for c in classes]


def unchanged(snap):
    return all(c.__mro__ == mro and set(vars(c)) == set(was) and all(vars(c)[k] is v for k, v in was.items())
               for c, mro, was in snap)


def iterable(kind, items):
    items = list(items)
    return {'tuple': lambda: tuple(items), 'list': lambda: items, 'generator': lambda: (x for x in items),
            'dictkeys': lambda: dict.fromkeys(items).keys()}[kind]()


# ------------------------------------------------------------------ J12
def family(api, shape, marks):
    """classes related in the given way; each answers with its mark"""
    Root = base()

    def who(i):
        return {'mark': marks[i], 'who': lambda self: (self, marks[i])}
    if shape == 'chain':
        A = cls_of('A', [Root], **who(0))
        B = cls_of('B', [A], **who(1))
        C = cls_of('C', [B], **who(2))
    elif shape == 'fork':
        A = cls_of('A', [Root], **who(0))
        B = cls_of('B', [A], **who(1))
        C = cls_of('C', [A], **who(2))
    elif shape == 'diamond':
        A = cls_of('A', [Root], **who(0))
        B = cls_of('B', [Root], **who(1))
        C = cls_of('C', [A, B], **who(2))
    elif shape == 'gap':
        # a class between A and B that no package knows
        A = cls_of('A', [Root], **who(0))
        M = cls_of('M', [A], **who(3), hidden=marks[3])
        B = cls_of('B', [M])
        C = cls_of('C', [B], **who(2))
    else:
        A, B, C = (cls_of(n, [Root], **who(i)) for i, n in enumerate('ABC'))
    return Root, A, B, C


SHAPES = ['chain', 'fork', 'diamond', 'gap', 'apart']


def marks_of(api, n=4):
    return [api.int('mark%d' % i) for i in range(n)]


@harness('J12', shards=product(shape=SHAPES, kind=['tuple', 'generator']),
         thorough=product(shape=SHAPES, kind=['tuple', 'list', 'generator', 'dictkeys'], both=[True]),
         bounds='three classes related in five ways, every subset of them in every order, every mapping of two properties '
                'onto them', modules=MODS)
def h_build(api, shape, kind, both=False):
    from jsonld.package import JsonLdPackage
    marks = marks_of(api)
    Root, A, B, C = family(api, shape, marks)
    subsets = [[A], [B], [C], [A, B], [B, A], [A, C], [C, A], [B, C], [C, B], [A, B, C], [C, B, A], [B, A, C], [C, A, B],
               [B, C, A], [A, C, B], []]
    chosen = subsets[api.choice('classes', list(range(len(subsets))))]
    P, Q = prop_class('p'), prop_class('q')
    has_p = [c for c in chosen if api.choice('p_' + c.__name__, [False, True])]
    # the second property goes where the first does not, or anywhere
    has_q = [c for c in chosen if (api.choice('q_' + c.__name__, [False, True]) if both else c not in has_p)]
    mapping = {}
    for c in chosen:
        names = ([NS + 'dfn-p'] if c in has_p else []) + ([NS + 'dfn-q'] if c in has_q else [])
        if names:
            mapping[NS + c.__name__] = tuple(names)
    # classes may have been used before
    if api.choice('used', [False, True]):
        for c in (A, C, B):
            c()
        P()
        Q.__get_registration__()
    snap = snapshot([Root, A, B, C, P, Q])
    package = JsonLdPackage('https://t.example/', iterable(kind, chosen), iterable(kind, [P, Q]), mapping)
    api.check(unchanged(snap), 'the given classes are not changed')
    api.check(package.namespace == 'https://t.example/', 'the package has its name')
    api.check(len(package.objects) == len(chosen) and len(package.properties) == 2, 'one copy for each class')
    copies = {c: package[NS + c.__name__] for c in chosen}
    for c in chosen:
        k = copies[c]
        api.check(k is not c and k in package.objects and issubclass(k, c) and k.__name__ == c.__name__,
                  'each class is represented by a copy')
        for d in chosen:
            api.check(issubclass(k, copies[d]) == issubclass(c, d), 'copies inherit from each other as their classes do')
        for name, holders in (('p', has_p), ('q', has_q)):
            api.check(hasattr(k, name) == any(issubclass(c, h) for h in holders),
                      'a property is on the types it is mapped to and on their subtypes only')
        api.check(api.eq(k.mark, c.mark) and k.__get_namespace__() == c.__get_namespace__(), 'a copy has what its class has')
    api.check(not any(hasattr(c, n) for c in (Root, A, B, C) for n in 'pq'), 'the given classes have no new properties')
    api.check(package[NS + 'Z'] is None and all(package[NS + c.__name__] is None for c in (A, B, C) if c not in chosen),
              'a package has only its own types')
    api.check(package[[NS + c.__name__ for c in chosen]] == [copies[c] for c in chosen], 'several types at once')
    asked = [NS + x for x in ('A', 'Z', 'C', 'B', 'Z', 'A')]
    for several in (asked, tuple(asked), iter(asked)):
        api.check(package[several] == [package[x] for x in asked], 'several types at once, unknown ones too')
    if not chosen:
        return
    c = chosen[-1]
    k = copies[c]
    v, w = api.int('v'), api.int('w')
    one, two = k(), k()
    for name, holders in (('p', has_p), ('q', has_q)):
        if any(issubclass(c, h) for h in holders):
            api.check(getattr(one, name) is None, 'a property that was not set is None')
            setattr(one, name, v)
            setattr(two, name, w)
            api.check(api.eq(getattr(one, name), v) and api.eq(getattr(two, name), w), 'a property holds the value given to it')
            api.check(api.eq(one.data()[name], v), 'a property is serialised')
            api.check(name in one.__properties__, 'an object knows its properties')
        else:
            api.check(name not in one.__properties__, 'an object has only the properties of its type')
    got = one.who()
    api.check(got[0] is one and api.eq(got[1], c.mark), 'methods work as on the class')
    if shape == 'gap' and c in (B, C):
        api.check(api.eq(one.hidden, marks[3]), 'a copy has what its class inherits')
    api.check(unchanged(snap), 'the given classes are not changed')


@harness('J12', shards=product(child=['overrides', 'other', 'nothing'], used=['no', 'parent', 'child', 'both', 'instance']),
         bounds='property classes that inherit from each other, every subset of them in every order, used before or not',
         modules=MODS)
def h_inherited(api, child, used):
    from jsonld.base import contextualproperty
    from jsonld.package import JsonLdPackage
    Root, A, B, C = family(api, 'apart', marks_of(api))
    P, R = prop_class('p'), prop_class('r')
    v, w = api.int('v'), api.int('w')
    own = {'overrides': {'p': contextualproperty(lambda self: w)},
           'other': {'q': contextualproperty(lambda self: w)}, 'nothing': {}}[child]
    Q = type('Q', (P,), {**own, '__get_namespace__': classmethod(lambda cls: NS + 'dfn-child')})
    name = 'q' if child == 'other' else 'p'
    for X, when in ((P, ('parent', 'both')), (Q, ('child', 'both'))):
        if used in when:
            X.__get_registration__()
    if used == 'instance':
        api.check(P().__property_name__ == 'p' and Q().__property_name__ == name, 'a property class knows its property')
    snap = snapshot([A, B, C, P, Q, R])
    chosen = [[P, Q, R], [Q, P, R], [R, Q, P], [Q, R], [P, R]][api.choice('properties', list(range(5)))]
    mapping = {NS + 'C': (NS + 'dfn-r',)}
    if P in chosen:
        mapping[NS + 'A'] = (NS + 'dfn-p',)
    if Q in chosen:
        mapping[NS + 'B'] = (NS + 'dfn-child', NS + 'dfn-r') if api.choice('two', [False, True]) else (NS + 'dfn-child',)
    package = JsonLdPackage('n', [A, B, C], chosen, mapping)
    api.check(unchanged(snap), 'the given classes are not changed')
    if P in chosen:
        o = package[NS + 'A'](p=v)
        api.check(api.eq(o.p, v) and not hasattr(o, 'q') and not hasattr(o, 'r'), 'the property of the parent')
    if Q in chosen:
        o = package[NS + 'B']()
        api.check(hasattr(o, name) and not hasattr(o, 'q' if name == 'p' else 'p'), 'the property of the child')
        if child == 'nothing':
            o.p = v
        api.check(api.eq(getattr(o, name), v if child == 'nothing' else w), 'the property of the child works')
        api.check(name in o.__properties__ and (len(o.__properties__) == 3 + len(mapping[NS + 'B']) - 1),
                  'an object knows its properties')
    o = package[NS + 'C'](r=v)
    api.check(api.eq(o.r, v) and not hasattr(o, 'p') and not hasattr(o, 'q'), 'another property')


@harness('J12', bounds='every part of a package, empty or not', modules=MODS)
def h_immutable(api):
    from jsonld.package import JsonLdPackage
    marks = marks_of(api)
    Root, A, B, C = family(api, 'chain', marks)
    P = prop_class('p')
    objects = [A] if api.choice('objects', [False, True]) else []
    props = [P] if api.choice('properties', [False, True]) else []
    name = api.choice('name', ['', 'https://t.example/'])
    package = JsonLdPackage(name, objects, props)
    before = (package.namespace, package.objects, package.properties)
    attr = api.choice('attribute', ['namespace', 'objects', 'properties'])
    value = {'namespace': 'https://other.example/', 'objects': (B,), 'properties': (P,)}[attr]
    r = attempt(lambda: setattr(package, attr, value), AttributeError)
    api.check(r[0] == 'exc', 'a package cannot be changed')
    after = (package.namespace, package.objects, package.properties)
    api.check(after[0] == before[0] and after[1] is before[1] and after[2] is before[2], 'a package stays as it is')
    bad = api.choice('bad_name', [None, 4, ['x'], b'x'])
    api.check(attempt(lambda: JsonLdPackage(bad, objects), TypeError)[0] == 'exc', 'the name of a package is text')


@harness('J12', shards=product(what=['object', 'property']), bounds='mappings that name something the package does not have',
         modules=MODS)
def h_mapping(api, what):
    from jsonld.package import JsonLdPackage
    Root, A, B, C = family(api, api.choice('shape', SHAPES), marks_of(api))
    P = prop_class('p')
    snap = snapshot([Root, A, B, C, P])
    mapping = {NS + ('Z' if what == 'object' else 'A'): (NS + 'dfn-p',) if what == 'object' else (NS + 'dfn-z',)}
    r = attempt(lambda: JsonLdPackage('n', [A, B], [P], mapping), ValueError)
    api.check(r[0] == 'exc', 'a mapping of something unknown is refused')
    api.check(unchanged(snap), 'the given classes are not changed')


@harness('J12', shards=product(shape=SHAPES), bounds='two packages of the same classes with different mappings', modules=MODS)
def h_separate(api, shape):
    from jsonld.package import JsonLdPackage
    Root, A, B, C = family(api, shape, marks_of(api))
    P, Q = prop_class('p'), prop_class('q')
    T1, T2 = (api.choice('type%d' % i, ['A', 'B', 'C']) for i in (1, 2))
    one = JsonLdPackage('1', [A, B, C], [P, Q], {NS + T1: (NS + 'dfn-p',)})
    first = {n: (hasattr(one[NS + n], 'p'), hasattr(one[NS + n], 'q'), dict(vars(one[NS + n]))) for n in 'ABC'}
    two = JsonLdPackage('2', [A, B, C], [P, Q], {NS + T2: (NS + 'dfn-q',)})
    for n, c in zip('ABC', (A, B, C)):
        a, b = one[NS + n], two[NS + n]
        api.check(a is not b and not issubclass(a, b) and not issubclass(b, a), 'packages have copies of their own')
        p, q, was = first[n]
        api.check(set(vars(a)) == set(was) and all(vars(a)[k] is v for k, v in was.items()),
                  'a package does not change with another one')
        api.check(p == issubclass(c, {'A': A, 'B': B, 'C': C}[T1]) and not q, 'each package has its own mapping')
        api.check(hasattr(b, 'q') == issubclass(c, {'A': A, 'B': B, 'C': C}[T2]) and not hasattr(b, 'p'),
                  'each package has its own mapping')
    v = api.int('v')
    x = one[NS + T1](p=v)
    y = two[NS + T2](q=v)
    api.check(api.eq(x.p, v) and api.eq(y.q, v) and not hasattr(x, 'q') and not hasattr(y, 'p'), 'objects of each')


@harness('J12', shards=product(kind=['plain', 'contextual', 'mapped']),
         bounds='properties with any of a getter, a setter and a deleter, with and without one for a context; every sequence of '
                'three of reading, assigning and deleting', modules=MODS)
def h_usable(api, kind):
    from jsonld.package import JsonLdPackage
    from jsonld.base import JsonProperty, contextualproperty, ContextualProperty
    Root = base()
    v = api.int('v')
    parts = api.choice('parts', ['get', 'get set', 'get del', 'get set del'] + (['set', 'set del'] if kind == 'plain' else []))

    def get(self):
        """some documentation"""
        if '_x' not in self.__dict__:
            raise AttributeError('x')
        return self.__dict__['_x']

    def put(self, val):
        self.__dict__['_x'] = val

    def drop(self):
        del self.__dict__['_x']
    g, s, d = get if 'get' in parts else None, put if 'set' in parts else None, drop if 'del' in parts else None
    special = False
    if kind == 'plain':
        x = property(g, s, d, get.__doc__)
    else:
        x = ContextualProperty(g, s, d, get.__doc__)
        special = api.choice('special', [False, True])
        if special:
            x.getter_context('special')(lambda self: ('special', self.__dict__.get('_x')))
    if kind == 'mapped':
        A = cls_of('A', [Root])
        P = type('X', (JsonProperty,), {'x': x, '__get_namespace__': classmethod(lambda cls: NS + 'dfn-x')})
        package = JsonLdPackage('n', [A], [P], {NS + 'A': (NS + 'dfn-x',)})
        A = cls_of('A', [Root], x=x)
    else:
        A = cls_of('A', [Root], x=x)
        package = JsonLdPackage('n', [A])
    K = package[NS + 'A']
    api.check(K.x.__doc__ == A.x.__doc__, 'a property keeps its documentation')
    a, k = A(), K()
    a.__dict__['_x'] = k.__dict__['_x'] = api.int('old')

    def outcome(fn):
        try:
            return 'ok', fn()
        except Exception as exc:
            return 'exc', type(exc)
    for i in range(3):
        step = api.choice('step%d' % i, ['get', 'set', 'del', 'special'])
        if step == 'special':
            with a.switch_context('special'), k.switch_context('special'):
                r = outcome(lambda: a.x), outcome(lambda: k.x)
        else:
            def act(o):
                if step == 'get':
                    return o.x
                if step == 'set':
                    o.x = v + i
                else:
                    del o.x
            r = outcome(lambda: act(a)), outcome(lambda: act(k))
        api.check(r[0][0] == r[1][0] and (r[0][1] is r[1][1] if r[0][0] == 'exc' else api.eq(r[0][1], r[1][1])),
                  'a property of a copy is used like that of its class')
        api.check(('_x' in a.__dict__) == ('_x' in k.__dict__) and api.eq(a.__dict__.get('_x'), k.__dict__.get('_x')),
                  'a property of a copy is used like that of its class')


@harness('J12', shards=product(kind=['function', 'static', 'class', 'nested', 'type', 'builtin', 'cached', 'special', 'answers']),
         bounds='everything a class can be asked to do, on the class, on an object and through a subclass that the package also '
                'has', modules=MODS)
def h_methods(api, kind):
    import functools
    from jsonld.package import JsonLdPackage
    Root = base()
    v, w = api.int('v'), api.int('w')

    class Nested:
        def __init__(self, x=None):
            self.x = x
    members = {
        'function': {'f': lambda self, x: (self.mark, x), 'g': lambda self, *a, **k: (self, a, k)},
        'static': {'f': staticmethod(lambda x: ('static', x)), 'g': staticmethod(lambda x, y=3: (x, y))},
        'class': {'f': classmethod(lambda cls, x: (cls.mark, x)), 'g': classmethod(lambda cls, x: cls.kind)},
        'nested': {'f': Nested},
        'type': {'f': bool, 'g': int},
        'builtin': {'f': functools.partial(lambda x, y: (x, y), 4)},
        'cached': {'f': functools.lru_cache(lambda self, x=1: ('cached', self.mark))},
        'special': {'__call__': lambda self, x: (self.mark, x), '__len__': lambda self: 3, '__eq__': lambda self, o: o == 'me',
                    '__hash__': lambda self: 5, '__bool__': lambda self: False},
        'answers': {'f': lambda self, x: self.__dict__.__setitem__('seen', x), 'g': lambda self, x: self},
    }[kind]
    A = cls_of('A', [Root], mark=v, **members)
    B = cls_of('B', [A])
    package = JsonLdPackage('n', api.choice('order', [[A, B], [B, A]]))
    T = api.choice('type', ['A', 'B'])
    C, K = {'A': A, 'B': B}[T], package[NS + T]
    c, k = C(), K()
    if kind == 'special':
        api.check(api.eq(k(w)[0], v) and api.eq(k(w)[1], w), 'an object is called as one of its class')
        api.check(len(k) == len(c) and bool(k) == bool(c) and k == 'me' and not (k == 'you') and hash(k) == hash(c),
                  'an object compares and counts as one of its class')
        return
    if kind == 'answers':
        # what a method gives is what comes out, also nothing, something false, an exception
        for i, x in enumerate([w, api.choice('falsy', [0, '', False, None]), (), [], {}]):
            api.check(k.f(x) is None and c.f(x) is None and k.__dict__['seen'] is x, 'a method without result gives nothing')
        api.check(k.g(w) is k and c.g(w) is c, 'a method that gives its object')
        box = {'value': api.choice('value', [None, 0, '', False, (), 'x', 2.5]), 'list': [w], 'sym': w}
        what = api.choice('what', list(box))

        def ask(self, *args, which='value', **kwargs):
            if which == 'fail':
                raise LookupError('failing')
            return box[which]
        A2 = cls_of('A', [Root], ask=ask)
        o = JsonLdPackage('n', [A2])[NS + 'A']()
        api.check(o.ask(1, 2, which=what, more=3) is box[what], 'a method gives exactly its result')
        r = attempt(lambda: o.ask(which='fail'), LookupError)
        api.check(r[0] == 'exc', 'a method fails as that of its class')
        return
    for name in members:
        on_class = api.choice('on_class_' + name, [False, True]) and kind not in ('function', 'cached')
        x, y = (C, K) if on_class else (c, k)
        if kind == 'nested':
            api.check(isinstance(y.f, type) and y.f is x.f and api.eq(y.f(w).x, w), 'a class inside a class')
            continue
        if kind == 'cached':
            api.check(api.eq(y.f()[1], v), 'a method that remembers')
            continue
        r, q = getattr(x, name)(w), getattr(y, name)(w)
        if kind == 'function' and name == 'g':
            api.check(q[0] is k and q[1] == (w,) and q[2] == {}, 'a method is given what it is called with')
        else:
            api.check(api.eq(r, q), 'a method of a copy works like that of its class')


def side(api, name, marks, off):
    """a package with some of the types A, B, C and properties p, q"""
    from jsonld.package import JsonLdPackage
    Root = base()
    types = api.choice(name + '_types', ['A', 'B', 'AB', 'BC', ''])
    props = api.choice(name + '_props', ['p', 'q', 'pq', ''])
    classes = {t: cls_of(t, [Root], mark=marks['ABC'.index(t) + off], side=name) for t in types}
    pcs = {p: prop_class(p, '_%s_%s_' % (p, name)) for p in props}
    mapping = {NS + t: tuple(NS + 'dfn-' + p for p in props) for t in types} if props else {}
    return JsonLdPackage('https://%s.example/' % name, classes.values(), pcs.values(), mapping), types, props


@harness('J12', shards=product(op=['add', 'sub']), bounds='two packages with up to two types and two properties each',
         modules=MODS)
def h_combine(api, op):
    marks = marks_of(api, 6)
    L, lt, lp = side(api, 'left', marks, 0)
    R, rt, rp = side(api, 'right', marks, 3)
    snap = snapshot(L.objects + R.objects + L.properties + R.properties)
    parts = (L.objects, L.properties, R.objects, R.properties, L.namespace, R.namespace)
    S = L + R if op == 'add' else L - R
    api.check(S is not L and S is not R and S.namespace == L.namespace, 'the result is a package of its own')
    api.check(parts == (L.objects, L.properties, R.objects, R.properties, L.namespace, R.namespace) and unchanged(snap),
              'the operands are not changed')
    types = sorted(set(lt) | set(rt)) if op == 'add' else sorted(set(lt) - set(rt))
    props = sorted(set(lp) | set(rp)) if op == 'add' else sorted(set(lp) - set(rp))
    api.check(len(S.objects) == len(types) and len(S.properties) == len(props), 'the result has these types and properties')
    v = api.int('v')
    for t in 'ABC':
        c = S[NS + t]
        api.check((c is not None) == (t in types), 'the result has these types')
        if t not in types:
            continue
        right = op == 'add' and t in rt
        i = 'ABC'.index(t)
        api.check(api.eq(c.mark, marks[i + 3] if right else marks[i]) and c.side == ('right' if right else 'left'),
                  'a type of both comes from the second')
        o = c()
        for p in (rp if right else lp):
            setattr(o, p, v)
            api.check(api.eq(getattr(o, p), v) and api.eq(o.data()[p], v), 'types keep their properties')
    for p in 'pq':
        c = S[NS + 'dfn-' + p]
        api.check((c is not None) == (p in props), 'the result has these properties')
    api.check(attempt(lambda: (L + 4) if op == 'add' else (L - 4), TypeError)[0] == 'exc', 'only packages are combined')


# ------------------------------------------------------------------ J11
def engine_package(i, types, marks, name=None):
    from jsonld.package import JsonLdPackage
    Root = base()
    P = prop_class('p')
    classes = [cls_of(t, [Root], mark=marks[2 * i + 'AB'.index(t)]) for t in types]
    return JsonLdPackage('https://%s.example/' % (i if name is None else name), classes, [P], {NS + t: (NS + 'dfn-p',) for t in types})


def answers(api, e, packs, marks, msg):
    """the engine knows the types of the packages [(index, types)], the last of each"""
    last = {}
    for i, types in packs:
        for t in types:
            last[t] = i
    api.check(sorted(e.class_registry) == sorted(NS + t for t in last), msg + ': the engine knows the types of its packages')
    v = api.int('v of ' + msg)
    for t in 'AB':
        api.check(hasattr(e, t) == (t in last), msg + ': the engine has the types under their names')
        if t not in last:
            r = attempt(lambda: e.from_json({'@context': {'type': '@type'}, 'type': NS + t, 'p': v}), ValueError)
            api.check(r[0] == 'exc', msg + ': other types are refused')
            continue
        want = marks[2 * last[t] + 'AB'.index(t)]
        api.check(getattr(e, t) is e.class_registry[NS + t] and api.eq(getattr(e, t).mark, want),
                  msg + ': a type of several packages comes from the last')
        o = e.from_json({'@context': {'type': '@type'}, 'type': NS + t, 'p': v})
        api.check(type(o) is getattr(e, t) and api.eq(o.p, v) and api.eq(o.mark, want), msg + ': parsing gives that type')
        api.check(type(o).__jsonld_engine__ is e, msg + ': a type knows its engine')
        api.check(api.eq(getattr(e, t)(p=v).data()['p'], v), msg + ': objects are made')
        text = api.json_text({'@context': {'type': '@type'}, 'type': NS + t, 'p': v})
        api.check(type(e[text]) is getattr(e, t) and api.eq(e[text].p, v), msg + ': [] parses text')
        for n in (1, 2):
            got = e[[text] * n]
            api.check(type(got) is list and len(got) == n and all(type(o) is getattr(e, t) and api.eq(o.p, v) for o in got),
                      msg + ': [] parses several texts')


TYPESETS = ['A', 'B', 'AB']


@harness('J11', shards=product(how=['tuple', 'list', 'generator', 'add', 'engines', 'mixed']),
         bounds='up to three packages with any of two types', modules=MODS)
def h_fold(api, how):
    from jsonld.engine.jsonld_engine import JsonLdEngine
    marks = marks_of(api, 6)
    n = api.choice('packages', [1, 2, 3])
    packs = [(i, api.choice('types%d' % i, TYPESETS)) for i in range(n)]
    same = api.choice('one_name', [False, True])
    ps = [engine_package(i, t, marks, 'x' if same else None) for i, t in packs]
    contents = [p.objects for p in ps]
    if how in ('tuple', 'list', 'generator'):
        e = JsonLdEngine(iterable(how, ps)) if n > 1 or how != 'tuple' else JsonLdEngine(ps[0])
    elif how == 'add':
        e = JsonLdEngine(ps[0])
        for p in ps[1:]:
            e = e + p
    elif how == 'engines':
        e = JsonLdEngine(ps[0])
        for p in ps[1:]:
            e = e + JsonLdEngine(p)
    else:
        e = JsonLdEngine(ps[0]) if n == 1 else JsonLdEngine(ps[0]) + JsonLdEngine(tuple(ps[1:]))
    answers(api, e, packs, marks, how)
    api.check(tuple(e.packages) == tuple(ps), 'the engine keeps its packages in order')
    api.check(all(p.objects is c for p, c in zip(ps, contents)), 'the packages are not changed')


@harness('J11', shards=product(op=['add_package', 'add_engine', 'sub_package', 'sub_engine', 'sub_two']),
         bounds='engines of up to three packages', modules=MODS)
def h_operands(api, op):
    from jsonld.engine.jsonld_engine import JsonLdEngine
    marks = marks_of(api, 6)
    packs = [(i, api.choice('types%d' % i, TYPESETS)) for i in range(3)]
    ps = [engine_package(i, t, marks) for i, t in packs]
    which = api.choice('which', [0, 1, 2])
    if op.startswith('add'):
        e = JsonLdEngine(ps[:2])
        other = ps[2] if op == 'add_package' else JsonLdEngine(ps[2])
        r = e + other
        answers(api, e, packs[:2], marks, 'the first operand')
        answers(api, r, packs, marks, 'the result')
        if op == 'add_engine':
            answers(api, other, packs[2:], marks, 'the second operand')
    else:
        e = JsonLdEngine(ps)
        gone = [which] if op != 'sub_two' else [i for i in range(3) if i != which]
        other = ps[which] if op == 'sub_package' else JsonLdEngine([ps[i] for i in gone])
        r = e - other
        answers(api, r, [p for p in packs if p[0] not in gone], marks, 'the result')
        answers(api, e, packs, marks, 'the first operand')
        if op != 'sub_package':
            answers(api, other, [packs[i] for i in gone], marks, 'the second operand')
        api.check(attempt(lambda: e - e, ValueError)[0] == 'exc', 'an engine has at least one package')
    api.check(attempt(lambda: e + 4, TypeError)[0] == 'exc' and attempt(lambda: e - 'x', TypeError)[0] == 'exc',
              'only engines and packages are combined')
    api.check(attempt(lambda: JsonLdEngine([]), ValueError)[0] == 'exc', 'an engine has at least one package')


@harness('J11', shards=product(known=[False, True]), bounds='one class registered with an engine', modules=MODS)
def h_register(api, known):
    from jsonld.engine.jsonld_engine import JsonLdEngine
    marks = marks_of(api, 6)
    e = JsonLdEngine(engine_package(0, 'A', marks))
    other = JsonLdEngine(engine_package(1, 'A', marks))
    X = cls_of('A' if known else 'X', [base()], mark=api.int('new'))
    name = api.choice('name', [NS + 'A', NS + 'B', 'other'])
    before = dict(e.class_registry)
    r = attempt(lambda: e.register_class(name, X), ValueError)
    if name == NS + 'A':
        api.check(r[0] == 'exc' and e.class_registry == before and e.A is before[NS + 'A'],
                  'a type that is known is not replaced')
        api.check(not hasattr(X, '__jsonld_engine__'), 'a refused class is not touched')
    else:
        api.check(r[0] == 'ok' and e.class_registry == {**before, name: X} and X.__jsonld_engine__ is e,
                  'a new type is registered')
        if name == NS + 'B':
            o = e.from_json({'@context': {'type': '@type'}, 'type': name})
            api.check(type(o) is X, 'a registered type is parsed')
        r = attempt(lambda: e.register_class(name, X), ValueError)
        api.check(r[0] == 'exc', 'a type is registered once')
    r = attempt(lambda: e.register_class(NS + 'A', e.A), ValueError)
    api.check(r[0] == 'exc' and e.A is before[NS + 'A'], 'a type is registered once')
    api.check(sorted(other.class_registry) == [NS + 'A'], 'other engines are not touched')
    answers(api, other, [(1, 'A')], marks, 'another engine')


# ------------------------------------------------------------------ J16
def world(api):
    """classes S (given to the package), T (given, a subclass), U (unknown), and holders"""
    from jsonld.base import contextualproperty
    Root = base()
    S = cls_of('S', [Root])
    T = cls_of('T', [S])
    U = cls_of('U', [Root])

    def give(self):
        return self.__dict__['kept']

    def take(self, v):
        self.__dict__['kept'] = v
    H = cls_of('H', [Root], give=give, take=take)
    return Root, S, T, U, H


def passing(api, how, h, v):
    """let the value pass through a holder's class, giving what comes out"""
    if how == 'method':
        h.take(v)
        return h.give()
    if how == 'property':
        h.__dict__['_r_'] = v          # stored behind the property's back
        return h.r
    h.r = v
    return h.__dict__['_r_']


@harness('J16', shards=product(how=['method', 'property', 'assign'], source=['S', 'T', 'U', 'copy', 'plain']),
         bounds='values of a class of the package, a subclass, another class; with up to three properties, each set, unset or '
                'absent', modules=MODS)
def h_convert(api, how, source):
    from jsonld.package import JsonLdPackage
    Root, S, T, U, H = world(api)
    P, Q, R = prop_class('p'), prop_class('q'), prop_class('r')
    mapping = {NS + 'S': (NS + 'dfn-p',), NS + 'T': (NS + 'dfn-q',), NS + 'H': (NS + 'dfn-r',)}
    if how != 'method' and api.choice('used', [False, True]):
        # classes may have been used before
        P(), R(), H(), T(), S()
    package = JsonLdPackage('n', [S, T, H], [P, Q, R], mapping)
    h = package[NS + 'H']()
    # another property that only the class of the value has, with its own getter
    own = api.choice('own_property', [None, 'contextual', 'readonly', 'plain', 'unset'])
    if own:
        from jsonld.base import contextualproperty
        read, write = lambda self: self.__dict__.get('_own'), lambda self, v: self.__dict__.__setitem__('_own', v)
        S.own = (contextualproperty(read).setter(write) if own == 'contextual' else
                 contextualproperty(lambda self: self._own).setter(write) if own == 'unset' else property(read) if own == 'readonly' else property(read, write))
        package = JsonLdPackage('n', [S, T, H], [P, Q, R], mapping)
        h = package[NS + 'H']()
    if source == 'plain':
        n = api.int('v')
        v = {'int': n, 'none': None, 'list': [S(), n], 'str': 'x'}[api.choice('plain', ['int', 'none', 'list', 'str'])]
        out = passing(api, how, h, v)
        api.check(out is v or api.eq(out, v), 'other values pass unchanged')
        return
    cls = {'S': S, 'T': T, 'U': U, 'copy': package[NS + 'T']}[source]
    v = cls()
    values = {}
    for name in ('p', 'q'):
        if api.choice('has_' + name, [False, True]):
            values[name] = api.int(name)
            setattr(v, name, values[name])
    if own and own != 'unset' and source in 'STcopy':
        values['own'] = v.__dict__['_own'] = api.int('own')
    v.acontext = ctx = api.int('context')
    extra = api.int('extra')
    v.__dict__['note'] = extra
    out = passing(api, how, h, v)
    api.check(out is v, 'the value itself comes out')
    if source == 'U':
        api.check(type(out) is U, 'values of other classes keep their class')
    else:
        api.check(type(out) is package[NS + {'S': 'S'}.get(source, 'T')], 'the value is of the class of the package')
    for name, x in values.items():
        api.check(api.eq(getattr(out, name), x), 'property values are kept')
    api.check(api.eq(out.acontext, ctx) and api.eq(out.note, extra), 'the other data is kept')
    if source != 'U':
        has = {'S': ['p'], 'T': ['p', 'q'], 'copy': ['p', 'q']}[source]
        if own == 'unset':
            out.__dict__.setdefault('_own', None)       # data() reads every property
        data = out.data()
        for name in has:
            api.check((name in data) == (name in values), 'the properties that were set are serialised')
            if name in values:
                api.check(api.eq(data[name], values[name]), 'the properties are serialised with their values')
            else:
                api.check(getattr(out, name) is None, 'properties that were not set are None')
            w = api.int('w_' + name)
            setattr(out, name, w)
            api.check(api.eq(getattr(out, name), w), 'properties work afterwards')
        api.check(out.__namespace__ == NS + type(out).__name__, 'the value is of the type of its class')
    api.check(S().__namespace__ == NS + 'S' and T().__namespace__ == NS + 'T' and U().__namespace__ == NS + 'U' and
              package[NS + 'S']().__namespace__ == NS + 'S' and package[NS + 'T']().__namespace__ == NS + 'T' and
              h.__namespace__ == NS + 'H', 'no other object changes its type')
    api.check(type(S()) is S and not hasattr(S(), 'p'), 'the classes themselves are not changed')


@harness('J16', shards=product(kind=['note', 'link', 'collection']),
         bounds='values of one engine given to objects of an engine that was built from its package', modules=MODS +
         ['activitystreams', 'activitystreams.models', 'activitystreams.properties', 'activitystreams.package'])
def h_vocabulary(api, kind):
    from activitystreams import create_engine
    from harness.h_links import Web
    web = Web(api)
    web.mode, web.value = 'Note', 'fetched'
    e = create_engine()
    other = e + engine_package(0, 'A', marks_of(api))
    c = api.str('c', 1, 97, 122)
    href = api.concat('https://l/', c)
    link = e.Link(href=href, name=c)
    if kind == 'note':
        v = e.Note(content=c, attributedTo=link, tag=[link, e.Person(name=c)], id=api.concat('https://n/', c))
        T = other.Note
    elif kind == 'link':
        v, T = link, other.Link
    else:
        v, T = e.OrderedCollection(orderedItems=[e.Note(content=c), link], totalItems=api.int('n', 0), first=href), \
            other.OrderedCollection
    before = v.data()
    web.reset()
    holder = other.Create(object=v)
    api.check(not web.urls, 'nothing is fetched')
    api.check(type(v) is T, 'the value is of the class of the package')
    api.check(api.eq(v.data(), before), 'the value keeps its data')
    api.check(not web.urls, 'nothing is fetched')
    out = holder.data()['object']
    want = before if kind != 'link' else href
    if kind != 'link':
        want = {k: x for k, x in before.items() if k != '@context'}
    api.check(api.eq(out, want), 'the value is serialised in its holder')
