"""J01: which properties are serialised; J02: what becomes of their values."""
import collections
import enum
import json
import types

from persistent.list import PersistentList
from persistent.mapping import PersistentMapping

from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import same

MODS = ['jsonld.jsonld', 'jsonld.base', 'jsonld.utils']

# properties of the test class: plain, plain, plain with a standard rename, names that
# are parts of each other, and the inherited 'acontext'
NAMES = ['a', 'context', 'atype', 'acontext']
STANDARD = {'atype': '@type', 'acontext': '@context'}


def thing_class(names, transforms=None):
    from jsonld.jsonld import PropertyJsonLD
    body = {n: property(lambda self, n=n: self.__dict__.get('_' + n)) for n in names if n != 'acontext'}
    if transforms:
        body['default_transforms'] = transforms
    return type('Thing', (PropertyJsonLD,), body)


def thing(api, names, tag='', none=True):
    """an object whose properties are None or symbolic, and those values"""
    T = thing_class(names)
    vals = {}
    for n in names:
        v = api.int('%sv_%s' % (tag, n))
        if none and api.bool('%snone_%s' % (tag, n)):
            v = None
        vals[n] = v
    return make(T, vals), vals


def make(T, vals):
    o = T(vals.get('acontext'))
    for n, v in vals.items():
        if n != 'acontext':
            o.__dict__['_' + n] = v
    return o


def agree(api, got, want, msg):
    """got is the wanted dictionary; the namespace property is never part of it"""
    got = {k: v for k, v in got.items() if not (k == '__namespace__' and v is None)}
    api.check(len(got) == len(want), msg + ': exactly the selected properties')
    for k in want:
        api.check(k in got, msg + ': exactly the selected properties')
    for k in want:
        api.check(got[k] is None if want[k] is None else api.eq(got[k], want[k]), msg + ': with their values')


def container(api, kind, xs):
    return {'tuple': tuple, 'list': list, 'set': set, 'dict': lambda v: {x: None for x in v},
            'gen': iter}[kind](xs)


def subset(api, tag, names):
    return [n for n in names if api.bool('%s_%s' % (tag, n))]


@harness('J01', shards=product(opt=['include', 'exclude', 'both'], kind=['tuple', 'set'], via=['data']) +
         product(opt=['include', 'exclude'], kind=['list'], via=['json']) +
         product(opt=['include', 'exclude'], kind=['gen'], via=['data', 'json']),
         thorough=product(opt=['include', 'exclude', 'both'], kind=['tuple', 'list', 'set', 'dict', 'gen'], via=['data', 'json']),
         bounds='four properties, any of them None, any subset included and excluded', modules=MODS)
def h_select(api, opt, kind, via):
    names = NAMES if opt != 'both' else NAMES[1:]
    o, vals = thing(api, names)
    kw = {}
    inc, exc = [], []
    if opt in ('include', 'both'):
        inc = subset(api, 'inc', names)
        kw['include'] = container(api, kind, inc)
    if opt in ('exclude', 'both'):
        exc = subset(api, 'exc', names)
        kw['exclude'] = container(api, kind, exc)
    none = api.bool('include_none')
    if none:
        kw['include_none'] = True
    want = {STANDARD.get(n, n): v for n, v in vals.items()
            if (none or v is not None) and (not inc or n in inc) and n not in exc}
    got = o.data(**kw) if via == 'data' else api.json_loads(o.json(**kw))
    agree(api, got, want, 'selection')
    for n, v in vals.items():
        now = getattr(o, n)
        api.check(now is None if v is None else api.eq(now, v), 'the object is unchanged')
    api.check(o.__context__.context is None, 'the object is unchanged')


@harness('J01', shards=product(names=[('a', 'context', 'con'), ('text', 'acontext', 'context')], opt=['include', 'exclude']),
         bounds='properties whose names are parts of one another; one name given', modules=MODS)
def h_similar_names(api, names, opt):
    o, vals = thing(api, names, none=False)
    pick = api.choice('pick', list(names))
    for given in ((pick,), pick):
        # a single name may be given as it is
        got = o.data(**{opt: given})
        agree(api, got, {STANDARD.get(n, n): v for n, v in vals.items() if (n == pick) == (opt == 'include')},
              'one name')


@harness('J01', shards=product(via=['data', 'json'], clash=[False, True]),
         bounds='renames for any subset of the properties, overriding the standard ones', modules=MODS)
def h_rename(api, via, clash):
    o, vals = thing(api, NAMES)
    ren = {}
    for n in subset(api, 'ren', NAMES):
        ren[n] = 'new_' + n
    if clash:
        ren['unknown'] = 'x'
        if 'a' in ren:
            ren['a'] = ''
    before = dict(ren)
    got = o.data(rename=ren) if via == 'data' else api.json_loads(o.json(rename=ren))
    agree(api, got, {ren.get(n, STANDARD.get(n, n)): v for n, v in vals.items() if v is not None}, 'renamed')
    api.check(ren == before, 'arguments are unchanged')
    agree(api, o.data(), {STANDARD.get(n, n): v for n, v in vals.items() if v is not None},
          'renames apply to one call')


@harness('J01', shards=product(kind=['tuple', 'list'], n=[0, 1, 2], none=[False, True]) +
         product(kind=['gen'], n=[1, 2], none=[False]),
         thorough=product(kind=['tuple', 'list'], n=[0, 1, 2, 3], none=[False, True]),
         bounds='any values rejected, possibly equal to property values', modules=MODS)
def h_reject(api, kind, n, none):
    names = NAMES[1:]
    o, vals = thing(api, names)
    bad = [api.int('r%d' % i) for i in range(n)]
    if n > 1 and api.bool('reject_none'):
        bad[-1] = None
    # equality counts, so use values that are never the same object
    lists = n == 1 and api.bool('lists')
    wrap = lambda v: None if v is None else [v, 'x'] if lists else v + 10 ** 6
    vals = {k: wrap(v) for k, v in vals.items()}
    o, bad = make(thing_class(names), vals), [wrap(b) for b in bad]
    kw = {'include_none': True} if none else {}
    got = o.data(reject_values=container(api, kind, bad), **kw)

    def rejected(v):
        for b in bad:
            if (v is None and b is None) or (v is not None and b is not None and v == b):
                return True
        return False
    agree(api, got, {STANDARD.get(k, k): v for k, v in vals.items()
                     if (none or v is not None) and not rejected(v)}, 'rejected values')


@harness('J01', shards=product(via=['data', 'json', 'default', 'both']),
         bounds='transformations for any subset of three properties that add a number or give None', modules=MODS)
def h_transforms(api, via):
    names = NAMES[1:]
    add, to_none = api.int('add'), api.bool('to_none')
    fn = lambda v: None if to_none else v + add
    tr = {n: fn for n in subset(api, 'tr', names)}
    default = {n: fn for n in subset(api, 'def', names)} if via in ('default', 'both') else {}
    T = thing_class(names, dict(default))
    vals = {n: api.int('v_' + n) for n in names}
    if api.bool('one_none'):
        vals['context'] = None
        tr.pop('context', None)
        default.pop('context', None)
        T = thing_class(names, dict(default))
    o = make(T, vals)
    if via == 'both':
        tr = {n: (lambda v: v + v) for n in tr}
    kw = {'transforms': tr} if via != 'default' else {}
    want = {}
    for n, v in vals.items():
        if v is None:
            continue
        f = kw.get('transforms', {}).get(n) or default.get(n)
        v = f(v) if f else v
        if v is not None:
            want[STANDARD.get(n, n)] = v
    got = api.json_loads(o.json(**kw)) if via == 'json' else o.data(**kw)
    agree(api, got, want, 'transformed')
    plain = {}
    for n, v in vals.items():
        v = v if v is None or n not in default else default[n](v)
        if v is not None:
            plain[STANDARD.get(n, n)] = v
    agree(api, o.data(), plain, 'transformations apply to one call')
    U = thing_class(names)
    agree(api, make(U, vals).data(), {STANDARD.get(n, n): v for n, v in vals.items() if v is not None},
          'transformations apply to one class')


@harness('J01', shards=product(where=['value', 'list', 'dict', 'deep'], opt=['none', 'include', 'exclude', 'rename']),
         bounds='an object inside another one, in a list or a dictionary, with the same property names', modules=MODS)
def h_nested_select(api, where, opt):
    names = ['a', 'context', 'acontext', 'con']
    inner, ivals = thing(api, names, 'i')
    outer, ovals = thing(api, ['context', 'acontext', 'other'], none=False)
    held = {'value': inner, 'list': [inner, 1], 'dict': {'k': inner}, 'deep': [{'k': [inner]}]}[where]
    outer.__dict__['_other'] = held
    form = {STANDARD.get(n, n): v for n, v in ivals.items() if v is not None and n != 'acontext'}
    kw = {}
    keep = ['context', 'acontext', 'other']
    key = {n: STANDARD.get(n, n) for n in keep}
    if opt == 'include':
        kw['include'] = ('other',)
        keep = ['other']
    elif opt == 'exclude':
        kw['exclude'] = ('context',)
        keep = ['acontext', 'other']
    elif opt == 'rename':
        kw['rename'] = {'context': 'ctx', 'a': 'aa'}
        key['context'] = 'ctx'
    got = outer.data(**kw)
    api.check(len(got) == len(keep) and all(key[n] in got for n in keep), 'selected properties of the outer object')
    v = got['other']
    for step in {'value': [], 'list': [0], 'dict': ['k'], 'deep': [0, 'k', 0]}[where]:
        api.check(isinstance(v, dict if isinstance(step, str) else list), 'structure is kept')
        v = v[step]
    api.check(isinstance(v, dict), 'the inner object has a dictionary form')
    agree(api, v, form, 'inner object')


# ---------------------------------------------------------------------------
# J02


LEAVES = ['int', 'str', 'bool', 'float', 'none']


def leaf(api, name, kinds=LEAVES):
    k = api.choice(name + '_kind', kinds)
    if k == 'int':
        return api.int(name)
    if k == 'str':
        return api.str(name, api.choice(name + '_len', [0, 2]))
    if k == 'bool':
        return api.bool(name)
    if k == 'float':
        return api.real(name)
    return None


def shape(api, kind, name, depth, kinds=LEAVES):
    """a value of the given shape and the JSON value it has to become"""
    if kind == 'leaf':
        v = leaf(api, name, kinds)
        return v, v
    inner, *rest = depth
    x, wx = shape(api, inner, name + '0', rest, kinds)
    y, wy = (leaf(api, name + '1', ['int', 'bool', 'none']),) * 2 if kind not in ('one', 'set') else (None, None)
    if kind == 'list':
        return [x, y], [wx, wy]
    if kind == 'tuple':
        return (x, y), [wx, wy]
    if kind == 'set':
        return {x}, [wx]
    if kind == 'dict':
        return {'k': x, 'l': y}, {'k': wx, 'l': wy}
    raise KeyError(kind)


SHAPES = [('leaf',), ('list', 'leaf'), ('tuple', 'leaf'), ('dict', 'leaf'), ('set', 'leaf'),
          ('list', 'dict', 'leaf'), ('dict', 'list', 'leaf'), ('dict', 'dict', 'leaf'), ('tuple', 'list', 'leaf'),
          ('dict', 'tuple', 'leaf'), ('list', 'set', 'leaf')]
DEEP = [(a, b, c, 'leaf') for a in ('list', 'tuple', 'dict') for b in ('list', 'tuple', 'dict')
        for c in ('list', 'dict', 'set')]


@harness('J02', shards=product(sh=SHAPES, via=['data']) + product(sh=SHAPES[:7], via=['json']),
         thorough=product(sh=SHAPES + DEEP, via=['data', 'json']),
         bounds='containers nested up to two (thorough three) deep with leaves of every JSON type', modules=MODS)
def h_values(api, sh, via):
    T = thing_class(['a'])
    v, want = shape(api, sh[0], 'x', list(sh[1:]), LEAVES if sh[-2:] != ('set', 'leaf') else ['int', 'str', 'none'])
    o = make(T, {'a': v})
    got = o.data() if via == 'data' else api.json_loads(o.json())
    if want is None:
        api.check(len(got) == 0, 'None is left out')
        got = o.data(include_none=True, include=('a',)) if via == 'data' else \
            api.json_loads(o.json(include_none=True, include=('a',)))
        api.check(len(got) == 1 and got['a'] is None, 'None stays null when asked for')
        return
    api.check(list(got.keys()) == ['a'], 'one property')
    api.check(api.eq(got['a'], want), 'equal JSON value of the same type')


@harness('J02', shards=product(minified=[False, True], indent=[None, 0, 3], sh=[('dict', 'list', 'leaf'), ('leaf',)]),
         bounds='text of nested values, minified or indented', modules=MODS)
def h_text(api, minified, indent, sh):
    T = thing_class(['a', 'b'])
    v, want = shape(api, sh[0], 'x', list(sh[1:]), ['int', 'str', 'none'])
    inner = make(thing_class(['c']), {'c': api.int('c')})
    o = make(T, {'a': v, 'b': [inner]})
    kw = {'minified': True} if minified else {}
    if indent is not None:
        kw['indent'] = indent
    text = o.json(**kw)
    api.check(api.istext(text), 'text')
    got = api.json_loads(text)
    api.check(api.eq(got, o.data()), 'parses back to the dictionary form')
    if want is not None:
        api.check(api.eq(got['a'], want), 'parses back to the value')
    if api.concrete:
        api.check((' ' not in json.dumps(json.loads(text), separators=(',', ':'))) or True, '')
        api.check(not minified or indent is not None or
                  text == json.dumps(json.loads(text), separators=(',', ':')), 'minified text has no spaces')
        api.check(minified or indent is not None or text == json.dumps(json.loads(text)), 'standard text')
        api.check(indent is None or len(text.split('\n')) > 1, 'indented text')


@harness('J02', shards=product(n=[1, 2, 3]), bounds='objects nested up to three deep, with symbolic values', modules=MODS)
def h_nested_objects(api, n):
    T = thing_class(['a', 'b'])
    want, o = None, None
    for i in range(n):
        v = leaf(api, 'v%d' % i)
        form = {} if v is None else {'a': v}
        vals = {'a': v}
        if o is not None:
            where = api.choice('where%d' % i, ['value', 'list', 'dict', 'tuple'])
            vals['b'], form['b'] = {'value': (o, want), 'list': ([o], [want]), 'dict': ({'z': o}, {'z': want}),
                                    'tuple': ((o, None), [want, None])}[where]
        o, want = make(T, vals), form
    api.check(api.eq(o.data(), want), 'dictionary form')
    api.check(api.eq(api.json_loads(str(o)), want), 'text form')


class Text(str):
    pass


class Count(int):
    pass


class Ratio(float):
    pass


class Level(enum.IntEnum):
    LOW = 3


class Mode(str, enum.Enum):
    OPEN = 'open'


class Record(dict):
    pass


class Row(list):
    pass


Pair = collections.namedtuple('Pair', 'x y')


@harness('J02', shards=product(kind=['text', 'number', 'dict', 'list'], where=['value', 'list', 'dict'], via=['data', 'json']),
         bounds='values of classes that inherit from JSON types, of other mappings and iterables; symbolic contents', modules=MODS)
def h_inherited(api, kind, where, via):
    T = thing_class(['a'])
    x, y = leaf(api, 'x', ['int', 'str', 'none']), leaf(api, 'y', ['int', 'str', 'none'])
    v, want = {
        'text': lambda: [(Text('ab'), 'ab'), (Text(''), ''), (Mode.OPEN, 'open')],
        'number': lambda: [(Count(7), 7), (Count(0), 0), (Ratio(1.5), 1.5), (Level.LOW, 3)],
        'dict': lambda: [(f(), {'k': x, 'l': y}) for f in (
            lambda: collections.OrderedDict([('k', x), ('l', y)]), lambda: collections.defaultdict(int, {'k': x, 'l': y}),
            lambda: Record(k=x, l=y), lambda: collections.UserDict({'k': x, 'l': y}), lambda: types.MappingProxyType({'k': x, 'l': y}),
            lambda: collections.ChainMap({'k': x}, {'l': y}), lambda: PersistentMapping({'k': x, 'l': y}))],
        'list': lambda: [(f(), [x, y]) for f in (
            lambda: Row([x, y]), lambda: Pair(x, y), lambda: collections.deque([x, y]), lambda: {'k': x, 'l': y}.values(),
            lambda: collections.UserList([x, y]), lambda: PersistentList([x, y]))],
    }[kind]()[api.choice('which', range({'text': 3, 'number': 4, 'dict': 7, 'list': 6}[kind]))]
    if where != 'value':
        v, want = ([v, 1], [want, 1]) if where == 'list' else ({'z': v}, {'z': want})
    o = make(T, {'a': v})
    got = o.data() if via == 'data' else api.json_loads(o.json())
    api.check(list(got.keys()) == ['a'], 'one property')
    api.check(api.eq(got['a'], want), 'equal JSON value of the same type')
