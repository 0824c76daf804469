"""J05: validated properties (the validators; the vocabulary is in h_vocabulary)."""
from types import NoneType

from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import same

MODS = ['jsonld.tools.type', 'jsonld.tools.number', 'jsonld.tools.url', 'jsonld.tools.datetime', 'jsonld.tools']

UNSET = 'nothing yet'


def owner(validator, name='p'):
    """an object with a property p validated by the given SetterValidator"""
    def p(self, val):
        self.stored.append(val)
        self.value = val

    class Owner:
        def __init__(self):
            self.value, self.stored = UNSET, []
        p = None
    Owner.p = property(lambda self: self.value, validator.check(p))
    return Owner()


class Custom:
    pass


TYPES = {'int': (int,), 'str': (str,), 'num': (float, int), 'dict': (dict, str), 'obj': (Custom,), 'bool': (bool, str),
         'strlist': (str, list)}


def atom(api, name, kinds):
    k = api.choice(name + '_kind', kinds)
    if k == 'int':
        return api.int(name)
    if k == 'str':
        return api.str(name, 1)
    if k == 'bool':
        return api.bool(name)
    if k == 'float':
        return api.real(name)
    if k == 'dict':
        return {'k': 1}
    if k == 'obj':
        return Custom()
    if k == 'tuple':
        return (1,)
    if k == 'empty':
        return []
    return None


ALL = ['int', 'str', 'bool', 'float', 'dict', 'obj', 'tuple', 'none']


def permitted(api, v, types, lists, valid):
    """may v be stored?  (lists: whether a list of permitted values is one)"""
    if isinstance(v, list):
        return lists and all(permitted(api, x, types, lists, valid) for x in v)
    if not isinstance(v, types):
        return False
    return valid(v)


def assign(api, o, v, ok, msg, previous=UNSET):
    r = attempt(lambda: setattr(o, 'p', v), ValueError)
    api.check((r[0] == 'ok') == ok, msg + ': accepted exactly when permitted')
    if ok:
        got = o.p
        if isinstance(v, list):
            api.check(isinstance(got, list) and equal(api, got, v), msg + ': stores the elements in order')
        else:
            api.check(equal(api, got, v), msg + ': stores the value')
    else:
        api.check(o.p is previous or equal(api, o.p, previous), msg + ': keeps the previous value')


def equal(api, a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(equal(api, x, y) for x, y in zip(a, b))
    if isinstance(b, Custom) or b is None or isinstance(b, dict):
        return a is b
    return api.eq(a, b)


@harness('J05', shards=product(types=['int', 'str', 'num', 'dict', 'obj', 'bool'], functional=[False, True],
                               shape=['atom', 'list1', 'list2', 'nested']),
         thorough=product(types=list(TYPES), functional=[False, True], shape=['atom', 'list1', 'list2', 'nested', 'list3']),
         bounds='values of eight kinds, lists of up to two (thorough three) of them, nested lists', modules=MODS)
def h_types(api, types, functional, shape):
    from jsonld.tools.type import SetterValidator
    none = api.choice('none_allowed', [None, True, False])
    kw = {} if none is None else {'none_allowed': none}
    if functional:
        kw['functional'] = True
    given = TYPES[types]
    form = api.choice('given_as', ['tuple', 'set', 'single'] if len(given) == 1 else ['tuple', 'set'])
    o = owner(SetterValidator({'tuple': given, 'set': set(given), 'single': given[0]}[form], **kw))
    allowed = given + ((NoneType,) if none is not False else ())
    lists = not functional or list in given
    if shape == 'atom':
        v = atom(api, 'v', ALL + ['empty'])
    elif shape == 'list1':
        v = [atom(api, 'v', ALL)]
    elif shape == 'list2':
        v = [atom(api, 'v', ALL), atom(api, 'w', ['int', 'str', 'none', 'empty'])]
    elif shape == 'list3':
        v = [atom(api, 'v', ALL), atom(api, 'w', ['int', 'str', 'none']), atom(api, 'x', ['int', 'str', 'obj'])]
    else:
        v = [[atom(api, 'v', ['int', 'str', 'none', 'obj'])], atom(api, 'w', ['int', 'str'])]
    assign(api, o, v, permitted(api, v, allowed, lists, lambda x: True), 'assignment')


@harness('J05', shards=product(types=['int', 'num', 'bool', 'obj', 'strlist'], n=[3, 4]),
         thorough=product(types=list(TYPES), n=[3, 4, 5]),
         bounds='lists of three and four (five) elements of permitted types in any order, also equal ones', modules=MODS)
def h_order(api, types, n):
    from jsonld.tools.type import SetterValidator
    given = TYPES[types]
    kinds = {'int': ['int', 'none'], 'num': ['float', 'int'], 'bool': ['bool', 'str'], 'obj': ['obj', 'none'], 'str': ['str', 'none'],
             'dict': ['dict', 'str'], 'strlist': ['str', 'list']}[types]
    items = []
    for i in range(n):
        if i and api.choice('again%d' % i, [False, True]):
            items.append(items[0])
        else:
            k = api.choice('kind%d' % i, kinds)
            items.append([api.str('v%d' % i, 1)] if k == 'list' else atom(api, 'v%d' % i, [k]))
    o = owner(SetterValidator(given))
    v = list(items)
    o.p = v
    api.check(type(o.p) is list and len(o.p) == n, 'every element is stored')
    for got, want in zip(o.p, items):
        api.check(type(got) is type(want) and same(api, got, want), 'the elements are stored in order')
    api.check(len(v) == n and all(a is b for a, b in zip(v, items)), 'the given list is not changed')


@harness('J05', shards=product(n=[0, 1, 2], functional=[False, True], style=['raise', 'false', 'both']),
         thorough=product(n=[0, 1, 2, 3], functional=[False, True], style=['raise', 'false', 'both']),
         bounds='a single integer or a list of up to two (three); validators that raise or answer False', modules=MODS)
def h_additional(api, n, functional, style):
    from jsonld.tools.type import SetterValidator
    lo, hi = api.int('lo'), api.int('hi')
    seen = []

    def low(val, **kwargs):
        seen.append(val)
        if val < lo:
            raise ValueError('too low')

    def high(val, **kwargs):
        seen.append(val)
        return not val > hi
    fns = {'raise': (low,), 'false': (high,), 'both': (low, high)}[style]
    o = owner(SetterValidator((int,), functional=functional, additional=fns, none_allowed=False))
    first = api.int('first')
    valid = lambda x: (style == 'false' or not x < lo) and (style == 'raise' or not x > hi)
    assign(api, o, first, valid(first), 'first')
    previous = o.p
    v = api.int('v') if n == 0 else [api.int('v%d' % i) for i in range(n)]
    assign(api, o, v, permitted(api, v, int, not functional, valid), 'second', previous)


@harness('J05', shards=product(kind=['int', 'float', 'none', 'bool'], functional=[False, True]),
         bounds='any number', modules=MODS)
def h_nonnegative(api, kind, functional):
    from jsonld.tools import SetterValidator, is_nonnegative
    o = owner(SetterValidator((int, float), functional=functional, additional=(is_nonnegative,)))
    v = {'int': lambda: api.int('v'), 'float': lambda: api.real('v'), 'none': lambda: None,
         'bool': lambda: api.bool('v')}[kind]()
    assign(api, o, v, v is None or not v < 0, 'number')
    if not functional:
        previous = o.p
        w = api.int('w')
        assign(api, o, [v, w], (v is None or not v < 0) and not w < 0, 'numbers', previous)


@harness('J05', shards=product(secure=[None, False, True], skip=[True]),
         bounds='listed well-formed and malformed addresses with one arbitrary letter', modules=MODS)
def h_url_values(api, secure, skip):
    from jsonld.tools import SetterValidator, validate_url
    kw = {} if secure is None else {'secure': secure}
    o = owner(SetterValidator((str,), functional=True, additional=(validate_url,), skip_none=skip, **kw))
    c = api.str('c', 1, 97, 122)
    form, ok = api.choice('form', [('https://%s.org', True), ('https://h/%s', True), ('http://%s', not secure),
                                   ('ftp://%s', False), ('%s', False), ('https://', False), ('https:/%s', False),
                                   ('https://%s!.org', False), ('https://u@%s', False), ('', False)])
    parts = form.split('%s')
    v = api.concat(parts[0], c, parts[1]) if len(parts) == 2 else form
    assign(api, o, v, ok, 'address')
    assign(api, o, None, True, 'None')


@harness('J05', shards=product(n=[0]), bounds='None and datetimes', modules=MODS)
def h_datetime_values(api, n):
    from datetime import datetime
    from jsonld.tools import SetterValidator, is_activity_datetime
    o = owner(SetterValidator((datetime, str), functional=True, additional=(is_activity_datetime,)))
    d = datetime(2024, 2, 3, 4, 5, 6)
    o.p = d
    api.check(o.p is d, 'a datetime is stored')
    bad = api.choice('bad', ['x', '', '2024-02-03', 5, '2024-13-03T04:05:06Z', '2024-02-03T04:05:06'])
    r = attempt(lambda: setattr(o, 'p', bad), ValueError)
    api.check(r[0] == 'exc' and o.p is d, 'text that is no datetime is refused')
    o.p = None
    api.check(o.p is None, 'None is accepted')


FORMS = {'tuple': tuple, 'list': list, 'set': set, 'frozen': frozenset, 'generator': lambda ts: (t for t in ts),
         'keys': lambda ts: dict.fromkeys(ts).keys(), 'iter': iter}


@harness('J05', shards=product(types=['int', 'num', 'strlist'], functional=[False, True], form=list(FORMS)),
         bounds='the permitted types given as any iterable; values of eight kinds, lists of one or two, two assignments', modules=MODS)
def h_forms(api, types, functional, form):
    from jsonld.tools.type import SetterValidator, evaluate_value
    given = TYPES[types]
    lists = not functional or list in given
    shape = api.choice('shape', ['atom', 'list1', 'list2'])
    v = atom(api, 'v', ALL) if shape == 'atom' else [atom(api, 'v', ALL)] if shape == 'list1' else \
        [atom(api, 'v', ALL), atom(api, 'w', ['int', 'str'])]
    ok = permitted(api, v, given, lists, lambda x: True)
    r = attempt(lambda: evaluate_value(v, types=FORMS[form](given), prop='p', functional=functional), ValueError)
    api.check((r[0] == 'ok') == ok, 'accepted exactly when permitted')
    if ok:
        api.check(equal(api, r[1], v), 'the value')
    o = owner(SetterValidator(FORMS[form](given), functional=functional, none_allowed=False))
    assign(api, o, v, ok, 'assignment')
    previous = o.p
    w = atom(api, 'x', ['int', 'str', 'float'])
    assign(api, o, w, permitted(api, w, given, lists, lambda x: True), 'second assignment', previous)
