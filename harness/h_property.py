"""J03: contextual properties; J04: processing contexts."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, same

MODS = ['jsonld.base', 'jsonld.jsonld', 'jsonld.utils']


class Boom(Exception):
    pass


KINDS = ['get', 'set', 'del']


def tagged(log, tag, ret):
    """a getter / setter / deleter that records that it ran"""
    def fn(obj, *val):
        log.append((tag, obj) + val)
        return ret
    return fn


def register(prop, kind, context, fn):
    """the property after registering fn with the decorators"""
    if context is None:
        return {'get': prop.getter, 'set': prop.setter, 'del': prop.deleter}[kind](fn)
    return {'get': prop.getter_context, 'set': prop.setter_context,
            'del': prop.deleter_context}[kind](context)(fn)


def owner(api, prop, managed=True):
    from jsonld.base import JsonContextAwareManager
    cls = type('Owner', (), {'p': prop, 'other': 5})
    o = cls()
    if managed:
        o.__context__ = JsonContextAwareManager()
    return o


def use(o, kind, val):
    if kind == 'get':
        return o.p
    if kind == 'set':
        o.p = val
    else:
        del o.p


def expected(tables, kind, current):
    """the function that has to run: registered for the context, else the default"""
    t = tables[kind]
    if t.has(current):
        return t.get(current)
    return t.get(None)


def consult(api, o, log, tables, kind, current, tag):
    """use the property; check which function ran"""
    del log[:]
    val = api.int('val' + tag)
    want = expected(tables, kind, current)
    r = attempt(lambda: use(o, kind, val), AttributeError)
    if want is None:
        api.check(r[0] == 'exc', 'without an applicable function AttributeError is raised')
        api.check(not log, 'no other function runs')
        return
    api.check(r[0] == 'ok', 'the applicable function runs')
    api.check(len(log) == 1 and log[0][0] == want[0], 'exactly the applicable function runs')
    api.check(log[0][1] is o, 'with the object')
    if kind == 'get':
        api.check(same(api, r[1], want[1]), 'the value of the getter is returned')
    elif kind == 'set':
        api.check(len(log[0]) == 3 and same(api, log[0][2], val), 'with the assigned value')


def build(api, log, order, ctx, form):
    """a property with a function for each (kind, context) that the solver picks"""
    from jsonld.base import ContextualProperty, contextualproperty
    tables = {k: RefMap() for k in KINDS}
    n = 0

    def new(kind, c):
        nonlocal n
        n += 1
        ret = api.int('r%d' % n)
        tables[kind].put(c, (n, ret))
        return tagged(log, n, ret)
    if form == 'decorator':
        prop = contextualproperty(new('get', None))
    elif form == 'args':
        fns = {}
        for k, arg in (('get', 'fget'), ('set', 'fset'), ('del', 'fdel')):
            if api.bool('has_' + k):
                fns[arg] = new(k, None)
        prop = ContextualProperty(doc='text', name='p', **fns)
    else:
        prop = ContextualProperty()
    for kind, c in order:
        if api.bool('reg_%s_%s' % (kind, c)):
            prop = register(prop, kind, ctx[c], new(kind, ctx[c]))
    return prop, tables


ORDERS = {'get': [('get', 'a'), ('get', None), ('get', 'b'), ('set', 'a')],
          'set': [('set', 'a'), ('set', 'b'), ('set', None), ('get', 'b')],
          'del': [('del', None), ('del', 'b'), ('get', 'a'), ('del', 'a')]}


@harness('J03', shards=product(kind=KINDS, form=['empty', 'args', 'decorator'], at=['a', 'b', 'c', 'none', 'unmanaged']),
         thorough=product(kind=KINDS, form=['empty', 'args', 'decorator'], at=['a', 'b', 'c', 'none', 'unmanaged'],
                          more=[True]),
         bounds='any subset of four registrations for two contexts and the default, context names of one '
                'arbitrary character (possibly equal), any current context', modules=MODS)
def h_dispatch(api, kind, form, at, more=False):
    log = []
    ctx = {'a': api.str('a', 1), 'b': api.str('b', 1), None: None}
    order = ORDERS[kind]
    if more:
        order = order + ORDERS[KINDS[(KINDS.index(kind) + 1) % 3]]
    prop, tables = build(api, log, order, ctx, form)
    o = owner(api, prop, at != 'unmanaged')
    current = {'a': ctx['a'], 'b': ctx['b'], 'none': None, 'unmanaged': None}.get(at, api.str('c', 1))
    if current is None:
        consult(api, o, log, tables, kind, None, '')
    else:
        with o.__context__(current):
            consult(api, o, log, tables, kind, current, '')
        consult(api, o, log, tables, kind, None, '2')


@harness('J03', shards=product(kind=KINDS, which=KINDS, late=[False, True]),
         bounds='a new default function on a copy of a property with any subset of earlier registrations', modules=MODS)
def h_copies(api, kind, which, late):
    from jsonld.base import JSON_DATA_CONTEXT, ContextualProperty
    log = []
    ctx = {'a': 'A', None: None}
    order = [(kind, 'a'), (which, None)]
    prop, tables = build(api, log, order, ctx, 'args')
    o1 = owner(api, prop)
    ret = api.int('new')
    copy = register(prop, which, None, tagged(log, 99, ret))
    api.check(copy is not prop and isinstance(copy, ContextualProperty), 'a new property')
    t2 = {k: t.copy() for k, t in tables.items()}
    t2[which].put(None, (99, ret))
    api.check(copy.__doc__ == prop.__doc__, 'keeps the documentation')
    if late:
        # a context registered on the copy only
        copy = register(copy, kind, 'B', tagged(log, 98, ret))
        t2[kind].put('B', (98, ret))
    o2 = owner(api, copy)
    for i, c in enumerate([None, 'A', 'B']):
        for o, t, tag in ((o1, tables, 'x'), (o2, t2, 'y')):
            if c is None:
                consult(api, o, log, t, kind, c, '%s%d' % (tag, i))
            else:
                with o.__context__(c):
                    consult(api, o, log, t, kind, c, '%s%d' % (tag, i))


@harness('J03', shards=product(kind=KINDS),
         bounds='two objects of one class in different contexts, any names', modules=MODS)
def h_two_objects(api, kind):
    log = []
    ctx = {'a': api.str('a', 1), None: None}
    prop, tables = build(api, log, [(kind, 'a'), (kind, None)], ctx, 'empty')
    from jsonld.base import JsonContextAwareManager
    cls = type('Owner', (), {'p': prop})
    x, y = cls(), cls()
    x.__context__, y.__context__ = JsonContextAwareManager(), JsonContextAwareManager()
    c = api.str('c', 1)
    with x.__context__(ctx['a']):
        with y.__context__(c):
            consult(api, x, log, tables, kind, ctx['a'], '1')
            consult(api, y, log, tables, kind, c, '2')
        consult(api, y, log, tables, kind, None, '3')
        consult(api, x, log, tables, kind, ctx['a'], '4')


# ---------------------------------------------------------------------------
# J04


class Program:
    """a solver-chosen program of nested contexts"""

    def __init__(self, api, enter, state, names):
        self.api, self.enter, self.state, self.names = api, enter, state, names
        self.n = 0

    def verify(self, stack, msg):
        api = self.api
        current, active = self.state()
        want = stack[-1] if stack else None
        api.check(current is None if want is None else
                  (current is not None and api.eq(current, want)), msg + ': current context')
        api.check(active is bool(stack), msg + ': active flag')

    def run(self, budget, stack):
        """statements of a block: enter a nested block, raise, or stop"""
        api = self.api
        while budget[0] > 0:
            self.n += 1
            act = api.choice('act%d' % self.n, ['enter', 'stop'] + (['raise'] if stack else []))
            if act == 'stop':
                return
            if act == 'raise':
                raise Boom()
            budget[0] -= 1
            name = self.names(self.n)
            caught = api.bool('caught%d' % self.n)

            def block():
                with self.enter(name):
                    inner = stack + [name]
                    self.verify(inner, 'inside')
                    self.run(budget, inner)
                    self.verify(inner, 'end of block')
            if caught:
                attempt(block, Boom)
            else:
                block()
            self.verify(stack, 'after leaving')


@harness('J04', shards=product(via=['manager', 'object'], names=['sym', 'same', 'none']),
         thorough=product(via=['manager', 'object'], names=['sym', 'same', 'none'], budget=[4]),
         bounds='every program of at most 3 (thorough 4) nested or successive blocks with exceptions anywhere; '
                'context names arbitrary, equal or None', modules=MODS)
def h_contexts(api, via, names, budget=3):
    from jsonld.base import JsonContextAwareManager, PropertyAwareObject
    name = {'sym': lambda i: api.str('ctx%d' % i, 1), 'same': lambda i: 'same',
            'none': lambda i: None if api.bool('none%d' % i) else 'x'}[names]
    if via == 'manager':
        m = JsonContextAwareManager()
        enter = m
    else:
        o = PropertyAwareObject()
        m = o.__context__
        enter = o.switch_context
    state = lambda: (m.context, m.active)
    p = Program(api, enter, state, name)
    p.verify([], 'at first')
    attempt(lambda: p.run([budget], []), Boom)
    p.verify([], 'at last')


def serialised_class(seen, fail):
    from jsonld.jsonld import PropertyJsonLD

    class Thing(PropertyJsonLD):
        @property
        def a(self):
            seen.append((self, self.__context__.context, self.__context__.active))
            if fail(self):
                raise Boom()
            return self.__dict__.get('va')

        @property
        def b(self):
            seen.append((self, self.__context__.context, self.__context__.active))
            return self.__dict__.get('vb')
    return Thing


@harness('J04', shards=product(how=['data', 'json', 'str', 'data-context'], outer=[0, 1, 2], nested=[False, True]),
         bounds='serialisation inside 0-2 contexts, a property of the object or of a nested object may raise', modules=MODS)
def h_serialising(api, how, outer, nested):
    from jsonld.utils import JSON_DATA_CONTEXT
    seen = []
    bad = {}
    Thing = serialised_class(seen, lambda o: bad.get(id(o), False))
    o, inner = Thing(None), Thing(None)
    o.va, o.vb = api.int('va'), 'text'
    if nested:
        o.vb = inner
    bad[id(o)] = api.bool('fails')
    bad[id(inner)] = api.bool('inner_fails')
    ctx = [api.str('ctx%d' % i, 1) for i in range(outer)]
    want = JSON_DATA_CONTEXT
    kw = {}
    if how == 'data-context':
        want = api.str('want', 1)
        kw['context'] = want

    def go():
        if how == 'json':
            return o.json()
        if how == 'str':
            return str(o)
        return o.data(**kw)

    def state(msg, stack):
        current, active = o.__context__.context, o.__context__.active
        api.check(current is None if not stack else api.eq(current, stack[-1]), msg + ': current context')
        api.check(active is bool(stack), msg + ': active flag')
        api.check(inner.__context__.context is None and inner.__context__.active is False,
                  msg + ': context of the nested object')

    def level(i):
        if i < outer:
            with o.switch_context(ctx[i]):
                level(i + 1)
                state('inside', ctx[:i + 1])
            return
        r = attempt(go, Boom)
        state('after serialising', ctx)
        failing = bad[id(o)] or (nested and bad[id(inner)])
        api.check((r[0] == 'exc') if failing else (r[0] == 'ok'), 'exceptions pass through')
        for who, c, active in seen:
            if who is o:
                api.check(c is not None and api.eq(c, want), 'properties are read in the requested context')
            else:
                api.check(c is not None and api.eq(c, JSON_DATA_CONTEXT), 'nested objects are read for output')
            api.check(active is True, 'the context is active while reading')
    level(0)
    state('at last', [])
