"""C01 / C02: Group as one map, iteration."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, MISS, any_value, key, none_or_int, odd, other_process, same

G = 'citrine.storage.group'
C = 'citrine.storage.collection'


def new_group(nc, max_size=50, strict=False):
    from citrine.storage.group import Group
    from citrine.storage.collection import Collection
    return Group(tuple(Collection(max_size=max_size, strict=strict) for _ in range(nc)),
                 strict=strict)


def agree(api, g, m, p, tag):
    """the group and the reference map answer alike for probe key p"""
    api.check(same(api, g.get(p, MISS), m.get(p, MISS)), tag + ': get')
    api.check(bool(g.has_key(p)) == m.has(p), tag + ': has_key')
    api.check(g.size == len(m), tag + ': size')


def integer(api, name):
    return api.int(name)


def one_op(api, g, m, op, i, klen, value=integer):
    k = key(api, 'k_%s%d' % (op, i), klen)
    v = value(api, 'v_%s%d' % (op, i))
    if op == 'insert':
        g.insert(k, v)
        m.insert(k, v)
    elif op == 'update':
        g.update({k: v})
        m.put(k, v)
    elif op == 'update2':
        k2 = key(api, 'k2_%d' % i, klen)
        v2 = value(api, 'v2_%d' % i)
        g.update({k: v, k2: v2})
        m.put(k, v)
        m.put(k2, v2)
    elif op == 'setdefault':
        want = v if not m.has(k) else m.get(k)
        api.check(api.eq(g.setdefault(k, v), want), 'setdefault result')
        m.insert(k, v)
    elif op == 'pop':
        if m.has(k):
            api.check(api.eq(g.pop(k), m.get(k)), 'pop result')
            m.remove(k)
        else:
            api.check(attempt(lambda: g.pop(k), KeyError)[0] == 'exc', 'pop of a missing key raises')
    elif op == 'popd':
        if v is None:       # means that no default is given
            v = 0
        if m.has(k):
            api.check(api.eq(g.pop(k, v), m.get(k)), 'pop(default) result')
            m.remove(k)
        else:
            api.check(api.eq(g.pop(k, v), v), 'pop(default) gives the default')
    elif op == 'popitem':
        if len(m):
            kk, vv = g.popitem()
            api.check(m.has(kk), 'popitem returns a stored key')
            api.check(api.eq(vv, m.remove(kk)), 'popitem returns its value')
        else:
            api.check(attempt(g.popitem, KeyError, ValueError)[0] == 'exc',
                      'popitem on an empty group raises')
    elif op == 'clear':
        g.clear()
        m.d = []
    elif op == 'get':
        api.check(same(api, g.get(k, MISS), m.get(k, MISS)), 'get(default)')
        api.check(same(api, g.get(k), m.get(k, None)), 'get without default')
    else:
        raise AssertionError(op)


OPS = ['insert', 'update', 'update2', 'setdefault', 'pop', 'popd', 'popitem', 'clear', 'get']


BIG = ['update2']


@harness('C01', shards=product(nc=[1, 2, 3], pre=[2], op=[o for o in OPS if o not in BIG], klen=[1]) +
         product(nc=[1, 2, 3], pre=[1], op=BIG, klen=[1]) +
         product(nc=[2], pre=[1], op=OPS, klen=[0, 2]),
         thorough=product(nc=[1, 2, 3, 5], pre=[0, 1, 2, 3], op=OPS, klen=[1]) +
         product(nc=[2, 3], pre=[1, 2], op=OPS, klen=[0, 2]),
         bounds='<= 3 pre-inserted keys of 0-2 ASCII characters, unbounded integer values, '
                '1-5 collections, one operation, arbitrary probe key', modules=[G, C])
def h_group_step(api, nc, pre, op, klen):
    g, m = new_group(nc), RefMap()
    for i in range(pre):
        k, v = key(api, 'a%d' % i, 1), api.int('x%d' % i)
        g.insert(k, v)
        m.insert(k, v)
    one_op(api, g, m, op, 0, klen)
    agree(api, g, m, key(api, 'p', max(klen, 1)), 'after ' + op)


@harness('C01', shards=product(nc=[1, 2], pre=[1], op=[o for o in OPS if o != 'update2']) + product(nc=[2], pre=[0], op=['update2']),
         thorough=product(nc=[1, 2, 3], pre=[0, 1, 2], op=OPS),
         bounds='values None, "", False or any integer (None or any integer for two keys at once), <= 2 keys', modules=[G, C])
def h_group_values(api, nc, pre, op):
    g, m = new_group(nc), RefMap()
    value = any_value if pre + (op == 'update2') < 2 else none_or_int
    for i in range(pre):
        k, v = key(api, 'a%d' % i, 1), value(api, 'x%d' % i)
        g.insert(k, v)
        m.insert(k, v)
    one_op(api, g, m, op, 0, 1, value)
    agree(api, g, m, key(api, 'p', 1), 'after ' + op)
    for k, _ in m.d:
        agree(api, g, m, k, 'after ' + op)


@harness('C01', shards=product(nc=[1, 2], op=['insert', 'update', 'setdefault', 'get', 'pop', 'popd', 'popitem', 'clear']),
         bounds='<= 2 keys, objects that equal everything or nothing or cannot be compared', modules=[G, C])
def h_group_odd(api, nc, op):
    g, m = new_group(nc), RefMap()
    a, x = key(api, 'a', 1), odd(api, 'x')
    g.insert(a, x)
    m.put(a, x)
    k, v = key(api, 'k', 1), odd(api, 'v')
    if op in ('insert', 'update', 'setdefault'):
        if op == 'update':
            g.update({k: v})
            m.put(k, v)
        else:
            m.insert(k, v)
            got = getattr(g, op)(k, v)
            api.check(op == 'insert' or got is m.get(k), 'setdefault result')
    elif op == 'get':
        api.check(g.get(k, v) is m.get(k, v), 'get(default)')
    elif op == 'popitem':
        got = g.popitem()
        api.check(api.eq(got[0], a) and got[1] is x, 'popitem gives the entry')
        m.remove(a)
    elif op == 'clear':
        g.clear()
        m.d = []
    elif op == 'popd' or m.has(k):
        api.check((g.pop(k, v) if op == 'popd' else g.pop(k)) is m.get(k, v), 'pop result')
        m.remove(k)
    for p in [a, k]:
        api.check(g.get(p, MISS) is m.get(p, MISS), 'after %s: get' % op)
        api.check(bool(g.has_key(p)) == m.has(p), 'after %s: has_key' % op)
    api.check(g.size == len(m), 'after %s: size' % op)


@harness('C01', shards=product(nc=[1, 2, 3], cap=[1, 2], n=[1, 2], op=['pop', 'popd', 'popitem', 'clear', 'get', 'insert', 'setdefault']),
         bounds='strict collections of one or two entries that may be full, <= 2 keys', modules=[G, C])
def h_group_full(api, nc, cap, n, op):
    from harness.h_capacity import errors
    g, m = new_group(nc, cap, True), RefMap()
    for i in range(n):
        k, v = key(api, 'a%d' % i, 1), api.int('x%d' % i)
        if attempt(lambda: g.insert(k, v), *errors())[0] == 'ok':
            m.insert(k, v)
    if op in ('insert', 'setdefault'):      # of a stored key, which needs no room
        k, v = m.d[0][0], api.int('v')
        got = getattr(g, op)(k, v)
        api.check(op == 'insert' or api.eq(got, m.get(k)), 'setdefault result')
    else:
        one_op(api, g, m, op, 0, 1)
    agree(api, g, m, key(api, 'p', 1), 'after ' + op)
    k, v = key(api, 'n', 1), api.int('nv')
    if len(m) == 0:
        g.insert(k, v)
        m.insert(k, v)
        agree(api, g, m, k, 'stored again')


@harness('C01', shards=product(nc=[2], ops=['insert-pop-setdefault', 'update-popitem-insert',
                                            'insert-update-pop', 'pop-insert-popd']),
         thorough=product(nc=[2, 3], ops=['%s-%s-%s' % (a, b, c) for a in ('insert', 'update')
                                          for b in OPS for c in OPS if b != 'clear']),
         bounds='histories of three operations from an empty group', modules=[G, C])
def h_group_history(api, nc, ops):
    g, m = new_group(nc), RefMap()
    for i, op in enumerate(ops.split('-')):
        one_op(api, g, m, op, i, 1)
    agree(api, g, m, key(api, 'p', 1), 'after history')


@harness('C01', shards=product(nc=[2, 3], hi=[0x7ff, 0x10ffff]),
         bounds='one non-ASCII character keys', modules=[G, C])
def h_group_unicode(api, nc, hi):
    g, m = new_group(nc), RefMap()
    k, v = api.str('k', 1, 0, hi), api.int('v')
    g.insert(k, v)
    m.insert(k, v)
    agree(api, g, m, api.str('p', 1, 0, hi), 'unicode')


def count(api, xs, pred):
    n = 0
    for x in xs:
        n = n + api.ite(pred(x), 1, 0)
    return n


def multiset(api, got, want, msg):
    """got and want hold the same values the same number of times"""
    api.check(len(got) == len(want), msg + ' (number)')
    for w in want:
        api.check(count(api, got, lambda x: api.eq(x, w)) == count(api, want, lambda x: api.eq(x, w)),
                  msg + ' (values)')


def filled(api, nc, n, klen=1, vals='int'):
    g, m = new_group(nc), RefMap()
    for i in range(n):
        k = key(api, 'a%d' % i, klen if isinstance(klen, int) else klen[i])
        v = api.int('x%d' % i) if vals == 'int' else None
        g.insert(k, v)
        m.insert(k, v)
    return g, m


@harness('C02', shards=product(nc=[1, 2, 3], n=[0, 2], klen=[1]) + product(nc=[2], n=[1], klen=[0]) +
         product(nc=[2], n=[3], klen=[(0, 1, 1)]),
         thorough=product(nc=[1, 2, 3, 5], n=[0, 1, 2, 3], klen=[1]) +
         product(nc=[2, 3], n=[3], klen=[(0, 1, 2)]),
         bounds='<= 3 keys of 0-2 ASCII characters, unbounded integer values, 1-5 collections',
         modules=[G, C])
def h_views(api, nc, n, klen):
    g, m = filled(api, nc, n, klen)
    for view, name in ((g.keys(), 'keys'), (g.values(), 'values'), (g.items(), 'items')):
        api.check(len(view) == len(m), 'len of %s' % name)
        got = list(view)
        api.check(len(got) == len(m), '%s yields each entry once' % name)
    seen = []
    for k in g.keys():
        api.check(m.has(k), 'keys are stored keys')
        api.check(not any(k == s for s in seen), 'no key twice')
        seen.append(k)
    seen = []
    for k, v in g.items():
        api.check(m.has(k), 'item keys are stored keys')
        api.check(api.eq(v, m.get(k)), 'items pair keys with their values')
        api.check(not any(k == s for s in seen), 'no item twice')
        seen.append(k)
    multiset(api, list(g.values()), [v for _, v in m.d], 'values')


def bound(api, name, kind):
    return None if kind == 'none' else api.str(name, int(kind))


def in_range(k, lo, hi):
    return (lo is None or not (k < lo)) and (hi is None or not (hi < k))


RANGES = ['none/none', '1/none', 'none/1', '1/1']


@harness('C02', shards=product(nc=[1, 2, 3], n=[2], klen=[1], rng=RANGES, what=['keys', 'items', 'values']) +
         product(nc=[2], n=[2], klen=[(0, 1)], rng=['none/none', '0/none', 'none/1'],
                 what=['keys', 'items', 'values']) +
         product(nc=[3], n=[0], klen=[1], rng=['none/none'], what=['keys', 'items', 'values']) +
         product(nc=[2, 3], n=[3], klen=[1], rng=['none/none'], what=['items', 'values']),
         thorough=product(nc=[1, 2, 3, 5], n=[1, 2, 3], klen=[1], rng=RANGES,
                          what=['keys', 'items', 'values']) +
         product(nc=[2, 3], n=[3], klen=[(0, 1, 1)], rng=['none/none', '0/none', 'none/1', '1/1'],
                 what=['keys', 'items', 'values']),
         bounds='<= 3 keys of 0-1 characters, optional bounds of 0-1 characters', modules=[G, C])
def h_iter(api, nc, n, klen, rng, what):
    lo, hi = rng.split('/')
    lo, hi = bound(api, 'lo', lo), bound(api, 'hi', hi)
    g, m = filled(api, nc, n, klen)
    want = [(k, v) for k, v in m.d if in_range(k, lo, hi)]
    if what == 'values':
        multiset(api, list(g.itervalues(min=lo, max=hi)), [v for _, v in want], 'itervalues')
        return
    prev = None
    got = []
    for x in (g.iterkeys(min=lo, max=hi) if what == 'keys' else g.iteritems(min=lo, max=hi)):
        k = x if what == 'keys' else x[0]
        api.check(m.has(k), 'iterated keys are stored keys')
        api.check(in_range(k, lo, hi), 'iterated keys are within the bounds')
        if prev is not None:
            api.check(prev < k, 'ascending order, each once')
        if what == 'items':
            api.check(api.eq(x[1], m.get(k)), 'iteritems pairs keys with their values')
        prev = k
        got.append(k)
        if len(got) > n:
            break
    api.check(len(got) == len(want), 'all entries within the bounds')


@harness('C02', shards=product(nc=[2], n=[2], vals=['none', 'zero', 'empty', 'same'],
                               what=['keys', 'items', 'values', 'views']),
         bounds='special values (None, 0, "", equal values), two symbolic keys', modules=[G, C])
def h_iter_special(api, nc, n, vals, what):
    g, m = new_group(nc), RefMap()
    for i in range(n):
        k = key(api, 'a%d' % i, 1)
        v = {'none': None, 'zero': 0, 'empty': '', 'same': 7}[vals]
        g.insert(k, v)
        m.insert(k, v)
    if what == 'keys':
        api.check(len(list(g.iterkeys())) == len(m), 'iterkeys yields all')
    elif what == 'items':
        got = list(g.iteritems())
        api.check(len(got) == len(m), 'iteritems yields all')
        for k, v in got:
            api.check(m.has(k) and api.eq(v, m.get(k)), 'iteritems values')
    elif what == 'values':
        got = list(g.itervalues())
        api.check(len(got) == len(m), 'itervalues yields all')
        for v in got:
            api.check(api.eq(v, m.d[0][1]), 'itervalues values')
    else:
        api.check(len(list(g.items())) == len(m) and len(list(g.values())) == len(m) and
                  len(list(g.keys())) == len(m), 'views yield all')
        api.check(len(g.keys()) == len(m), 'len of view')


@harness('C02', shards=product(nc=[1, 2, 3], n=[2], lo=[False, True]),
         thorough=product(nc=[1, 2, 3, 5], n=[0, 1, 2, 3], lo=[False, True]),
         bounds='<= 3 keys, unbounded integer values, optional minimum', modules=[G, C])
def h_by_value(api, nc, n, lo):
    g, m = filled(api, nc, n)
    lo = api.int('lo') if lo else None
    want = [(v, k) for k, v in m.d if lo is None or not (v < lo)]
    got = list(g.byValue(lo) if lo is not None else g.byValue())
    api.check(len(got) == len(want), 'byValue yields each entry at or above the minimum once')
    prev = None
    for v, k in got:
        api.check(m.has(k) and api.eq(v, m.get(k)), 'byValue pairs values with their keys')
        api.check(lo is None or not (v < lo), 'byValue respects the minimum')
        if prev is not None:
            api.check(prev[0] > v or (prev[0] == v and prev[1] > k), 'byValue descends')
        prev = (v, k)


@harness('C02', shards=product(nc=[1, 2, 3], n=[2], which=['min', 'max'], bnd=[False, True]) +
         product(nc=[2], n=[0], which=['min', 'max'], bnd=[False, True]),
         thorough=product(nc=[1, 2, 3, 5], n=[0, 1, 2, 3], which=['min', 'max'], bnd=[False, True]),
         bounds='<= 3 keys, optional bound', modules=[G, C])
def h_min_max(api, nc, n, which, bnd):
    g, m = filled(api, nc, n)
    b = key(api, 'b', 1) if bnd else None
    if which == 'min':
        want = [k for k, _ in m.d if b is None or not (k < b)]
        r = attempt(lambda: g.minKey(b) if bnd else g.minKey(), ValueError)
    else:
        want = [k for k, _ in m.d if b is None or not (b < k)]
        r = attempt(lambda: g.maxKey(b) if bnd else g.maxKey(), ValueError)
    if not want:
        api.check(r[0] == 'exc', 'no key satisfies the bound: ValueError')
        return
    api.check(r[0] == 'ok', '%sKey finds a key although some collections have none' % which)
    api.check(any(r[1] == k for k in want), '%sKey is a stored key within the bound' % which)
    for k in want:
        api.check(not (k < r[1]) if which == 'min' else not (r[1] < k), '%sKey is extreme' % which)


@harness('C01', shards=product(nc=[2, 3], n=[2], op=['insert', 'update', 'pop', 'none']),
         thorough=product(nc=[1, 2, 3, 5], n=[1, 2, 3], op=OPS + ['none']),
         bounds='2-3 (5) collections, <= 2 (3) keys of one ASCII character, written in one process and used in another (where '
                'text has other hashes)', modules=[G, C])
def h_processes(api, nc, n, op):
    move = other_process(api, [G, C])
    g, m = new_group(nc), RefMap()
    for i in range(n):
        k, v = key(api, 'a%d' % i, 1), api.int('x%d' % i)
        g.insert(k, v)
        m.insert(k, v)
    move()
    for k, v in m.d:
        agree(api, g, m, k, 'in another process')
    if op != 'none':
        one_op(api, g, m, op, 0, 1)
    agree(api, g, m, key(api, 'p', 1), 'after ' + op + ' in another process')
