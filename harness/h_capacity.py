"""C03: strict capacity; C14: reported sizes."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, MISS, key, same

MODS = ['citrine.storage.group', 'citrine.storage.collection', 'citrine.storage.container']


def errors():
    from citrine.storage.collection import CollectionCapacityError
    from citrine.storage.group import GroupCapacityError
    return CollectionCapacityError, GroupCapacityError


def unchanged(api, target, m, msg):
    api.check(target.size == len(m), msg + ': size unchanged')
    for k, v in m.d:
        api.check(same(api, target.get(k, MISS), v), msg + ': stored entries unchanged')


OPS = ['insert', 'update', 'update2', 'setdefault', 'pop', 'clear']


@harness('C03', shards=product(cap=[1, 2], n=[0, 1, 2], op=OPS, strict=[True, False]),
         thorough=product(cap=[1, 2, 3], n=[0, 1, 2, 3], op=OPS, strict=[True, False]),
         bounds='capacity <= 3, <= 3 stored keys, one operation on arbitrary keys', modules=MODS)
def h_collection(api, cap, n, op, strict):
    from citrine.storage.collection import Collection
    c = Collection(max_size=cap, strict=strict)
    m = RefMap()
    for i in range(n):
        k, v = key(api, 'a%d' % i, 1), api.int('x%d' % i)
        r = attempt(lambda: c.insert(k, v), *errors())
        fits = m.has(k) or len(m) < cap or not strict
        api.check((r[0] == 'ok') == fits, 'insert refused exactly when full')
        if fits:
            m.insert(k, v)
    k, v = key(api, 'k', 1), api.int('v')
    pairs = [(k, v)]
    if op == 'update2':
        pairs.append((key(api, 'k2', 1), api.int('v2')))
    step(api, c, m, op, pairs, lambda new: len(m) + new <= cap or not strict)
    if strict:
        api.check(c.size <= cap, 'limit respected')


def step(api, target, m, op, pairs, room):
    k, v = pairs[0]
    after = m.copy()
    if op in ('update', 'update2'):
        arg = {}
        for a, b in pairs:
            arg[a] = b
            after.put(a, b)
        fn = lambda: target.update(arg)
    elif op == 'insert':
        after.insert(k, v)
        fn = lambda: target.insert(k, v)
    elif op == 'setdefault':
        after.insert(k, v)
        fn = lambda: target.setdefault(k, v)
    elif op == 'pop':
        after.remove(k)
        fn = lambda: target.pop(k, 0)
    elif op == 'clear':
        after.d = []
        fn = lambda: target.clear()
    fits = room(len(after) - len(m)) if len(after) > len(m) else True
    r = attempt(fn, *errors())
    api.check((r[0] == 'ok') == fits, '%s refused exactly when it does not fit' % op)
    unchanged(api, target, after if fits else m, op if fits else 'refused ' + op)


def route(g_like, nc, k):
    """index of the collection the group puts key k in (observed on a scratch group)"""
    from citrine.storage.group import Group
    from citrine.storage.collection import Collection
    s = Group(tuple(Collection(max_size=9) for _ in range(nc)))
    s.insert(k, 1)
    return [c.size for c in s.collections].index(1)


@harness('C03', shards=product(caps=[(1, 1), (1, 2), (2,), (1, 1, 1)], n=[1, 2],
                               op=['insert', 'update', 'setdefault'], strict=[True]) +
         product(caps=[(1, 1), (2, 1)], n=[1], op=['update2', 'pop'], strict=[True]) +
         product(caps=[(1, 1)], n=[2], op=['insert', 'update', 'setdefault'], strict=[False]) +
         product(caps=[(2, 2)], n=[2], op=['update2'], strict=[True]),
         thorough=product(caps=[(1, 1), (1, 2), (2,), (1, 1, 1), (2, 2), (1, 2, 1)], n=[1, 2, 3],
                          op=['insert', 'update', 'setdefault', 'pop'], strict=[True, False]) +
         product(caps=[(1, 1), (2, 1), (2, 2), (1, 1, 1)], n=[1, 2], op=['update2'], strict=[True, False]),
         bounds='<= 3 collections of <= 2 items, <= 3 stored keys', modules=MODS)
def h_group(api, caps, n, op, strict):
    from citrine.storage.collection import Collection
    from citrine.storage.group import Group
    g = Group(tuple(Collection(max_size=c) for c in caps), strict=strict)
    api.check(g.strict is strict, 'strictness as requested')
    m, fill = RefMap(), [0] * len(caps)
    for i in range(n):
        k, v = key(api, 'a%d' % i, 1), api.int('x%d' % i)
        where = route(g, len(caps), k)
        fits = m.has(k) or fill[where] < caps[where] or not strict
        r = attempt(lambda: g.insert(k, v), *errors())
        api.check((r[0] == 'ok') == fits, 'insert refused exactly when full')
        if fits and not m.has(k):
            m.insert(k, v)
            fill[where] += 1
    pairs = [(key(api, 'k', 1), api.int('v'))]
    if op == 'update2':
        pairs.append((key(api, 'k2', 1), api.int('v2')))

    def room(new):
        extra = list(fill)
        seen = m.copy()
        for k, v in pairs:
            if not seen.has(k):
                extra[route(g, len(caps), k)] += 1
                seen.insert(k, v)
        return not strict or all(e <= c for e, c in zip(extra, caps))
    step(api, g, m, op, pairs, room)
    if strict:
        for c, cap in zip(g.collections, caps):
            api.check(c.size <= cap, 'no collection above its limit')
        api.check(g.size <= sum(caps), 'group within capacity')


@harness('C03', shards=product(level=['collection', 'group', 'container'], nc=[1, 2], n=[2, 3], op=['insert', 'update', 'setdefault', 'update2']),
         bounds='<= 3 entries stored without limits in 1-2 collections of one entry, which become strict afterwards', modules=MODS)
def h_over(api, level, nc, n, op):
    from citrine.storage.collection import Collection
    from citrine.storage.container import Container
    from citrine.storage.group import Group
    nc = 1 if level == 'collection' else nc
    cols = tuple(Collection(max_size=1, strict=False) for _ in range(nc))
    g = cols[0] if level == 'collection' else Group(cols)
    m, fill = RefMap(), [0] * nc
    for i in range(n):
        k, v = key(api, 'a%d' % i, 1), api.int('x%d' % i)
        g.insert(k, v)
        if not m.has(k):
            m.insert(k, v)
            fill[route(g, nc, k)] += 1
    if level == 'container':
        Container(g).strict = True
    else:
        g.strict = True
    api.check(all(c.strict for c in cols), 'strict as requested')
    pairs = [(key(api, 'k', 1), api.int('v'))]
    if op == 'update2':
        pairs.append((m.d[0][0], api.int('v2')))
    step(api, g, m, op, pairs, lambda new: fill[route(g, nc, pairs[0][0])] == 0 and (len(m) < nc))


@harness('C03', shards=product(cap=[1, 2, 3], cms=[1, 2], n=[2], how=['new', 'resize', 'setter', 'ctor'],
                               strict=[True, False]),
         thorough=product(cap=[1, 2, 3, 4], cms=[1, 2, 3], n=[1, 2, 3],
                          how=['new', 'resize', 'setter', 'ctor'], strict=[True, False]),
         bounds='container capacity <= 4, collection size <= 3, <= 3 writes', modules=MODS)
def h_container(api, cap, cms, n, how, strict):
    from citrine.storage.container import Container
    if how == 'setter':
        c = Container.new(capacity=cap, collection_max_size=cms, strict=not strict)
        c.strict = strict
    elif how == 'resize':
        c = Container.new(capacity=1, collection_max_size=1, strict=strict)
        c.resize(capacity=cap, max_collection_size=cms)
    elif how == 'ctor':
        from citrine.storage.group import Group
        c = Container(Group.new(size=cap, max_collection_size=cms), strict=strict)
    else:
        c = Container.new(capacity=cap, collection_max_size=cms, strict=strict)
    api.check(c.strict is strict, 'strictness in force')
    cols = c.primary.collections
    nc, fill = len(cols), [0] * len(cols)
    m = RefMap()
    for i in range(n):
        k, v = key(api, 'a%d' % i, 1), api.int('x%d' % i)
        where = route(None, nc, k)
        fits = m.has(k) or fill[where] < cols[where].max_size or not strict
        r = attempt(lambda: c.write(k, v), *errors())
        api.check((r[0] == 'ok') == fits, 'write refused exactly when full')
        if fits:
            if not m.has(k):
                fill[where] += 1
            m.put(k, v)
        api.check(c.used == len(m), 'number of stored items')
        for kk, vv in m.d:
            api.check(same(api, c.read(kk, MISS), vv), 'stored objects intact')
        if not fits:
            api.check(c.read(k, MISS) is MISS, 'refused object is not stored')
    if strict:
        api.check(c.used <= c.capacity, 'within capacity')
        for col in c.primary.collections:
            api.check(col.size <= col.max_size, 'no collection above its limit')


@harness('C03', shards=product(route_=['new', 'custom', 'customsize', 'group', 'mixed', 'setter'], strict=[True, False]),
         bounds='each way of requesting strictness; symbolic sizes <= 4', modules=MODS)
def h_strict_requested(api, route_, strict):
    from citrine.storage.group import Group
    from citrine.storage.collection import Collection
    size = api.int('size', 1, 4)
    limit = api.int('limit', 1, 4)
    other = api.int('other', 1, 4)
    if route_ == 'new':
        g = Group.new(size=size, max_collection_size=limit, strict=strict)
    elif route_ == 'custom':
        g = Group.new(custom={0: limit, 1: other}, strict=strict, max_collection_size=3)
    elif route_ == 'customsize':
        g = Group.new(custom={1: limit}, size=size, strict=strict, max_collection_size=other) \
            if size > 1 else Group.new(size=2, max_collection_size=limit, strict=strict)
    elif route_ in ('group', 'mixed'):
        was = [api.choice('strict%d' % i, [True, False]) for i in range(3)]
        g = Group(tuple(Collection(max_size=2, strict=s) for s in was), strict=strict if route_ == 'group' else was[0])
        if route_ == 'mixed':
            # collections of a group can be switched one by one
            for i, c in enumerate(g.collections):
                c.strict = api.choice('now%d' % i, [True, False])
            g.strict = strict
    else:
        g = Group.new(size=size, max_collection_size=limit, strict=not strict)
        g.strict = strict
    api.check(g.strict is strict, 'group strictness as requested')
    for c in g.collections:
        api.check(c.strict is strict, 'every collection strict as requested')


# ---------------------------------------------------------------------------
# C14


LEVELS = (0, 60, 70, 80, 90)


def level(api, used, limit):
    """the health level: highest threshold not above ceil(100 * used / limit)"""
    out = 0
    for t in LEVELS[1:]:
        # ceil(100 u / m) >= t  <=>  100 u > (t - 1) m
        out = api.ite(100 * used > (t - 1) * limit, t, out)
    return out


def near(api, usage, used, limit):
    """usage is used / limit (floats: to rounding)"""
    if api.concrete:
        return abs(usage * limit - used) < 1e-9 * max(1, abs(used))
    return usage * limit == used


def meta_module():
    from citrine.storage.collection import CollectionMeta
    return CollectionMeta


NAMES14 = ['k%d' % i for i in range(400)]


@harness('C14', shards=[{'sizes': list(s)} for s in
                        [range(0, 7), range(7, 13), range(13, 25), range(59, 64), range(69, 72), range(79, 82),
                         range(89, 93), range(99, 104)]],
         thorough=[{'sizes': list(range(a, a + 8))} for a in range(0, 200, 8)],
         bounds='every collection limit >= 1 (unbounded), 0-103 (thorough 0-199) stored items', modules=MODS)
def h_collection_meta(api, sizes):
    from citrine.storage.collection import Collection
    n = api.choice('n', list(sizes))
    limit = api.int('limit', 1)
    c = Collection(max_size=limit, strict=False)
    for i in range(n):
        c.insert(NAMES14[i], i)
    api.check(c.size == n, 'size is the number of stored items')
    api.check(c.max_size == limit, 'max_size is the limit')
    api.check(near(api, c.usage, n, limit), 'usage is their ratio')
    api.check(c.status == level(api, n, limit), 'status level')
    if n:
        c.pop(NAMES14[0])
        api.check(c.size == n - 1, 'size after removal')
        api.check(c.status == level(api, n - 1, limit), 'status level after removal')
    c.update({'z': 1, 'k1': 5})
    want = n - (1 if n else 0) + 1 + (0 if n > 1 else 1)
    api.check(c.size == want, 'size after update')
    api.check(near(api, c.usage, want, limit), 'usage after update')


def filled_group(api, fill, tag='', strict=False):
    """group of len(fill) collections with symbolic limits, collection i holding
    fill[i] items"""
    from citrine.storage.group import Group
    from citrine.storage.collection import Collection
    n = len(fill)
    limits = [api.int('%slimit%d' % (tag, i), 1, 60) for i in range(n)]
    g = Group(tuple(Collection(max_size=m) for m in limits), strict=strict)
    left, i = list(fill), 0
    while any(left):
        k = '%s%d' % (tag or 'g', i)
        i += 1
        w = int.from_bytes(k.encode(), 'big') % n
        if left[w]:
            g.insert(k, i)
            left[w] -= 1
    return g, limits


def extreme(api, xs, bigger):
    out = xs[0]
    for x in xs[1:]:
        out = api.ite(x > out if bigger else x < out, x, out)
    return out


def is_extreme_usage(api, usage, fill, limits, bigger):
    """usage equals some collection's ratio and none is above / below it"""
    some = api.or_(*[near(api, usage, u, m) for u, m in zip(fill, limits)])
    if api.concrete:
        ok = all((usage * m >= u - 1e-9) if bigger else (usage * m <= u + 1e-9)
                 for u, m in zip(fill, limits))
    else:
        ok = api.and_(*[(usage * m >= u) if bigger else (usage * m <= u)
                        for u, m in zip(fill, limits)])
    return api.and_(some, ok)


def group_numbers(api, g, fill, limits):
    used, total = sum(fill), limits[0]
    for m in limits[1:]:
        total = total + m
    api.check(g.size == used, 'group size')
    api.check(g.max_size == total, 'group max_size is the sum of the limits')
    api.check(near(api, g.usage, used, total), 'group usage')
    api.check(g.max_collection_size == extreme(api, limits, True), 'largest collection limit')
    api.check(g.status == extreme(api, [level(api, u, m) for u, m in zip(fill, limits)], True),
              'group status is the most urgent one')


@harness('C14', shards=product(fill=[(0,), (3,), (1, 2), (0, 3), (6, 5), (0, 0), (2, 0, 1), (4, 4, 9)]),
         thorough=product(fill=[(a, b) for a in range(0, 10, 2) for b in range(1, 12, 3)] +
                          [(2, 0, 1), (4, 4, 9), (0, 0, 0), (7, 5, 6)]),
         bounds='1-3 collections, every limit 1..60', modules=MODS)
def h_group_meta(api, fill):
    g, limits = filled_group(api, fill)
    group_numbers(api, g, fill, limits)


@harness('C14', shards=product(fill=[(3,), (1, 2), (0, 3), (6, 5), (2, 0, 1)]),
         thorough=product(fill=[(a, b) for a in range(0, 10, 2) for b in range(1, 12, 3)] + [(2, 0, 1)]),
         bounds='1-3 collections, every limit 1..60', modules=MODS)
def h_group_usages(api, fill):
    g, limits = filled_group(api, fill)
    per = g.collection_usage
    api.check(len(per) == len(fill), 'one usage per collection')
    for c, u, m in zip(g.collections, fill, limits):
        api.check(c in per, 'usage of every collection')
        api.check(near(api, per[c], u, m), 'usage of each collection')
    api.check(is_extreme_usage(api, g.highest_collection_usage, fill, limits, True), 'highest usage')
    api.check(is_extreme_usage(api, g.lowest_collection_usage, fill, limits, False), 'lowest usage')


@harness('C14', shards=product(fills=[((1, 2),), ((3, 0), (2,)), ((5,), (1, 1), (0, 2))]),
         thorough=product(fills=[((1, 2),), ((3, 0), (2,)), ((5,), (1, 1), (0, 2)), ((9, 8), (12,)),
                                 ((0, 0), (4, 4)), ((2, 3, 4), (1,))]),
         bounds='1-3 groups of 1-3 collections, every limit 1..60', modules=MODS)
def h_container_meta(api, fills):
    from citrine.storage.container import Container
    made = [filled_group(api, f, 'abc'[i]) for i, f in enumerate(fills)]
    c = Container(made[0][0], tuple(g for g, _ in made))
    numbers(api, c, fills, made)
    total = 0
    for _, limits in made:
        for m in limits:
            total = total + m
    api.check(c.size == sum(sum(f) for f in fills), 'size over all groups')
    api.check(c.max_size == total, 'max_size over all groups')


def numbers(api, c, fills, made):
    used, cap = sum(fills[0]), 0
    for m in made[0][1]:
        cap = cap + m
    api.check(c.capacity == cap, 'capacity of the primary group')
    api.check(c.used == used, 'items in the primary group')
    api.check(near(api, c.usage, used, cap), 'usage of the primary group')
    api.check(c.status == extreme(api, [level(api, u, m) for u, m in zip(fills[0], made[0][1])], True),
              'status of the primary group')


@harness('C14', shards=product(fills=[((1, 2),), ((3,), (2, 2))], strict=[True, False]),
         bounds='a stored container seen through a connection; every limit 1..60',
         modules=MODS + ['citrine.connection.container_connection', 'citrine.database.containerdb'])
def h_connection_meta(api, fills, strict):
    from citrine.storage.container import Container
    from harness.zstore import open_container_db
    made = [filled_group(api, f, 'abc'[i]) for i, f in enumerate(fills)]
    c = Container(made[0][0], tuple(g for g, _ in made), strict=strict)
    st, db = open_container_db(c)
    conn = db.open()
    numbers(api, conn, fills, made)
    numbers(api, conn.meta, fills, made)
    api.check(conn.strict is strict and conn.meta.strict is strict, 'strictness')
    conn.delete('zzz')
    if not strict:
        conn.update('zzz', 1)
        api.check(conn.used == sum(fills[0]) + 1, 'use after a write')
