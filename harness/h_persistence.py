"""C09: hashed database container; C10: cluster registry."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, MISS, any_value, key, odd, other_process, same

M9 = ['citrine.persistence']
M10 = ['citrine.cluster_tools.clusterdb.container']


def make(nc, plain=False):
    from citrine.persistence import DbContainer
    from persistent.mapping import PersistentMapping
    if nc is None:
        return DbContainer()
    maps = {i: PersistentMapping() for i in range(nc)}
    return DbContainer(maps if plain else PersistentMapping(maps))


def ident(api, name, kind, ints=999):
    """an id: a string of the given length, or an integer"""
    if kind == 'int':
        return api.int(name, 0, ints)
    if kind == 'wide':
        return api.str(name, 1, 0x80, 0x7ff)
    return key(api, name, kind)


def fill(api, c, kinds, value=None, ints=999):
    m = RefMap()
    for i, kd in enumerate(kinds):
        k = ident(api, 'a%d' % i, kd, ints)
        v = value(api, 'x%d' % i) if value else api.int('x%d' % i)
        c.write(k, v)
        m.put(k, v)
    return m


def agrees(api, c, m, p, msg):
    api.check(c.has(p) == m.has(p), msg + ': has')
    want = m.get(p)
    got = c.read(p)
    api.check(got is None if want is None else same(api, got, want), msg + ': read')


def whole(api, c, m, msg, p=None):
    api.check(c.size == len(m), msg + ': size')
    for k, v in m.d:
        agrees(api, c, m, k, msg)
    if p is not None:
        agrees(api, c, m, p, msg)


KINDS = [(1,), (1, 1), (1, 2), ('int', 1), ('int', 'int'), (0, 1)]


@harness('C09', shards=product(nc=[None, 2, 3], kinds=[(1,), (1, 1), ('int', 1), (0, 1)],
                               op=['write', 'delete', 'none']) +
         product(nc=[1, 2], kinds=[('wide',)], op=['write', 'delete']),
         thorough=product(nc=[None, 1, 2, 3, 5], kinds=KINDS + [('wide',), ('wide', 1), (1, 1, 1)],
                          op=['write', 'delete', 'none']),
         bounds='1-3 (thorough 5) sub-containers; <= 2 (3) stored ids of 0-2 ASCII characters, one two-byte '
                'character or integers 0-999; unbounded integer objects; arbitrary operation and probe id', modules=M9)
def h_map(api, nc, kinds, op):
    c = make(nc)
    m = fill(api, c, kinds)
    api.check(c.containers_size == (nc or 1), 'number of sub-containers')
    kd = api.choice('kind', [1, kinds[0]] if kinds[0] != 1 else [1])
    k = ident(api, 'k', kd)
    if op == 'write':
        v = api.int('v')
        c.write(k, v)
        m.put(k, v)
        whole(api, c, m, 'after write')
    elif op == 'delete':
        r = attempt(lambda: c.delete(k), KeyError)
        if m.has(k):
            api.check(r[0] == 'ok', 'a stored id can be deleted')
            m.remove(k)
            api.check(not c.has(k) and c.read(k) is None, 'deleted id is gone')
    p = ident(api, 'p', kinds[-1])
    whole(api, c, m, 'after ' + op, p)


@harness('C09', shards=product(nc=[None, 2, 3], op=['write', 'delete', 'expand', 'none']),
         bounds='<= 2 ids, objects that equal everything or nothing or cannot be compared', modules=M9)
def h_odd(api, nc, op):
    c, m = make(nc), RefMap()
    ids = [key(api, 'a', 1), key(api, 'k', 1)]
    for i, k in enumerate(ids[:2 if op == 'write' else 1]):
        v = odd(api, 'x%d' % i)
        c.write(k, v)
        m.put(k, v)
    if op == 'delete':
        r = attempt(lambda: c.delete(ids[1]), KeyError)
        api.check((r[0] == 'ok') == m.has(ids[1]), 'only stored ids can be deleted')
        m.remove(ids[1])
    elif op == 'expand':
        c.expand_size(c.containers_size + 2)
    for k in ids:
        api.check(c.has(k) == m.has(k), 'has')
        api.check(c.read(k) is m.get(k), 'read gives the object itself')
    api.check(c.size == len(m), 'size')


@harness('C09', shards=product(nc=[None, 2], new=[2, 3], kinds=[(1, 1), (0, 'wide')]) +
         product(nc=[None, 2], new=[2, 3], kinds=[('int',)], ints=[99]) +
         product(nc=[None, 2], new=[5], kinds=[(1,)], one=[True]) +
         product(nc=[3], new=[1, 2, 3], kinds=[(1, 1)]) + product(nc=[None], new=[0, 1, -1], kinds=[(1,)]),
         thorough=product(nc=[None, 1, 2, 3, 4], new=[-1, 0, 1, 2, 3, 4, 5, 7], kinds=[(1, 1), (2,), ('int', 1), (0, 'wide')]),
         bounds='1-3 (4) sub-containers expanded to up to 5 (7), smaller and equal numbers too', modules=M9)
def h_expand(api, nc, new, kinds, ints=999, one=False):
    c = make(nc)
    m = fill(api, c, kinds, ints=ints)
    r = attempt(lambda: c.expand_size(new), ValueError)
    bigger = new > (nc or 1)
    api.check((r[0] == 'ok') == bigger, 'refused exactly when not larger')
    api.check(c.containers_size == (new if bigger else (nc or 1)), 'number of sub-containers')
    whole(api, c, m, 'after expansion', ident(api, 'p', kinds[0], ints))
    if one:
        return
    k, v = ident(api, 'k', kinds[-1], ints), api.int('v')
    c.write(k, v)
    m.put(k, v)
    whole(api, c, m, 'write after expansion')
    c.delete(k)
    m.remove(k)
    whole(api, c, m, 'delete after expansion', k)


@harness('C09', shards=product(nc=[2], twice=[(3, 4), (4, 3), (3, 3)]),
         thorough=product(nc=[None, 2, 3], twice=[(3, 4), (4, 3), (3, 3), (5, 7), (2, 5)]),
         bounds='two expansions after each other; objects None, "", False or any integer', modules=M9)
def h_expand_twice(api, nc, twice):
    c = make(nc)
    m = fill(api, c, (1, 1), value=any_value)
    size = nc or 1
    for new in twice:
        r = attempt(lambda: c.expand_size(new), ValueError)
        api.check((r[0] == 'ok') == (new > size), 'refused exactly when not larger')
        size = max(size, new)
    api.check(c.size == len(m), 'size after expansions')
    for k, v in m.d:
        api.check(c.has(k), 'still stored')
        api.check(same(api, c.read(k), v), 'same object')


@harness('C09', shards=[{'given': g} for g in ('empty', 'filled')],
         bounds='sub-containers handed in at construction are used', modules=M9)
def h_given(api, given):
    from citrine.persistence import DbContainer
    from persistent.mapping import PersistentMapping
    maps = {i: PersistentMapping() for i in range(2)}
    m = RefMap()
    if given == 'filled':
        c0 = DbContainer(PersistentMapping(maps))
        m = fill(api, c0, (1, 1))
    c = DbContainer(maps)
    api.check(c.containers_size == 2, 'given sub-containers')
    whole(api, c, m, 'given sub-containers', key(api, 'p', 1))
    k, v = key(api, 'k', 1), api.int('v')
    c.write(k, v)
    m.put(k, v)
    whole(api, c, m, 'write to given sub-containers')
    api.check(sum(len(x) for x in maps.values()) == len(m), 'written to the given sub-containers')
    # separate containers do not share anything
    d, e = DbContainer(), DbContainer()
    d.write(k, v)
    api.check(e.size == 0 and not e.has(k) and d.size == 1, 'separate containers')


@harness('C09', shards=product(nc=[2, 3], op=['write', 'delete', 'expand']),
         bounds='2-3 sub-containers, two stored ids of one ASCII character, written in one process and used in another (where '
                'text has other hashes)', modules=M9)
def h_processes(api, nc, op):
    move = other_process(api, M9)
    c = make(nc)
    m = fill(api, c, (1, 1))
    move()
    whole(api, c, m, 'in another process')
    k = key(api, 'k', 1)
    if op == 'write':
        v = api.int('v')
        c.write(k, v)
        m.put(k, v)
    elif op == 'delete':
        if m.has(k):
            c.delete(k)
            m.remove(k)
    else:
        c.expand_size(nc + 2)
    whole(api, c, m, op + ' in another process', k)


# ---------------------------------------------------------------------------
# C10


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path


def entry(api, c, k, mod, msg):
    e = c.read(k)
    api.check(c.has(k), msg + ': registered')
    api.check(e is not None, msg + ': readable')
    api.check(same(api, e.name, mod[0]) and same(api, e.path, mod[1]), msg + ': name and path')
    api.check(e.created is None and e.size_limit is None, msg + ': no other data')
    api.check(e.in_migration is False and e.in_reallocation is False, msg + ': flags')


@harness('C10', shards=product(given=[None, 'dict', 'mapping', 'filled'], n=[0, 1, 2], op=['write', 'delete', 'none']),
         thorough=product(given=[None, 'dict', 'mapping', 'filled'], n=[0, 1, 2, 3], op=['write', 'delete', 'none', 'write2']),
         bounds='<= 2 (3) registered ids of one ASCII character, arbitrary names and paths of 0-2 characters',
         modules=M10)
def h_registry(api, given, n, op):
    from citrine.cluster_tools.clusterdb.container import ClusterRegistryContainer
    from persistent.mapping import PersistentMapping
    maps = {None: None, 'dict': {}, 'mapping': PersistentMapping(), 'filled': {'old entry': 'OLD'}}[given]
    c = ClusterRegistryContainer(maps) if maps is not None else ClusterRegistryContainer()
    if maps is not None:
        api.check(c.modules is maps, 'the given mapping is used')
    base = 1 if given == 'filled' else 0
    m = RefMap()

    def register(k, tag):
        mod = Module(key(api, tag + 'name', 1), key(api, tag + 'path', 2))
        before = (mod.name, mod.path)
        c.write(k, mod)
        api.check(same(api, mod.name, before[0]) and same(api, mod.path, before[1])
                  and len(vars(mod)) == 2, 'the module is not altered')
        m.put(k, before)
    for i in range(n):
        register(key(api, 'a%d' % i, 1), 'm%d' % i)
    k = key(api, 'k', 1)
    if op in ('write', 'write2'):
        register(k, 'new')
        if op == 'write2':
            register(k, 'newer')
    elif op == 'delete':
        r = attempt(lambda: c.delete(k), KeyError)
        api.check((r[0] == 'ok') == m.has(k) or not m.has(k), 'registered ids can be deleted')
        m.remove(k)
    for kk, mod in m.d:
        entry(api, c, kk, mod, 'after ' + op)
    p = key(api, 'p', 1)
    api.check(c.has(p) == m.has(p), 'has')
    if not m.has(p):
        api.check(c.read(p) is None, 'unknown id')
    api.check(len(c.modules) == len(m) + base, 'exactly the registered ids')
    if base:
        api.check(c.read('old entry') == 'OLD', 'entries of the given mapping')
    before = len(c.modules)
    c.expand_size(7)
    api.check(len(c.modules) == before, 'expanding does nothing')


@harness('C10', bounds='two registries, arbitrary id; explicit registry data', modules=M10)
def h_registry_separate(api):
    from citrine.cluster_tools.clusterdb.container import ClusterRegistryContainer, DbModuleRegistry
    a, b = ClusterRegistryContainer(), ClusterRegistryContainer()
    k = key(api, 'k', 1)
    mod = Module(key(api, 'name', 2), key(api, 'path', 2))
    a.write(k, mod)
    api.check(a.has(k) and not b.has(k) and b.read(k) is None, 'registries do not share entries')
    limit, mig, real = api.int('limit', 0), api.bool('mig'), api.bool('real')
    created = api.choice('created', ['never', 'now'])
    e = DbModuleRegistry.from_dbmodule(mod, created, limit, mig, real)
    api.check(same(api, e.name, mod.name) and same(api, e.path, mod.path), 'name and path')
    api.check(e.created is created and same(api, e.size_limit, limit), 'created and size limit')
    api.check(same(api, e.in_migration, mig) and same(api, e.in_reallocation, real), 'flags')
    e2 = DbModuleRegistry.from_dbmodule(mod, in_reallocation=real, size_limit=limit)
    api.check(same(api, e2.size_limit, limit) and e2.in_migration is False and
              same(api, e2.in_reallocation, real) and e2.created is None, 'keyword data')
