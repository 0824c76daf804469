"""C01, C04, C08, C09, C16: ids that look or count as alike elsewhere are different ids."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import MISS, same
from harness.zstore import open_container_db

MODS = ['citrine.storage.group', 'citrine.storage.collection', 'citrine.storage.container', 'citrine.persistence',
        'citrine.connection.container_connection', 'citrine.connection.connection', 'citrine.storage.transaction']

PAIRS = [('', ' '), ('', '\0'), ('a', 'A'), ('a', 'a '), ('a', ' a'), ('a\n', 'a'), ('a\0', 'a'), ('\0a', 'a'), ('1', '01'), ('1', '1.0'),
         ('1', '\u0661'), ('\u00e9', 'e\u0301'), ('\u00df', 'ss'), ('\u212b', '\u00c5'), ('\ufb01', 'fi'), ('\u0130', 'i'),
         ('\U0001f600', '\ufffd'), ('a/', 'a'), ('http://a', 'https://a'), ('a%20b', 'a b'), ('a?', 'a'), ('a#b', 'a#c'), ('a_b', 'a-b'),
         ('ab', 'ba'), ('None', 'none'), ('True', 'true'), ('x' * 64 + 'a', 'x' * 64 + 'b'), ('x' * 255, 'x' * 256),
         ('x' * 300 + 'a', 'x' * 300 + 'b'), ('a' + 'x' * 300, 'b' + 'x' * 300), ('x' * 5000 + 'a', 'x' * 5000 + 'b')]
MIXED = PAIRS + [(1, '1'), (0, ''), (0, '0'), (10, '10'), (1, 10), (1, '\x01'), (97, 'a')]


class Target:
    """what is written, read and deleted, on each kind of store"""

    def __init__(self, write, read, delete, size, both=None):
        self.write, self.read, self.delete, self.size, self.both = write, read, delete, size, both


def new_group(nc):
    from citrine.storage.group import Group
    from citrine.storage.collection import Collection
    return Group(tuple(Collection(max_size=50, strict=False) for _ in range(nc)))


def group(api, nc, how):
    g = new_group(nc)

    def insert(k, v):
        if g.has_key(k):
            g.pop(k)
        g.insert(k, v)
    return Target({'insert': insert, 'update': lambda k, v: g.update({k: v}),
                   'setdefault': lambda k, v: (g.has_key(k) and g.pop(k), g.setdefault(k, v))}[how],
                  lambda k: g.get(k, MISS), lambda k: g.pop(k, MISS), lambda: g.size, lambda d: g.update(d))


def container(api, nc, how):
    from citrine.storage.container import Container
    gs = (new_group(nc), new_group(1 if how == 'one' else 2))
    c = Container(gs[0], gs if how == 'two' else gs[:1])
    return Target(c.write, lambda k: c.read(k, MISS), c.delete, lambda: c.size)


def connection(api, nc, how):
    from citrine.storage.container import Container
    g = new_group(nc)
    st, db = open_container_db(Container(g, (g,)))
    conn = db.open()
    other = db.open()

    def read(k):
        other.sync()
        v = other.read(k, MISS)
        api.check((v is not MISS) == (attempt(lambda: conn[k], KeyError)[0] == 'ok'), 'lookup')
        return v

    def create(k, v):
        if conn.read(k, MISS) is not MISS:
            conn.delete(k)
        conn.create(k, v)
    return Target(create if how == 'create' else conn.update, read, conn.delete, lambda: conn.container.size)


def hashed(api, nc, how):
    from harness.h_persistence import make
    c = make(nc)

    def expand(k, v):
        c.write(k, v)
        c.expand_size(c.containers_size + 1)
    return Target(c.write if how == 'plain' else expand, lambda k: c.read(k) if c.has(k) else MISS, c.delete, lambda: c.size)


def hashed_connection(api, nc, how):
    from ZODB import DB
    from citrine.connection.connection import CitrineConnection
    from harness.zstore import FaultyStorage
    conn = CitrineConnection(DB(FaultyStorage()))
    conn.setup()
    return Target(conn.create if how == 'create' else conn.update, lambda k: conn.read(k) if conn.container.has(k) else MISS, conn.delete,
                  lambda: conn.size)


def different(api, t, pairs=PAIRS):
    i, swap = api.choice('pair', list(range(len(pairs)))), api.bool('swap')
    a, b = pairs[i][::-1] if swap else pairs[i]
    v, w, x = api.int('v'), api.int('w'), api.int('x')
    if t.both is not None and api.bool('together'):
        t.both({a: v, b: w})
    else:
        t.write(a, v)
        api.check(t.read(b) is MISS, 'another id is not stored')
        attempt(lambda: t.delete(b), KeyError)
        api.check(same(api, t.read(a), v), 'an id keeps its object')
        t.write(b, w)
    api.check(same(api, t.read(a), v) and same(api, t.read(b), w) and t.size() == 2, 'two ids have their own objects')
    if api.bool('delete'):
        t.delete(b)
        api.check(same(api, t.read(a), v) and t.read(b) is MISS and t.size() == 1, 'only the deleted id is gone')
    else:
        t.write(b, x)
        api.check(same(api, t.read(a), v) and same(api, t.read(b), x) and t.size() == 2, 'only the written id changes')


TEXT = '%d pairs of ids that differ in case, whitespace, normal form, notation or only far behind; any objects' % len(PAIRS)


@harness('C01', shards=product(nc=[2, 3, 5], how=['insert', 'update', 'setdefault']), bounds=TEXT, modules=MODS)
def h_group_confusable(api, nc, how):
    different(api, group(api, nc, how))


@harness('C04', shards=product(nc=[1, 2, 3], how=['one', 'two']), bounds=TEXT, modules=MODS)
def h_container_confusable(api, nc, how):
    different(api, container(api, nc, how))


@harness('C08', shards=product(nc=[2], how=['create', 'update']), bounds=TEXT, modules=MODS)
def h_connection_confusable(api, nc, how):
    different(api, connection(api, nc, how))


@harness('C09', shards=product(nc=[1, 2, 3], how=['plain', 'expand']), bounds=TEXT, modules=MODS)
def h_hashed_confusable(api, nc, how):
    different(api, hashed(api, nc, how), MIXED)


@harness('C16', shards=product(nc=[1], how=['create', 'update']), bounds=TEXT, modules=MODS)
def h_hashed_connection_confusable(api, nc, how):
    different(api, hashed_connection(api, nc, how), MIXED)
