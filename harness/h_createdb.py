"""C13: creating and opening container databases."""
import os
import shutil
import tempfile

from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, MISS, key, same
from harness.h_capacity import errors
from harness.zstore import FaultyStorage, container_storage

MODS = ['citrine.database.containerdb', 'citrine.client.container_client', 'citrine.storage.container',
        'citrine.storage.group', 'citrine.connection.container_connection']


def scratch(api):
    d = tempfile.mkdtemp(prefix='sxdb')
    api.cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
    return os.path.join(d, 'data.fs')


def settings(api, c, capacity, limit, strict, msg):
    """c holds at least `capacity` objects in collections of at most `limit`"""
    api.check(c.capacity >= capacity, msg + ': holds the requested number of objects')
    api.check(c.strict is strict, msg + ': strictness as requested')
    cols = c.primary.collections
    total = 0
    for col in cols:
        api.check(col.max_size <= limit, msg + ': collections limited to the requested size')
        api.check(col.max_size >= 1, msg + ': collections can hold something')
        api.check(col.strict is strict, msg + ': every collection strict as requested')
        total = total + col.max_size
    api.check(total == c.capacity, msg + ': capacity')
    api.check(c.size == 0, msg + ': empty')


@harness('C13', shards=product(cms=[1, 2, 3, 7, 100, 5000, None], strict=[True, False, None]),
         thorough=product(cms=[1, 2, 3, 4, 5, 7, 10, 99, 100, 1000, 4999, 5000, None], strict=[True, False, None],
                          many=[40]),
         bounds='capacity from 1 to 16 (thorough 40) times the collection size, listed collection sizes', modules=MODS)
def h_container_new(api, cms, strict, many=16):
    from citrine.storage.container import Container
    kw = {}
    if cms is not None:
        kw['collection_max_size'] = cms
    if strict is not None:
        kw['strict'] = strict
    cap = api.int('capacity', 1, many * (cms or 5000))
    settings(api, Container.new(capacity=cap, **kw), cap, cms or 5000, bool(strict), 'new container')


@harness('C13', shards=product(cap=[1, 2, 3, 5, 8], strict=[True, False]), thorough=product(
    cap=list(range(1, 30)), strict=[True, False]),
         bounds='collection size 1-30, listed capacities', modules=MODS)
def h_container_new_size(api, cap, strict):
    from citrine.storage.container import Container
    cms = api.choice('cms', list(range(1, 31)))
    c = Container.new(cap, cms, strict)
    settings(api, c, cap, cms, strict, 'new container')


@harness('C13', shards=product(strict=[True, False], how=['db', 'create', 'new', 'new-default']),
         thorough=product(strict=[True, False], how=['db', 'create', 'new', 'new-default'], hi=[60000]),
         bounds='capacity 1-20000 (thorough 60000), real FileStorage in a scratch directory, plain, replacing a database or '
                'with other storage options', modules=MODS)
def h_create(api, strict, how, hi=20000):
    from citrine.database.containerdb import ContainerDb
    path = scratch(api)
    kw = {} if how == 'new-default' and not strict else {'strict': strict}
    options = api.choice('options', ['none', 'create', 'replace', 'other'])
    if options in ('create', 'replace'):
        kw['create'] = True
        if options == 'replace':
            old = ContainerDb.new(path, capacity=7, strict=not strict)
            with old as conn:
                conn.create('old', 1)
            old.close()
    elif options == 'other':
        kw.update(pack_gc=False, pack_keep_old=False, quota=10 ** 9)
    if how == 'new-default':
        cap = 100000
    else:
        cap = kw['capacity'] = api.int('capacity', 1, hi)
    if how == 'create':
        db = ContainerDb.load(ContainerDb.create(path, **kw))
    elif how == 'db':
        db = ContainerDb(ContainerDb.create(path, **kw))
    else:
        db = ContainerDb.new(path, **kw)
    conn = db.open()
    settings(api, conn.container, cap, 5000, strict, 'created database')
    api.check(conn.strict is strict and conn.capacity >= cap, 'created database: connection')
    k, v = key(api, 'k', 1), api.int('v')
    conn.create(k, v)
    conn.close()
    with db as other:
        api.check(same(api, other.read(k, MISS), v), 'stored object')
    db.close()


@harness('C13', shards=product(cap=[1, 2, 3], strict=[True, False], n=[3]),
         thorough=product(cap=[1, 2, 3, 4, 5], strict=[True, False], n=[3, 4, 5]),
         bounds='capacity 1-3 (5), 3 (5) objects with arbitrary ids created through a connection', modules=MODS)
def h_create_fill(api, cap, strict, n):
    """strictness really is in force: at least `capacity` ids are accepted only
    while their collections have room, and never refused without strict mode"""
    from citrine.database.containerdb import ContainerDb
    db = ContainerDb.new(scratch(api), capacity=cap, strict=strict)
    conn = db.open()
    m = RefMap()
    api.check(len(conn.container.primary.collections) == 1, 'one collection suffices')
    for i in range(n):
        k, v = key(api, 'a%d' % i, 1), api.int('x%d' % i)
        r = attempt(lambda: conn.update(k, v), *errors())
        fits = not strict or m.has(k) or len(m) < cap
        api.check((r[0] == 'ok') == fits, 'refused exactly when strict and full')
        if fits:
            m.put(k, v)
    for k, v in m.d:
        api.check(same(api, conn.read(k, MISS), v), 'stored objects')
    api.check(conn.used == len(m), 'number of objects')
    conn.close()
    db.close()


def existing(api, strict, n):
    """an existing container database: (storage, what it holds, its settings)"""
    from citrine.storage.container import Container
    from citrine.storage.group import Group
    from citrine.storage.collection import Collection
    limits = [api.int('limit%d' % i, 4, 50) for i in range(2)]
    groups = tuple(Group((Collection(max_size=m),)) for m in limits)
    c = Container(groups[0], groups)
    refs = []
    for gi, g in enumerate(groups):
        m = RefMap()
        for i in range(n if gi == 0 else 1):
            k, v = key(api, 'a%d_%d' % (gi, i), 1), api.int('x%d_%d' % (gi, i))
            g.update({k: v})
            m.put(k, v)
        refs.append(m)
    c.strict = strict
    return c, refs, limits


def intact(api, conn, refs, limits, strict, msg):
    c = conn.container
    api.check(c.strict is strict, msg + ': strictness kept')
    api.check(len(c.groups) == len(limits), msg + ': groups kept')
    for g, m, limit in zip(c.groups, refs, limits):
        api.check(g.max_size == limit, msg + ': limits kept')
        api.check(g.size == len(m), msg + ': number of objects kept')
        for k, v in m.d:
            api.check(same(api, g.get(k, MISS), v), msg + ': objects kept')
    for m in refs:
        for k, _ in m.d:
            want = refs[0].get(k) if refs[0].has(k) else refs[1].get(k)
            api.check(same(api, conn.read(k, MISS), want), msg + ': objects readable')


HOW = ['ctor', 'load', 'twice', 'client', 'path', 'connection', 'databases']


@harness('C13', shards=product(how=HOW, strict=[True, False], n=[0, 1]),
         thorough=product(how=HOW, strict=[True, False], n=[0, 1, 2]),
         bounds='an existing database of two groups with <= 3 objects, limits 4-50, opened in every way', modules=MODS)
def h_reopen(api, how, strict, n):
    from ZODB import DB
    from ZODB.FileStorage import FileStorage
    from citrine.database.containerdb import ContainerDb
    from citrine.connection.container_connection import ContainerConnection
    c, refs, limits = existing(api, strict, n)
    if how == 'path':
        path = scratch(api)
        db = DB(FileStorage(path))
        conn = db.open()
        conn.root.container = c
        conn.transaction_manager.commit()
        conn.close()
        db.close()
        st = path
    else:
        st, _ = container_storage(c)
    if how == 'load':
        db = ContainerDb.load(st)
    elif how == 'client':
        db = client(api, st, strict=not strict)
    elif how == 'connection':
        db = DB(st)
        conn = ContainerConnection(db)
        intact(api, conn, refs, limits, strict, 'opened')
        return
    elif how == 'databases':
        others = {}
        db = ContainerDb(st, database_name='mine', databases=others)
        api.check(others.get('mine') is db and len(others) == 1, 'registered under its name')
    else:
        db = ContainerDb(st)
    if how == 'twice':
        intact(api, db.open(), refs, limits, strict, 'first')
        db = ContainerDb(st)
    with db as conn:
        intact(api, conn, refs, limits, strict, 'opened')
        k, v = key(api, 'k', 1), api.int('v')
        conn.update(k, v)
        refs[0].put(k, v)
    intact(api, db.open(), refs, limits, strict, 'after a write')
    if how == 'path':
        db.close()


def client(api, st, **kw):
    import citrine.client.container_client as mod
    api.patch(mod, 'ClientStorage', lambda *a, **k: st)
    return mod.ContainerClient.connect(('localhost', 1), None, **kw)


@harness('C13', shards=product(how=['file', 'path', 'replace', 'mapping', 'none', 'databases', 'client'], strict=[True, False]),
         bounds='a container database opened on an empty storage of each kind; arbitrary first object', modules=MODS)
def h_empty_storage(api, how, strict):
    from ZODB.FileStorage import FileStorage
    from citrine.database.containerdb import ContainerDb
    want = False
    if how == 'file':
        db = ContainerDb(FileStorage(scratch(api)))
    elif how == 'path':
        db = ContainerDb(scratch(api))
    elif how == 'replace':
        path = scratch(api)
        if strict:
            old = ContainerDb.new(path, strict=True, capacity=7)
            with old as conn:
                conn.create('old', 1)
            old.close()
        db = ContainerDb(path, create=True)
    elif how == 'mapping':
        db = ContainerDb(FaultyStorage())
    elif how == 'none':
        db = ContainerDb(None)
    elif how == 'databases':
        others = {}
        db = ContainerDb(FaultyStorage(), databases=others, database_name='mine')
        api.check(others.get('mine') is db and len(others) == 1, 'registered under its name')
    else:
        want = strict
        db = client(api, FaultyStorage(), strict=strict)
    conn = db.open()
    settings(api, conn.container, 100000, 5000, want, 'default container')
    k, v = key(api, 'k', 1), api.int('v')
    conn.create(k, v)
    other = db.open()
    other.sync()
    api.check(same(api, other.read(k, MISS), v), 'stored object')
    conn.close()
    other.close()
    db.close()


@harness('C13', shards=product(root=['empty', 'other'], how=['connection', 'db', 'load']),
         bounds='a database whose root holds an arbitrary object but no container', modules=MODS)
def h_incompatible(api, root, how):
    from ZODB import DB
    from citrine.database.containerdb import ContainerDb
    from citrine.connection.container_connection import ContainerConnection
    from citrine.exceptions import IncompatibleDatabaseError
    st = FaultyStorage()
    plain = DB(st)
    v = api.int('v')
    conn = plain.open()
    if root == 'other':
        conn.root.something = [v]
    conn.root._root['x'] = 1
    conn.transaction_manager.commit()
    conn.close()
    if how == 'connection':
        r = attempt(lambda: ContainerConnection(DB(st)), IncompatibleDatabaseError)
    elif how == 'db':
        r = attempt(lambda: ContainerDb(st).open(), IncompatibleDatabaseError)
    else:
        r = attempt(lambda: ContainerDb.load(st).open(), IncompatibleDatabaseError)
    api.check(r[0] == 'exc', 'a database lacking a container is refused')
    conn = plain.open()
    conn.sync()
    api.check(not hasattr(conn.root, 'container'), 'the database is not altered')
    if root == 'other':
        api.check(same(api, list(conn.root.something), [v]), 'other objects are kept')
