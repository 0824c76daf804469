"""C18: database blocks and historical connections; C19: options given for a database."""
import inspect
import threading

from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, MISS, key, same
from harness.h_capacity import errors
from harness.h_connection import run_op, OPS, overwrite, committed, keys_of
from harness.h_createdb import existing, scratch
from harness.zstore import FaultyStorage, container_storage, open_container_db

MODS = ['citrine.database.containerdb', 'citrine.client.container_client',
        'citrine.connection.container_connection', 'citrine.storage.transaction', 'citrine.storage.container']


class Stop(Exception):
    pass


class Worker:
    """a thread that runs what it is told to, one thing at a time"""

    def __init__(self, api):
        self.todo = self.result = None
        self.go, self.done = threading.Semaphore(0), threading.Semaphore(0)
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()
        api.cleanup(self.stop)

    def run(self):
        while True:
            self.go.acquire()
            if self.todo is None:
                return
            try:
                self.result = (True, self.todo())
            except BaseException as e:
                self.result = (False, e)
            self.done.release()

    def stop(self):
        self.todo = None
        self.go.release()

    def __call__(self, fn):
        self.todo = fn
        self.go.release()
        self.done.acquire()
        ok, value = self.result
        if not ok:
            raise value
        return value


def base(api, n=1):
    from citrine.storage.container import Container
    from citrine.storage.group import Group
    from citrine.storage.collection import Collection
    g = Group((Collection(max_size=50), Collection(max_size=50)))
    m = RefMap()
    for i in range(n):
        k, v = key(api, 'a%d' % i, 1), api.int('x%d' % i)
        g.update({k: v})
        m.put(k, v)
    st, db = open_container_db(Container(g, (g,)))
    return st, db, [m]


class Session:
    """one `with db` block, advanced step by step in its own thread or in this one"""

    def __init__(self, api, db, tag, op, leave, run=None):
        self.api, self.db, self.tag, self.op, self.leave = api, db, tag, op, leave
        self.run = run or (lambda fn: fn())
        self.steps = [self.enter, self.work, self.exit]

    def enter(self, refs):
        self.conn = self.run(self.db.__enter__)
        self.api.check(self.conn.opened is not None, 'the connection of a block is open')
        return refs

    def work(self, refs):
        self.api.check(self.conn.opened is not None, 'the connection of a block stays open')
        self.run(self.conn.sync)
        if self.leave == 'pending':
            self.run(lambda: setattr(self.conn, 'autocommit', False))
        k, fn, ok, after = run_op(self.api, self.conn, refs, self.op, self.tag)
        r = attempt(lambda: self.run(fn), overwrite())
        self.api.check((r[0] == 'ok') == ok, 'operation in a block')
        return after if ok and self.leave != 'pending' else refs

    def exit(self, refs):
        self.api.check(self.conn.opened is not None, 'the connection of a block stays open to its end')
        exc = Stop() if self.leave != 'normal' else None
        r = self.run(lambda: self.db.__exit__(type(exc) if exc else None, exc, None))
        self.api.check(not r, 'an exception leaves the block')
        self.api.check(self.conn.opened is None, 'the connection is closed at the end of its block')
        return refs


LEAVE = ['normal', 'fails', 'pending']


@harness('C18', shards=product(form=['nested', 'parallel', 'after'], op=OPS, leave=LEAVE),
         thorough=product(form=['nested', 'parallel', 'after'], op=OPS, leave=LEAVE, n=[0, 1, 2], other=OPS),
         bounds='<= 2 stored ids; two blocks on one database, nested, one after the other or in two threads with any interleaving of '
                'their steps; one arbitrary operation in each, ending normally, with an exception, or with an exception and pending '
                'changes', modules=MODS)
def h_blocks(api, form, op, leave, n=1, other='update'):
    st, db, refs = base(api, n)
    if form == 'parallel':
        one, two = (Session(api, db, t, o, l, Worker(api)) for t, o, l in [(0, op, leave), (1, other, 'normal')])
    else:
        one, two = Session(api, db, 0, op, leave), Session(api, db, 1, other, 'normal')
    if form == 'nested':
        order = [two.enter, one.enter, one.work, one.exit, two.work, two.exit]
        if api.bool('before'):
            order = [two.enter, two.work] + order[1:4] + [two.exit]
    elif form == 'after':
        order = one.steps + two.steps
    else:
        a, b = list(one.steps), list(two.steps)
        order = []
        while a and b:
            order.append((a if api.bool('turn%d' % len(order)) else b).pop(0))
        order += a + b
    inside = set()
    for step in order:
        refs = step(refs)
        inside.add(step.__self__)
        if step.__name__ == 'exit':
            inside.remove(step.__self__)
        if len(inside) == 2:
            api.check(one.conn is not two.conn, 'each block has its own connection')
    committed(api, db, refs, keys_of(refs), 'committed')
    with db as conn:
        api.check(conn.autocommit is True, 'a block commits automatically')


@harness('C18', shards=product(leave=LEAVE, kind=['Stop', 'KeyboardInterrupt', 'falsy']),
         bounds='one stored id, one arbitrary operation in a block left by an exception of several kinds', modules=MODS)
def h_leave(api, leave, kind):
    from harness.h_connection import Falsy
    st, db, refs = base(api, 1)
    exc = {'Stop': Stop, 'KeyboardInterrupt': KeyboardInterrupt, 'falsy': Falsy}[kind]
    conns = []

    def block():
        with db as conn:
            conns.append(conn)
            if leave == 'pending':
                conn.autocommit = False
            k, fn, ok, after = run_op(api, conn, refs, 'update', 0)
            fn()
            if leave != 'pending':
                refs[:] = after
            if leave != 'normal':
                raise exc()
    r = attempt(block, exc)
    api.check((r[0] == 'exc') == (leave != 'normal'), 'the exception leaves the block')
    api.check(conns[0].opened is None, 'the connection is closed')
    committed(api, db, refs, keys_of(refs), 'committed')


@harness('C18', shards=product(first=OPS, then=OPS, how=['at', 'before']),
         thorough=product(first=OPS, then=OPS, how=['at', 'before'], n=[0, 1, 2], last=OPS),
         bounds='<= 2 stored ids, two (thorough three) arbitrary operations, the state before or after each of them', modules=MODS)
def h_history(api, first, then, how, n=1, last=None):
    from ZODB.POSException import ReadOnlyHistoryError
    st, db, refs = base(api, n)
    conn = db.open()
    states = [(db.lastTransaction(), refs)]
    keys = []
    for i, op in enumerate([first, then] + ([last] if last else [])):
        k, fn, ok, after = run_op(api, conn, refs, op, i)
        r = attempt(fn, overwrite())
        api.check((r[0] == 'ok') == ok, 'operation')
        refs = after if ok else refs
        keys.append(k)
        if db.lastTransaction() != states[-1][0]:
            states.append((db.lastTransaction(), refs))
        else:
            states[-1] = (states[-1][0], refs)
    keys += keys_of(states[0][1])
    i = api.choice('when', list(range(len(states))))
    if how == 'at':
        old, want = db.open(at=states[i][0]), states[i][1]
    else:
        i = max(i, 1) if len(states) > 1 else 0
        if i == 0:
            return
        old, want = db.open(before=states[i][0]), states[i - 1][1]
    for k in keys:
        v = want[0].get(k, MISS)
        api.check(same(api, old.read(k, MISS), v), 'objects as they were then')
    api.check(old.used == len(want[0]), 'number of objects then')
    k, v = key(api, 'w', 1), api.int('wv')
    r = attempt(lambda: old.update(k, v), ReadOnlyHistoryError)
    api.check(r[0] == 'exc', 'the past cannot be changed')
    old.close()
    committed(api, db, refs, keys + [k], 'the present is not changed')


# ---- C19

COUNTS = ['pool_size', 'pool_timeout', 'cache_size', 'cache_size_bytes', 'historical_pool_size', 'historical_cache_size',
          'historical_cache_size_bytes', 'historical_timeout', 'large_record_size']
FILE = ['stop', 'quota', 'pack_gc', 'pack_keep_old', 'packer', 'blob_dir', 'create', 'read_only']


def record(api, cls, harmless):
    """every construction of a `cls`, by option; the real one is called with harmless options"""
    original, calls = cls.__init__, []
    signature = inspect.signature(original)

    def init(self, *args, **kw):
        bound = signature.bind(self, *args, **kw)
        bound.apply_defaults()
        calls.append((self, dict(bound.arguments)))
        names = [p for p in signature.parameters][1:2]
        return original(self, bound.arguments[names[0]], **harmless(bound.arguments))
    api.patch(cls, '__init__', init)
    return calls, {n: p.default for n, p in signature.parameters.items()}


def db_options(api, given):
    want = {}
    for n in COUNTS:
        if n in given:
            want[n] = api.int(n)
    if 'xrefs' in given:
        want['xrefs'] = api.bool('xrefs')
    if 'database_name' in given:
        want['database_name'] = api.choice('name', ['unnamed', 'mine', ''])
    if 'databases' in given:
        want['databases'] = {}
    return want


def file_options(api, given):
    want = {}
    for n in ('stop', 'quota'):
        if n in given:
            want[n] = api.int(n)
    for n in ('pack_gc', 'pack_keep_old', 'read_only', 'create'):
        if n in given:
            want[n] = api.bool(n)
    for n in ('packer', 'blob_dir'):
        if n in given:
            want[n] = object()
    return want


def agree(api, got, want, defaults, names, msg):
    for n in names:
        if n in want:
            api.check(got[n] is want[n] if type(want[n]) in (dict, object) else same(api, got[n], want[n]), msg + ': ' + n)
        else:
            api.check(got[n] is defaults[n] or got[n] == defaults[n], msg + ': ' + n + ' by default')


ALL = COUNTS + ['xrefs', 'database_name', 'databases']


@harness('C19', shards=product(how=['ctor', 'load', 'empty', 'path', 'none', 'new', 'create', 'connect'], given=['all', 'none', 'one']),
         bounds='every option that reaches ZODB with an arbitrary number / flag / name; all of them given, none, or any one', modules=MODS)
def h_options(api, how, given):
    from ZODB import DB
    from ZODB.FileStorage import FileStorage
    from citrine.database.containerdb import ContainerDb
    from citrine.client.container_client import ContainerClient
    import citrine.client.container_client as mod
    files = how in ('path', 'new', 'create')
    names = (ALL if how != 'create' else []) + (FILE if files else [])
    chosen = names if given == 'all' else [api.choice('one', names)] if given == 'one' else []
    dbw, filew = db_options(api, chosen), file_options(api, chosen)
    if how in ('ctor', 'load'):
        c, refs, limits = existing(api, False, 1)
        st, _ = container_storage(c)
    elif how in ('path', 'new', 'create'):
        st = scratch(api)
    elif how == 'none':
        st = None
    else:
        st = FaultyStorage()
    dbs, ddef = record(api, DB, lambda a: dict(a['storage_args'], **(
        {'database_name': a['database_name'], 'databases': a['databases']} if a['databases'] is not None else {})))
    stores, fdef = record(api, FileStorage, lambda a: {})
    if how in ('ctor', 'empty', 'path', 'none'):
        db = ContainerDb(st, **dbw, **filew)
    elif how == 'load':
        db = ContainerDb.load(st, **dbw)
    elif how == 'new':
        db = ContainerDb.new(st, **dbw, **filew)
    elif how == 'create':
        db = ContainerDb.create(st, **filew)
    else:
        api.patch(mod, 'ClientStorage', lambda *a, **k: st)
        db = ContainerClient.connect(('localhost', 1), None, **dbw)
    if how != 'create':
        mine = [a for self, a in dbs if self is db]
        api.check(len(mine) > 0, 'a database is made')
        agree(api, mine[-1], dbw, ddef, ALL, 'database option')
        api.check(mine[-1]['class_factory'] is None, 'stored classes are found as usual')
        if 'databases' in dbw:
            api.check(len(dbw['databases']) == 1 and dbw['databases'].get(dbw.get('database_name', 'unnamed')) is db, 'registered')
    if files:
        storage = db if how == 'create' else db.storage
        mine = [a for self, a in stores if self is storage]
        api.check(len(mine) == 1, 'a file is opened')
        api.check(mine[0]['file_name'] == st, 'the file asked for')
        agree(api, mine[0], filew, fdef, FILE, 'storage option')
    if how == 'create':
        DB(db).open()
        db.close()
    else:
        with db as conn:
            k, v = key(api, 'k', 1), api.int('v')
            conn.update(k, v)
            api.check(same(api, conn.read(k), v), 'the database works')
        db.close()


CLIENT = dict(storage='storage_type', cache_size='storage_cache_size', name='name', wait_timeout='wait_timeout',
              disconnect_poll='disconnect_poll', read_only='read_only', read_only_fallback='read_only_fallback', blob_dir='blob_dir',
              shared_blob_dir='shared_blob_dir', blob_cache_size='blob_cache_size', blob_cache_size_check='blob_cache_size_check',
              client_label='client_label', ssl='ssl', ssl_server_hostname='ssl_server_hostname', client='client', var='var',
              min_disconnect_poll='min_disconnect_poll', max_disconnect_poll='max_disconnect_poll', wait='wait',
              drop_cache_rather_verify='drop_cache_rather_verify', credentials='credentials', server_sync='server_sync',
              username='username', password='password', realm='realm', _client_factory='_client_factory')


@harness('C19', shards=product(given=['all', 'none', 'one'], path=['path', 'cache', 'neither'], stored=[True, False]),
         bounds='every option of the network storage with an arbitrary number; all of them given, none, or any one', modules=MODS)
def h_connect(api, given, path, stored):
    from ZEO.ClientStorage import ClientStorage
    import citrine.client.container_client as mod
    signature = inspect.signature(ClientStorage.__init__)
    if stored:
        c, refs, limits = existing(api, False, 1)
        st, _ = container_storage(c)
    else:
        st = FaultyStorage()
    names = list(CLIENT)
    chosen = names if given == 'all' else [api.choice('one', names)] if given == 'one' else []
    want = {n: api.int(n) for n in chosen}
    calls = []

    def fake(*args, **kw):
        bound = signature.bind(None, *args, **kw)
        bound.apply_defaults()
        calls.append(dict(bound.arguments))
        return st
    api.patch(mod, 'ClientStorage', fake)
    addr, where = object(), object()
    kw = {CLIENT[n]: v for n, v in want.items()}
    if path == 'cache':
        kw['cache'] = where
    strict = api.bool('strict')
    db = mod.ContainerClient.connect(addr, where if path == 'path' else None, strict=strict, **kw)
    api.check(len(calls) == 1, 'one storage is opened')
    api.check(calls[0]['addr'] is addr, 'the server asked for')
    api.check(calls[0]['cache'] is (None if path == 'neither' else where), 'the cache asked for')
    agree(api, calls[0], want, {n: p.default for n, p in signature.parameters.items()}, names, 'client option')
    api.check(db.storage is st, 'the storage is the one connected to')
    with db as conn:
        if stored:
            for k, _ in refs[0].d:
                api.check(same(api, conn.read(k, MISS), refs[0].get(k)), 'stored objects are kept')
            api.check(conn.strict is False, 'settings are kept')
        else:
            api.check(api.eq(conn.strict, strict), 'strictness as requested')
            api.check(conn.used == 0, 'empty')
    db.close()
