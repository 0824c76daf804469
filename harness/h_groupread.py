"""C12: reading from a group of databases."""
from datetime import timedelta
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, MISS, key, same
from harness.zstore import open_container_db

MODS = ['citrine.connection.group_connection', 'citrine.connection.container_connection',
        'citrine.database.containerdb', 'citrine.storage.container']

LIMITS = {None: None, 'zero': timedelta(0), 'minute': timedelta(seconds=60), 'half': timedelta(minutes=20, milliseconds=500),
          'day': timedelta(days=1), 'week': timedelta(weeks=1)}


def duplicate():
    from citrine.exceptions import CitrineDuplicateIdError
    return CitrineDuplicateIdError


def some_value(api, name, falsy):
    if not falsy:
        return api.int(name)
    kind = api.choice(name + '_kind', ['int', 'empty', 'false'])
    return api.int(name) if kind == 'int' else {'empty': '', 'false': False}[kind]


def databases(api, fill, falsy=False):
    from citrine.storage.container import Container
    dbs, refs = [], []
    for i, n in enumerate(fill):
        c = Container.new(capacity=20, collection_max_size=20)
        m = RefMap()
        for j in range(n):
            k, v = key(api, 'a%d_%d' % (i, j), 1), some_value(api, 'x%d_%d' % (i, j), falsy)
            c.write(k, v)
            m.put(k, v)
        st, db = open_container_db(c, database_name='db%d' % i)
        dbs.append(db)
        refs.append(m)
    return dbs, refs


def expect(api, g, refs, p, multiple, limit, msg):
    holders = [i for i, m in enumerate(refs) if m.has(p)]
    kw = {}
    if limit != 'absent':
        kw['timeout'] = LIMITS[limit]
    if multiple is not None:
        kw['multiple'] = multiple
    r = attempt(lambda: g.read(p, **kw), duplicate())
    if len(holders) > 1 and not multiple:
        api.check(r[0] == 'exc', msg + ': several results raise the duplicate id error')
        return
    api.check(r[0] == 'ok', msg + ': no duplicate id error')
    got = r[1]
    if not multiple:
        if holders:
            api.check(same(api, got, refs[holders[0]].get(p)), msg + ': the one stored object')
        else:
            api.check(got is None, msg + ': None when no database holds it')
        return
    if not holders:
        api.check(not got, msg + ': no results')
        return
    api.check(len(got) == len(holders), msg + ': exactly the databases holding it')
    for i in holders:
        api.check(g.connections[i] in got, msg + ': exactly the databases holding it')
        api.check(same(api, got[g.connections[i]], refs[i].get(p)), msg + ': with their objects')


@harness('C12', shards=product(fill=[(1,), (1, 1), (0, 1)], multiple=[None, False, True],
                               limit=['absent', None, 'minute', 'day']) +
         product(fill=[(1, 1, 1)], multiple=[None, True], limit=['absent', 'day']),
         thorough=product(fill=[(0,), (1,), (1, 1), (0, 1), (2, 1), (1, 1, 1), (2, 1, 2)], multiple=[None, False, True],
                          limit=['absent'] + list(LIMITS)),
         bounds='1-3 databases, <= 2 stored one-character ids each, unbounded integer objects, arbitrary probe id; '
                'time limits none, zero, a minute, twenty minutes, a day, a week', modules=MODS)
def h_read(api, fill, multiple, limit):
    from citrine.connection.group_connection import GroupReadConnection
    dbs, refs = databases(api, fill)
    g = GroupReadConnection(dbs)
    api.check(len(g.connections) == len(dbs), 'one connection per database')
    p = key(api, 'p', 1)
    expect(api, g, refs, p, multiple, limit, 'read')


@harness('C12', shards=product(fill=[(1,), (1, 1)], multiple=[False, True], limit=[None, 'minute']),
         thorough=product(fill=[(1,), (1, 1), (1, 1, 1)], multiple=[False, True], limit=[None, 'minute']),
         bounds='objects 0 / any integer, "", False (None excluded: it means "not stored"); two reads in a row; '
                'the databases do not change', modules=MODS)
def h_read_falsy(api, fill, multiple, limit):
    from citrine.connection.group_connection import GroupReadConnection
    dbs, refs = databases(api, fill, falsy=True)
    g = GroupReadConnection(tuple(dbs))
    p = key(api, 'p', 1)
    expect(api, g, refs, p, multiple, limit, 'read')
    expect(api, g, refs, p, not multiple, limit, 'read again')
    for db, m in zip(dbs, refs):
        conn = db.open()
        api.check(conn.container.size == len(m), 'databases unchanged')
        for k, v in m.d:
            api.check(same(api, conn.read(k, MISS), v), 'databases unchanged')


class Db:
    """stand-in database recording how it is opened"""

    def __init__(self, name, held):
        self.database_name, self.held, self.opened = name, held, []

    def open(self, **kw):
        self.opened.append(kw)
        return Conn(self)


class Conn:
    def __init__(self, db):
        self.db, self.asked = db, []

    def read(self, id, default=None):
        self.asked.append(id)
        return self.db.held


@harness('C12', shards=product(n=[1, 2, 3], given=['none', 'tm', 'other', 'both', 'two'], shared=[True, False]),
         bounds='1-3 databases; arguments for none, one or two of them (symbolic choice), with and without a shared '
                'transaction manager', modules=MODS[:1])
def h_arguments(api, n, given, shared):
    from citrine.connection.group_connection import GroupReadConnection
    dbs = [Db('db%d' % i, None) for i in range(n)]
    which = api.choice('which', list(range(n)))
    at = api.int('at')
    base, own, own2 = object(), object(), object()
    mine = {}
    if given in ('tm', 'both', 'two'):
        mine['transaction_manager'] = own
    if given in ('other', 'both'):
        mine['at'] = at
    args = {'db%d' % which: mine} if given != 'none' else {}
    if given == 'two' and n > 1:
        args['db%d' % ((which + 1) % n)] = {'transaction_manager': own2}
    before = {k: dict(v) for k, v in args.items()}
    if shared:
        GroupReadConnection(dbs, transaction_manager=base, **args)
    else:
        GroupReadConnection(dbs, **args)
    for i, db in enumerate(dbs):
        api.check(len(db.opened) == 1, 'every database is opened once')
        kw = dict(db.opened[0])
        want = dict(before.get('db%d' % i, {}))
        tm = want.pop('transaction_manager', base if shared else None)
        api.check(kw.pop('transaction_manager', None) is tm, 'transaction manager for this database')
        for k, v in want.items():
            api.check(k in kw and same(api, kw[k], v), 'arguments given for this database')
            kw.pop(k)
        api.check(all(v is None for v in kw.values()), 'no arguments of other databases')
    for k, v in before.items():
        api.check(len(args[k]) == len(v) and all(args[k][x] is v[x] for x in v), 'arguments are not altered')


@harness('C12', shards=product(n=[2, 3], limit=[None, 'minute'], how=['real', 'stub']),
         bounds='2-3 databases, one of them failing to read (symbolic choice)', modules=MODS[:1])
def h_failure(api, n, limit, how):
    from citrine.connection.group_connection import GroupReadConnection
    dbs = [Db('db%d' % i, None) for i in range(n)]
    g = GroupReadConnection(dbs)
    bad = api.choice('bad', list(range(n)))
    holder = api.choice('holder', list(range(n)) + [None])
    v = api.int('v')
    multiple = api.bool('multiple')

    class Broken(Exception):
        pass

    def broken(id, default=None):
        raise Broken()
    if how == 'stub':
        g.connections[bad].read = broken
    if holder is not None:
        dbs[holder].held = v
    r = attempt(lambda: g.read('x', timeout=LIMITS[limit], multiple=multiple), Exception, BaseExceptionGroup)
    if how == 'stub':
        api.check(r[0] == 'exc', 'a failing database is not mistaken for one that lacks the id')
    else:
        api.check(r[0] == 'ok', 'read')
        if holder is None:
            api.check(not r[1], 'nothing held')
        elif multiple:
            api.check(len(r[1]) == 1 and same(api, r[1][g.connections[holder]], v), 'the holder')
        else:
            api.check(same(api, r[1], v), 'the object')
    for c in g.connections:
        if not (how == 'stub' and c is g.connections[bad]):
            api.check(len(c.asked) <= 1, 'each database is asked at most once')
