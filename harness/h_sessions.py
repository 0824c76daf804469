"""C17: several sessions on the same database at the same time."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, MISS, key, same
from harness.zstore import FaultyStorage, ResolvingStorage, open_container_db

MODS = ['citrine.connection.container_connection', 'citrine.storage.transaction', 'citrine.storage.container',
        'citrine.database.containerdb', 'citrine.connection.connection', 'citrine.persistence']


class Stop(Exception):
    pass


class Contained:
    """sessions on a container database"""
    sizes = True
    removed = None      # whether an id is one that a known finding is about

    def __init__(self, api, merge, stored, cap=50, groups=1, strict=False, ncol=0, names='ab'):
        from citrine.storage.container import Container
        from citrine.storage.group import Group
        from citrine.storage.collection import Collection
        gs = tuple(Group(tuple(Collection(max_size=cap, strict=False) for _ in range(ncol or (2 if i and stored > 1 else 1)))) for i in range(groups))
        c = Container(gs[0], gs)
        c.strict = strict
        self.api, self.m = api, RefMap()
        for i in range(stored):
            k, v = names[i] if stored > 1 or ncol else key(api, 'a%d' % i, 1), api.int('x%d' % i)
            gs[-1].update({k: v})
            self.m.put(k, v)
        self.st, self.db = open_container_db(c, storage=ResolvingStorage if merge else FaultyStorage)

    def connect_with(self, tm):
        return self.db.open(tm)

    def connect(self, how):
        from citrine.connection.container_connection import ContainerConnection
        from citrine.storage.transaction import TransactionManager
        if how == 'open':
            return self.db.open()
        if how == 'ctor':
            return ContainerConnection(self.db)
        return ContainerConnection(self.db, transaction_manager=TransactionManager())

    def auto(self, conn, on):
        conn.autocommit = on

    def view(self, conn, m, keys, msg):
        for k in keys:
            self.api.check(same(self.api, conn.read(k, MISS), m.get(k, MISS)), msg,
                           unless={'C17-copy': lambda: self.removed(k)} if self.removed else None)
        if self.sizes:
            self.api.check(conn.container.size == len(m), msg + ' (size)')

    def op(self, conn, view, op, tag):
        """(the operation, whether it is allowed, id, the reference afterwards)"""
        k, v = key(self.api, 'k' + tag, 1), self.api.int('v' + tag)
        after = view.copy()
        if op == 'create':
            ok = not view.has(k)
            if ok:
                after.put(k, v)
            return (lambda: conn.create(k, v)), ok, k, after
        if op == 'update':
            after.put(k, v)
            return (lambda: conn.update(k, v)), True, k, after
        after.remove(k)
        return (lambda: conn.delete(k)), True, k, after

    def refusals(self):
        from citrine.exceptions import ObjectOverwriteError
        return (ObjectOverwriteError,)


class Hashed(Contained):
    """sessions on a database with a hash-placed container"""

    def __init__(self, api, merge, stored, nc=2):
        from ZODB import DB
        self.api, self.m = api, RefMap()
        self.st = ResolvingStorage() if merge else FaultyStorage()
        self.db = DB(self.st)
        conn = self.connect('single')
        conn.setup()
        if nc > 1:
            conn.expand_containers(nc - 1)
        for i in range(stored):
            k, v = key(api, 'a%d' % i, 1), api.int('x%d' % i)
            conn.create(k, v)
            self.m.put(k, v)

    def connect(self, how):
        from citrine.connection.connection import CitrineConnection
        from citrine.persistence import CitrineTransactionManager
        return CitrineConnection(self.db, transaction_manager=CitrineTransactionManager() if how == 'single' else None)

    def auto(self, conn, on):
        conn.auto_transaction = on

    def view(self, conn, m, keys, msg):
        for k in keys:
            want, got = m.get(k), conn.read(k)
            self.api.check(got is None if want is None else same(self.api, got, want), msg)
        self.api.check(conn.size == len(m), msg + ' (size)')

    def op(self, conn, view, op, tag):
        k, v = key(self.api, 'k' + tag, 1), self.api.int('v' + tag)
        after = view.copy()
        if op == 'delete':
            ok = view.has(k)
            after.remove(k)
            return (lambda: conn.delete(k)), ok, k, after
        after.put(k, v)
        return (lambda: getattr(conn, op)(k, v)), True, k, after

    def refusals(self):
        return (KeyError,)


def changes(api, old, new, keys):
    """[(id, the new value or MISS)] of the ids whose value is another one"""
    out = RefMap()
    for k in keys:
        a, b = old.get(k, MISS), new.get(k, MISS)
        if not out.has(k) and not (a is b or (a is not MISS and b is not MISS and a == b)):
            out.put(k, b)
    return out


class World:
    def __init__(self, api, kind):
        self.api, self.kind, self.state, self.log, self.seen = api, kind, kind.m, [], []

    def committed(self, msg):
        other = self.kind.connect('single')
        self.kind.view(other, self.state, self.keys(), msg)

    def keys(self):
        return [k for k, _ in self.state.d] + self.seen


class Session:
    """steps of one session: enter, one per operation, leave (automatic: one per operation)"""

    def __init__(self, w, name, how, mode, ops, end='normal'):
        self.w, self.name, self.mode, self.end = w, name, mode, end
        self.conn = w.kind.connect(how)
        if mode == 'manual':
            w.kind.auto(self.conn, False)
        todo = [lambda i=i, op=op: self.operate(op, i) for i, op in enumerate(ops)]
        self.steps = todo if mode == 'auto' else [self.enter] + todo + [self.leave]

    def enter(self):
        if self.mode == 'block':
            self.conn.__enter__()
        else:
            self.conn.sync()
        self.begin()

    def begin(self):
        self.snap, self.view, self.at = self.w.state, self.w.state, len(self.w.log)

    def operate(self, op, i):
        from ZODB.POSException import ConflictError
        w = self.w
        if self.mode == 'auto':
            self.begin()
        fn, ok, k, after = w.kind.op(self.conn, self.view, op, self.name + str(i))
        w.seen.append(k)
        r = attempt(fn, *w.kind.refusals())
        w.api.check((r[0] == 'ok') == ok, 'operations see what the session began with and its own changes')
        if ok:
            self.view = after
        if self.mode == 'auto':
            if ok:
                w.state = after
                w.log.append(changes(w.api, self.snap, after, w.keys()))
            w.committed('an operation is committed when it returns')
        w.kind.view(self.conn, self.view, w.keys(), 'a session sees what it began with and its own changes')

    def leave(self):
        from ZODB.POSException import ConflictError
        w, api = self.w, self.w.api
        if self.end == 'raise':
            if self.mode == 'block':
                self.conn.__exit__(Stop, Stop(), None)
            else:
                self.conn.transaction_manager.abort()
            w.committed('nothing of an aborted transaction is left')
            self.begin()
            return
        done = (lambda: self.conn.__exit__(None, None, None)) if self.mode == 'block' \
            else self.conn.transaction_manager.commit
        r = attempt(done, ConflictError)
        mine = changes(api, self.snap, self.view, w.keys())
        if r[0] == 'exc':
            api.check(len(w.log) > self.at, 'conflicts need concurrent changes')
            self.conn.transaction_manager.abort()
            w.committed('nothing of a refused transaction is left')
        else:
            for theirs in w.log[self.at:]:
                api.check(not any(theirs.has(k) for k, _ in mine.d), 'changes of other sessions are not overwritten unseen')
            state = w.state.copy()
            for k, v in mine.d:
                if v is MISS:
                    state.remove(k)
                else:
                    state.put(k, v)
            w.state = state
            w.log.append(mine)
            w.committed('committed changes are added to those of other sessions')
        self.begin()


def play(api, w, a, b):
    """every interleaving of the steps"""
    x, y = a.steps, b.steps
    n = 0
    while x or y:
        turn = 'a' if not y else 'b' if not x else api.choice('turn%d' % n, ['a', 'b'])
        n += 1
        (x if turn == 'a' else y).pop(0)()
    for s in (a, b):
        s.conn.sync()
        w.kind.view(s.conn, w.state, w.keys(), 'in the end all sessions see the same')


HOW = {'container': ['open', 'ctor', 'ctor-single'], 'hash': ['default', 'single']}
PAIRS = [('container', 'open'), ('container', 'ctor'), ('hash', 'default')]


def shards(pairs, **axes):
    return [dict(kind=k, how=h, **p) for k, h in pairs for p in product(**axes)]


OPS = ['create', 'update', 'delete']


def meet(pairs, combos, modes, merge, groups=1):
    return [dict(kind=k, how=h, a=a, b=b, modes=m, merge=merge, stored=1, groups=groups)
            for k, h in pairs for a, b in (c.split('/') for c in combos.split()) for m in modes.split()]


@harness('C17', shards=meet(PAIRS, 'create/create create/update update/delete delete/delete', 'block-block', False) +
         meet(PAIRS[1:], 'create/create update/delete', 'block-block', True) +
         meet(PAIRS[1:], 'create/update', 'block-auto manual-block manual-manual', False) +
         meet(PAIRS[1:2], 'update/update', 'block-block block-auto', True, 2),
         thorough=shards([(k, h) for k in HOW for h in HOW[k]], a=['create', 'update', 'delete', 'create-update', 'update-delete'], b=OPS,
                         modes=['block-block', 'block-auto', 'block-manual', 'manual-auto', 'manual-manual'], merge=[False, True], stored=[0, 1],
                         groups=[1]) +
         shards([('container', h) for h in HOW['container']], a=OPS, b=OPS, modes=['block-block', 'block-auto', 'manual-auto'],
                merge=[False, True], stored=[1], groups=[2]),
         bounds='two sessions with one (thorough: up to two) arbitrary operations each in a with-block, in a manual transaction or committed '
                'by itself, in every interleaving; one stored id; storages that refuse or merge concurrent changes', modules=MODS)
def h_interleave(api, kind, how, a, b, modes, merge, stored, groups):
    k = Contained(api, merge, stored, groups=groups) if kind == 'container' else Hashed(api, merge, stored)
    k.sizes = groups == 1
    w = World(api, k)
    ma, mb = modes.split('-')
    sa = Session(w, 'A', how, ma, a.split('-'), api.choice('end', ['normal', 'raise']))
    sb = Session(w, 'B', how, mb, b.split('-'))
    play(api, w, sa, sb)


class Reshape:
    """a session that reshapes the container: in a with-block, or with every part a transaction of its own, after
    each of which the other session may go on"""

    def __init__(self, w, how, what, parts, size):
        from citrine.storage.transaction import TransactionManager
        from ZODB.POSException import ConflictError
        self.w, self.parts, self.api, self.conflict = w, parts, w.api, ConflictError
        self.conn, self.what, self.size, self.others, self.n = w.kind.connect(how), what, size, [], 0
        self.tm = None
        if parts:
            outer = self

            class Parts(TransactionManager):
                def __enter__(self):
                    TransactionManager.__enter__(self)
                    return self

                def commit(self):
                    outer.pause()
                    TransactionManager.commit(self)
            self.conn = w.kind.connect_with(Parts())
            self.tm = self.conn.transaction_manager
        self.steps = [self.run] if parts or what == 'expand' else [self.conn.__enter__, self.run, self.leave]

    def pause(self):
        self.w.log.append(RefMap())
        while self.others and self.n < 6 and self.api.choice('pause%d' % self.n, [False, True]):
            self.n += 1
            self.others.pop(0)()
        self.n += 1

    def run(self):
        c = self.conn
        fn = {'resize': lambda: c.container.resize(9, max_collection_size=self.size, transaction_manager=self.tm),
              'resize-condense': lambda: c.container.resize(9, max_collection_size=self.size, condense=True, transaction_manager=self.tm),
              'condense': lambda: c.container.condense(transaction_manager=self.tm),
              'copy': lambda: c.container.condense(transfer=False, transaction_manager=self.tm),
              'expand': lambda: c.expand_containers(1)}[self.what]
        r = attempt(fn, self.conflict)
        if r[0] == 'exc':
            self.api.check(len(self.w.log) > 0, 'conflicts need concurrent changes')
            self.conn.transaction_manager.abort()
        if self.parts or self.what == 'expand':
            self.done(r)

    def leave(self):
        self.done(attempt(lambda: self.conn.__exit__(None, None, None), self.conflict))

    def done(self, r):
        if r[0] == 'exc':
            self.api.check(len(self.w.log) > 0, 'conflicts need concurrent changes')
            self.conn.transaction_manager.abort()
        else:
            self.w.log.append(RefMap())
        self.w.committed('reshaping changes no object')


def reshape(what, parts, groups, sizes, stored):
    return [dict(kind='container', what=s, parts=p, op=op, groups=g, size=n, stored=k) for s in what for p in parts for op in OPS
            for g in groups for n in sizes for k in stored]


EXPAND = [dict(kind='hash', what='expand', parts=False, op=op, groups=1, size=9, stored=1) for op in OPS]


@harness('C17', shards=reshape(['resize'], [False, True], [1], [9], [0]) + reshape(['resize'], [False], [1], [9], [1]) +
         [s for s in reshape(['condense'], [False, True], [2], [9], [2]) if (s['parts'], s['op']) in ((True, 'update'), (True, 'delete'), (False, 'delete'))] +
         [s for s in reshape(['copy'], [False, True], [2], [9], [1]) if s['op'] != 'create'] + EXPAND,
         thorough=reshape(['resize', 'resize-condense', 'condense', 'copy'], [False, True], [1, 2], [9, 4], [0, 1, 2]) + EXPAND,
         bounds='a container is resized or condensed, at once or part by part, or a database expanded, at any point of another session '
                'with one arbitrary operation in a with-block; no, one arbitrary or two given stored ids', modules=MODS)
def h_reshape(api, kind, what, parts, op, groups, size, stored):
    k = Contained(api, api.choice('merge', [False, True]), stored, groups=groups) if kind == 'container' else Hashed(api, False, stored)
    k.sizes = False
    w = World(api, k)
    a = Reshape(w, 'open' if kind == 'container' else 'default', what, parts, size)
    b = Session(w, 'B', 'single', 'block', [op])
    a.others = b.steps
    if what == 'copy' and op == 'delete' and groups == 2:
        old = k.m
        k.removed = lambda i: bool(w.seen) and i == w.seen[0] and old.has(i)
    play(api, w, a, b)


@harness('C17', shards=product(how=['default', 'single'], late=[False, True], have=['nothing', 'both']),
         bounds='two sessions set up the same database and write one id each, at any point of each other', modules=MODS)
def h_setup(api, how, late, have):
    """a session opened before another one set the database up finds what that one stored"""
    from ZODB import DB
    k = Hashed(api, False, 1, 1) if have == 'both' else None
    if k is None:
        k = Hashed.__new__(Hashed)
        k.api, k.m, k.st = api, RefMap(), FaultyStorage()
        k.db = DB(k.st)
    w = World(api, k)
    ready = [have == 'both']

    class Setup:
        def __init__(self, name):
            self.name, self.conn = name, None if late else k.connect(how)
            self.steps = [self.setup, self.write]

        def setup(self):
            self.conn = self.conn or k.connect(how)
            self.conn.setup()
            ready[0] = True
            w.committed('setting up replaces nothing')

        def write(self):
            fn, ok, i, after = k.op(self.conn, w.state, 'update', self.name)
            fn()
            w.seen.append(i)
            w.state = after
            w.committed('what is written after setting up is stored')

        def sync(self):
            self.conn.sync()
    a, b = Setup('A'), Setup('B')
    play(api, w, a, b)


@harness('C17', shards=product(merge=[True, False], room=[1, 2], a=['create', 'update', 'create-create'], b=['update'], ncol=[1]) +
         product(merge=[True], room=[1], a=['create', 'update'], b=['update'], ncol=[2]),
         thorough=product(merge=[True, False], room=[0, 1, 2], a=['create', 'update', 'delete', 'create-create', 'delete-update'], b=OPS, ncol=[1, 2]),
         bounds='a strict container of 1-2 collections of capacity 3 with <= 2 places left, two sessions with one or two arbitrary '
                'operations each in with-blocks, in every interleaving', modules=MODS + ['citrine.storage.group', 'citrine.storage.collection'])
def h_limit(api, merge, room, a, b, ncol):
    from citrine.storage.collection import CollectionCapacityError
    from citrine.storage.group import GroupCapacityError
    from citrine.exceptions import ObjectOverwriteError
    from ZODB.POSException import ConflictError
    k = Contained(api, merge, 3 * ncol - room, cap=3, strict=True, ncol=ncol, names=('bdacef' if ncol > 1 else 'abc'))
    conns = [k.connect('single') for _ in range(2)]

    def sizes(msg):
        c = k.connect('single').container
        api.check(c.size <= 3 * ncol and all(x.size <= 3 for x in c.primary.collections), msg)

    def steps(i, ops):
        conn, alive = conns[i], [True]

        def operate(j, op):
            if not alive[0]:
                return
            fn = k.op(conn, k.m, op, 'AB'[i] + str(j))[0]
            r = attempt(fn, CollectionCapacityError, GroupCapacityError, ObjectOverwriteError)
            if r[0] == 'exc':
                alive[0] = False
                conn.__exit__(Stop, Stop(), None)

        def leave():
            if alive[0]:
                r = attempt(lambda: conn.__exit__(None, None, None), ConflictError)
                if r[0] == 'exc':
                    conn.transaction_manager.abort()
                sizes('the limit holds whatever other sessions store at the same time')
        return [lambda: conn.__enter__()] + [lambda j=j, op=op: operate(j, op) for j, op in enumerate(ops.split('-'))] + [leave]
    x, y, n = steps(0, a), steps(1, b), 0
    while x or y:
        turn = 'a' if not y else 'b' if not x else api.choice('turn%d' % n, ['a', 'b'])
        n += 1
        (x if turn == 'a' else y).pop(0)()
    sizes('the limit holds in the end')
