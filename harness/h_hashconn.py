"""C16: CitrineConnection, the connection to a hash-placed container."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, key, same
from harness.h_connection import LEAVING, Sync
from harness.zstore import FaultyStorage, StorageFailure

MODS = ['citrine.connection.connection', 'citrine.persistence']


def connect(db, how, auto=True):
    from citrine.connection.connection import CitrineConnection
    from citrine.persistence import CitrineTransactionManager, CitrineThreadTransactionManager
    tm = {'default': None, 'single': CitrineTransactionManager,
          'thread': CitrineThreadTransactionManager}[how]
    conn = CitrineConnection(db, transaction_manager=tm() if tm else None)
    if not auto:
        conn.auto_transaction = False
    return conn


def setup(api, how, stored, nc=1, auto=True, value=None):
    """a database whose container holds `stored` symbolic entries"""
    from ZODB import DB
    st = FaultyStorage()
    db = DB(st)
    conn = connect(db, how)
    conn.setup()
    if nc > 1:
        conn.expand_containers(nc - 1)
    m = RefMap()
    for i in range(stored):
        k, v = key(api, 'a%d' % i, 1), (value(api, 'x%d' % i) if value else api.int('x%d' % i))
        conn.create(k, v)
        m.put(k, v)
    if not auto:
        conn.auto_transaction = False
    return st, db, conn, m


def view(api, conn, m, keys, msg):
    for k in keys:
        want, got = m.get(k), conn.read(k)
        api.check(got is None if want is None else same(api, got, want), msg + ': read')
        got = conn[k]
        api.check(got is None if want is None else same(api, got, want), msg + ': []')
    api.check(conn.size == len(m), msg + ': size')


def committed(api, db, m, keys, msg):
    other = db.open()
    try:
        c = other.root.container
        for k in keys:
            want, got = m.get(k), c.read(k)
            api.check(got is None if want is None else same(api, got, want), msg)
        api.check(c.size == len(m), msg + ' (size)')
    finally:
        other.close()


def keys_of(m, *more):
    return [k for k, _ in m.d] + list(more)


OPS = ['create', 'update', 'delete']
HOW = ['default', 'single', 'thread']


def run_op(api, conn, m, op, i):
    """(id, the operation, whether it is allowed, the reference afterwards)"""
    k, v = key(api, 'k%d' % i, 1), api.int('v%d' % i)
    after = m.copy()
    if op == 'delete':
        after.remove(k)
        return k, (lambda: conn.delete(k)), m.has(k), after
    after.put(k, v)
    return k, (lambda: getattr(conn, op)(k, v)), True, after


@harness('C16', shards=product(how=HOW, op=OPS, fail=[False, True], stored=[1], nc=[1, 2]) +
         product(how=['default'], op=OPS, fail=[False], stored=[0, 2], nc=[3]),
         thorough=product(how=HOW, op=OPS, fail=[False, True], stored=[0, 1, 2, 3], nc=[1, 2, 3]),
         bounds='<= 2 (3) stored ids of one ASCII character in 1-3 sub-containers, unbounded integer objects; one '
                'arbitrary operation whose commit may fail, then a second one', modules=MODS)
def h_autocommit(api, how, op, fail, stored, nc):
    st, db, conn, m = setup(api, how, stored, nc)
    api.check(conn.num_containers() == nc, 'number of sub-containers')
    view(api, conn, m, keys_of(m, key(api, 'p', 1)), 'stored')
    k, fn, ok, after = run_op(api, conn, m, op, 0)
    st.arm(0 if fail else None)
    r = attempt(fn, StorageFailure, KeyError)
    st.disarm()
    if r[0] == 'ok':
        api.check(ok and not fail, 'a failing commit is reported, a missing id cannot be deleted')
        m = after
    else:
        api.check(fail or not ok, 'refused without reason')
    committed(api, db, m, keys_of(m, k), 'committed on return, nothing left when failed')
    view(api, conn, m, keys_of(m, k), 'own view')
    k2, fn, ok, after = run_op(api, conn, m, 'update', 1)
    fn()
    committed(api, db, after, keys_of(after, k, k2), 'still commits by itself')


@harness('C16', shards=product(how=['default', 'single'], auto=[True, False],
                               ops=['create-update', 'update-delete', 'delete-create'],
                               end=['normal', 'raise', 'fail']),
         thorough=product(how=HOW, auto=[True, False], ops=['%s-%s' % (a, b) for a in OPS for b in OPS],
                          end=['normal', 'raise', 'fail']),
         bounds='one stored id, with-block of two arbitrary operations, then one more operation', modules=MODS)
def h_block(api, how, auto, ops, end):
    st, db, conn, m = setup(api, how, 1, 2, auto)
    inside, seen = m, []
    kind = LEAVING[api.choice('kind', list(range(len(LEAVING))))] if end == 'raise' else LEAVING[0]
    st.arm(0 if end == 'fail' else None)
    changed = False

    def block():
        nonlocal inside, changed
        with conn:
            for i, op in enumerate(ops.split('-')):
                k, fn, ok, after = run_op(api, conn, inside, op, i)
                seen.append(k)
                r = attempt(fn, KeyError)
                api.check((r[0] == 'ok') == ok, 'outcome inside the block')
                if ok:
                    inside, changed = after, True
                view(api, conn, inside, keys_of(inside, k), 'own view inside the block')
                committed(api, db, m, keys_of(m, *seen), 'nothing visible before the block ends')
            if end == 'raise':
                raise kind()
    r = attempt(block, StorageFailure, *LEAVING)
    st.disarm()
    if end == 'raise':
        api.check(r[0] == 'exc' and isinstance(r[1], kind), 'the exception leaves the block')
    elif end == 'fail':
        api.check(r[0] == 'exc' or not changed, 'a failing commit is reported')
    else:
        api.check(r[0] == 'ok', 'the block ends normally')
    m = inside if r[0] == 'ok' else m
    if r[0] == 'exc' and not auto:
        conn.transaction_manager.abort()
    committed(api, db, m, keys_of(m, *seen), 'all or nothing of the block')
    view(api, conn, m, keys_of(m, *seen), 'own view after the block')
    k, fn, ok, after = run_op(api, conn, m, 'update', 9)
    fn()
    if not auto:
        committed(api, db, m, keys_of(m, k), 'nothing committed without automatic transactions')
        conn.transaction_manager.commit()
    committed(api, db, after, keys_of(after, k), 'committed by the connection or the user')


@harness('C16', shards=product(how=HOW, op=OPS, finish=['commit', 'abort', 'fail', 'on']),
         bounds='one stored id, one or two arbitrary operations without automatic transactions', modules=MODS)
def h_manual(api, how, op, finish):
    st, db, conn, m = setup(api, how, 1, 2, False)
    k, fn, ok, after = run_op(api, conn, m, op, 0)
    r = attempt(fn, KeyError)
    api.check((r[0] == 'ok') == ok, 'outcome')
    committed(api, db, m, keys_of(m, k), 'nothing committed without automatic transactions')
    after = after if ok else m
    view(api, conn, after, keys_of(after, k), 'own view')
    if finish == 'commit':
        conn.transaction_manager.commit()
        m = after
    elif finish == 'abort':
        conn.transaction_manager.abort()
    elif finish == 'fail':
        st.arm(0)
        r = attempt(conn.transaction_manager.commit, StorageFailure)
        st.disarm()
        m = after if r[0] == 'ok' else m
        conn.transaction_manager.abort()
    else:
        conn.transaction_manager.commit()
        conn.auto_transaction = True
        k2, fn, ok, m = run_op(api, conn, after, 'update', 1)
        fn()
        k = k2
    committed(api, db, m, keys_of(m, k), 'committed exactly when the user committed')
    view(api, conn, m, keys_of(m, k), 'own view in the end')


@harness('C16', shards=product(nc=[1, 2], more=[0, 1], fail=[False]) +
         product(nc=[1], more=[2], fail=[False, True]),
         thorough=product(nc=[1, 2], more=[0, 1, 2, 3], fail=[False, True]),
         bounds='two stored ids, 1-2 sub-containers expanded by 0-3; the commit may fail', modules=MODS)
def h_expand(api, nc, more, fail):
    st, db, conn, m = setup(api, 'default', 2, nc)
    st.arm(0 if fail else None)
    r = attempt(lambda: conn.expand_containers(more), ValueError, StorageFailure)
    st.disarm()
    api.check((r[0] == 'ok') == (more > 0 and not fail), 'refused exactly when nothing is added')
    have = nc + (more if r[0] == 'ok' else 0)
    other = connect(db, 'single')
    for c in (conn, other):
        api.check(c.num_containers() == have, 'number of sub-containers')
    view(api, conn, m, keys_of(m), 'after expanding')
    committed(api, db, m, keys_of(m, key(api, 'p', 1)), 'after expanding')
    k, fn, ok, after = run_op(api, conn, m, 'update', 0)
    fn()
    committed(api, db, after, keys_of(after, k), 'written after expanding')


@harness('C16', shards=product(how=['default', 'single'], auto=[True, False], ops=['create-update', 'update-delete'],
                               inner=['raise'], end=['normal']) +
         product(how=['default'], auto=[True], ops=['update-delete'], inner=['expand'], end=['normal']) +
         product(how=['single'], auto=[True], ops=['create-create'], inner=['normal', 'expand-raise', 'setup'],
                 end=['raise', 'fail']),
         thorough=product(how=HOW, auto=[True, False], ops=['%s-%s' % (a, b) for a in OPS for b in OPS],
                          inner=['normal', 'raise', 'expand', 'expand-raise', 'setup'], end=['normal', 'raise', 'fail']),
         bounds='one stored id, a with-block of two arbitrary operations and between them a with-block, an expansion or a setup; '
                'each left normally or by an exception, the commit may fail', modules=MODS)
def h_inner(api, how, auto, ops, inner, end):
    st, db, conn, m = setup(api, how, 1, 2, auto)
    before, inside, seen, changed = m, m, [], False
    ops = ops.split('-')
    count = 2

    def step(op, i):
        nonlocal inside, changed
        k, fn, ok, after = run_op(api, conn, inside, op, i)
        seen.append(k)
        r = attempt(fn, KeyError)
        api.check((r[0] == 'ok') == ok, 'outcome inside the block')
        if ok:
            inside, changed = after, True
        look('inside')

    def look(msg):
        view(api, conn, inside, keys_of(inside, *seen), 'own view ' + msg)
        committed(api, db, before, keys_of(before, *seen), 'nothing visible before the outer block ends: ' + msg)
        api.check(conn.num_containers() == count, 'number of sub-containers ' + msg)

    def part():
        nonlocal count
        if inner in ('normal', 'raise'):
            with conn:
                step('update', 9)
                if inner == 'raise':
                    raise KeyError
        elif inner == 'setup':
            conn.setup()
        elif inner == 'expand':
            conn.expand_containers(1)
            count += 1
        else:
            with conn:
                conn.expand_containers(1)
                raise KeyError

    def block():
        nonlocal inside, changed
        with conn:
            step(ops[0], 0)
            kept, kept_changed = inside, changed
            r = attempt(part, KeyError)
            api.check((r[0] == 'ok') == (not inner.endswith('raise')), 'the exception leaves the inner block')
            if inner.endswith('raise'):
                inside, changed = kept, kept_changed
            if inner == 'expand':
                changed = True
            look('after the inner block')
            step(ops[1], 1)
            if end == 'raise':
                raise OSError
    st.arm(0 if end == 'fail' else None)
    r = attempt(block, StorageFailure, OSError)
    st.disarm()
    if end == 'raise':
        api.check(r[0] == 'exc' and isinstance(r[1], OSError), 'the exception leaves the block')
    elif end == 'fail':
        api.check(r[0] == 'exc' or not changed, 'a failing commit is reported')
    else:
        api.check(r[0] == 'ok', 'the block ends normally')
    m = inside if r[0] == 'ok' else before
    if r[0] == 'exc':
        conn.transaction_manager.abort()
        count = 2
    committed(api, db, m, keys_of(m, *seen), 'all or nothing of the block')
    api.check(conn.num_containers() == count, 'number of sub-containers in the end')
    k, fn, ok, after = run_op(api, conn, m, 'update', 5)
    with conn:
        fn()
    committed(api, db, after, keys_of(after, k), 'a later block commits')


@harness('C16', shards=product(how=HOW, op=OPS, more=[0, 1], finish=['commit', 'abort']),
         bounds='one stored id, an arbitrary operation and an expansion without automatic transactions', modules=MODS)
def h_expand_manual(api, how, op, more, finish):
    st, db, conn, m = setup(api, how, 1, 2, False)
    k, fn, ok, after = run_op(api, conn, m, op, 0)
    r = attempt(fn, KeyError)
    after = after if ok else m
    r = attempt(lambda: conn.expand_containers(more), ValueError)
    api.check((r[0] == 'ok') == (more > 0), 'refused exactly when nothing is added')
    view(api, conn, after, keys_of(after, k), 'own view')
    api.check(conn.num_containers() == 2 + more, 'own number of sub-containers')
    committed(api, db, m, keys_of(m, k), 'nothing committed without automatic transactions')
    other = connect(db, 'single')
    api.check(other.num_containers() == 2, 'no expansion committed without automatic transactions')
    getattr(conn.transaction_manager, finish)()
    m = after if finish == 'commit' else m
    committed(api, db, m, keys_of(m, k), 'committed exactly when the user committed')
    api.check(conn.num_containers() == 2 + (more if finish == 'commit' else 0), 'number of sub-containers in the end')


@harness('C16', shards=product(how=HOW, op=OPS + ['block', 'expand'], auto=[True]) + product(how=HOW, op=['block'], auto=[False]),
         bounds='one stored id, an operation, a block or an expansion that cannot begin its transaction, then others', modules=MODS)
def h_begin(api, how, op, auto):
    st, db, conn, m = setup(api, how, 1, 2, auto)
    sync = Sync()
    conn.transaction_manager.registerSynch(sync)
    sync.broken = True
    k, fn, ok, after = run_op(api, conn, m, op if op in OPS else 'update', 0)

    def block():
        with conn:
            fn()
    r = attempt({'block': block, 'expand': lambda: conn.expand_containers(1)}.get(op, fn), StorageFailure)
    api.check(r[0] == 'exc', 'the failure is reported')
    sync.broken = False
    conn.transaction_manager.abort()
    committed(api, db, m, keys_of(m, k), 'nothing of it is committed')
    api.check(conn.num_containers() == 2, 'number of sub-containers')
    k, fn, ok, after = run_op(api, conn, m, 'update', 1)
    fn()
    if not auto:
        committed(api, db, m, keys_of(m, k), 'nothing committed without automatic transactions')
        conn.transaction_manager.commit()
    committed(api, db, after, keys_of(after, k), 'later operations are committed')
    k2, fn, ok, last = run_op(api, conn, after, 'update', 2)
    with conn:
        fn()
    committed(api, db, last, keys_of(last, k, k2), 'later blocks are committed')


@harness('C16', shards=product(have=['nothing', 'container', 'meta', 'both'], how=HOW),
         bounds='a database with or without container and metadata; one stored id', modules=MODS)
def h_setup(api, have, how):
    from ZODB import DB
    from citrine.persistence import DbContainer, DbMetadata
    st = FaultyStorage()
    db = DB(st)
    m = RefMap()
    if have != 'nothing':
        raw = db.open()
        if have != 'meta':
            raw.root.container = DbContainer()
            k, v = key(api, 'a', 1), api.int('x')
            raw.root.container.write(k, v)
            m.put(k, v)
        if have != 'container':
            raw.root.meta = DbMetadata(size=5)
        raw.transaction_manager.commit()
        raw.close()
    conn = connect(db, how)
    conn.setup()
    view(api, conn, m, keys_of(m), 'existing objects stay')
    api.check(conn.meta.size == (5 if have in ('meta', 'both') else None), 'existing metadata stays')
    committed(api, db, m, keys_of(m), 'setup is committed')
    other = connect(db, 'single')
    api.check(other.meta.size == (5 if have in ('meta', 'both') else None), 'metadata is committed')
    k, fn, ok, after = run_op(api, other, m, 'create', 0)
    fn()
    conn.sync()
    conn.setup()
    view(api, conn, after, keys_of(after, k), 'a second setup changes nothing')


@harness('C16', shards=product(stored=[0, 1, 2], n=[0, 1, 2], kind=['list', 'tuple', 'gen']),
         bounds='<= 2 ids looked up at once, <= 2 stored', modules=MODS)
def h_lookup(api, stored, n, kind):
    st, db, conn, m = setup(api, 'default', stored, 2)
    ids = [key(api, 'p%d' % i, 1) for i in range(n)]
    arg = {'list': list, 'tuple': tuple, 'gen': iter}[kind](ids)
    got = conn[arg]
    want = [m.get(i) for i in ids]
    api.check(len(got) == n and all((a is None) if b is None else same(api, a, b) for a, b in zip(got, want)),
              'one result per id, in order')
    view(api, conn, m, keys_of(m, *ids), 'lookups change nothing')


@harness('C16', shards=product(op=OPS + ['read'], call=['obj', 'all'], auto=[True, False], how=HOW),
         bounds='one stored id; arguments given by name', modules=MODS)
def h_calls(api, op, call, auto, how):
    st, db, conn, m = setup(api, how, 1, 2, auto)
    if not auto:
        conn.transaction_manager.commit()
    k, v = key(api, 'k', 1), api.int('v')
    args = {} if op in ('delete', 'read') else {'obj': v}
    after = m.copy()
    if op in ('create', 'update'):
        after.put(k, v)
    elif op == 'delete':
        after.remove(k)
    r = attempt(lambda: getattr(conn, op)(id=k, **args) if call == 'all' else getattr(conn, op)(k, **args), KeyError)
    api.check((r[0] == 'ok') == (op != 'delete' or m.has(k)), 'a missing id cannot be deleted')
    if op == 'read':
        want = m.get(k)
        api.check(r[1] is None if want is None else same(api, r[1], want), 'read gives the object')
    view(api, conn, after, keys_of(after, k), 'own view')
    if not auto:
        committed(api, db, m, keys_of(m, k), 'nothing committed without automatic transactions')
        conn.transaction_manager.commit()
    committed(api, db, after, keys_of(after, k), 'committed')
