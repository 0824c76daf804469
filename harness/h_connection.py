"""C07: connection transactions; C08: create / update / delete through a connection."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, MISS, key, same
from harness.h_capacity import errors
from harness.zstore import StorageFailure, open_container_db

MODS = ['citrine.connection.container_connection', 'citrine.storage.transaction',
        'citrine.storage.container', 'citrine.database.containerdb']


class Stop(Exception):
    pass


class Falsy(Exception):
    """an exception that counts as false"""

    def __len__(self):
        return 0


class Many(KeyError, IndexError, ValueError, TypeError, RuntimeError, AssertionError, ArithmeticError, EOFError):
    pass


LEAVING = [Stop, Falsy, KeyboardInterrupt, GeneratorExit, Many, StopIteration, SystemExit, OSError]


def overwrite():
    from citrine.exceptions import ObjectOverwriteError
    return ObjectOverwriteError


def setup(api, stored, cap=50, strict=False, extra_group=0, value=None):
    """a container database holding `stored` symbolic entries"""
    from citrine.storage.container import Container
    from citrine.storage.group import Group
    from citrine.storage.collection import Collection
    primary = Group((Collection(max_size=cap), Collection(max_size=cap)))
    refs = [RefMap()]
    groups = [primary]
    if extra_group:
        groups.append(Group((Collection(), Collection())))
        refs.append(RefMap())
    c = Container(primary, tuple(groups))
    for gi, n in enumerate([stored, extra_group][:len(groups)]):
        for i in range(n):
            k = key(api, 'a%d_%d' % (gi, i), 1)
            v = value(api, 'x%d_%d' % (gi, i)) if value else api.int('x%d_%d' % (gi, i))
            groups[gi].update({k: v})
            refs[gi].put(k, v)
    c.strict = strict
    st, db = open_container_db(c)
    return st, db, refs


def connect(db, how, autocommit=True):
    from citrine.connection.container_connection import ContainerConnection
    from citrine.storage.transaction import TransactionManager, ThreadTransactionManager
    if how == 'open':
        conn = db.open()
    elif how == 'open-single':
        conn = db.open(transaction_manager=TransactionManager())
    elif how == 'ctor':
        return ContainerConnection(db, autocommit=autocommit)
    elif how == 'ctor-single':
        return ContainerConnection(db, transaction_manager=TransactionManager(), autocommit=autocommit)
    else:
        raise AssertionError(how)
    if not autocommit:
        conn.autocommit = False
    return conn


def first(refs, k, default=MISS):
    for m in refs:
        if m.has(k):
            return m.get(k)
    return default


def committed(api, db, refs, keys, msg):
    """what a fresh connection sees is exactly the reference"""
    other = db.open()
    other.sync()
    try:
        for k in keys:
            api.check(same(api, other.container.read(k, MISS), first(refs, k)), msg)
        api.check(other.container.size == sum(len(m) for m in refs), msg + ' (size)')
    finally:
        other.close()


def keys_of(refs, *more):
    return [k for m in refs for k, _ in m.d] + list(more)


def run_op(api, conn, refs, op, i):
    """perform one operation, return (what to expect committed, keys, outcome)"""
    k, v = key(api, 'k%d' % i, 1), api.int('v%d' % i)
    after = [m.copy() for m in refs]
    if op == 'create':
        fn, ok = (lambda: conn.create(k, v)), first(refs, k) is MISS
        if ok:
            after[0].put(k, v)
    elif op == 'update':
        fn, ok = (lambda: conn.update(k, v)), True
        after[0].put(k, v)
    elif op == 'delete':
        fn, ok = (lambda: conn.delete(k)), True
        for m in after:
            m.remove(k)
    else:
        raise AssertionError(op)
    return k, fn, ok, after


OPS = ['create', 'update', 'delete']
HOW = ['open', 'open-single', 'ctor', 'ctor-single']


@harness('C07', shards=product(how=HOW, op=OPS, fail=[False, True], stored=[1]) +
         product(how=['open'], op=OPS, fail=[False, True], stored=[2]),
         thorough=product(how=HOW, op=OPS, fail=[False, True], stored=[0, 1, 2, 3]),
         bounds='<= 3 stored ids, one arbitrary operation, then a second one; commit may fail in the storage',
         modules=MODS)
def h_autocommit(api, how, op, fail, stored):
    st, db, refs = setup(api, stored)
    conn = connect(db, how)
    api.check(conn.autocommit is True, 'autocommit is on')
    st.arm(0 if fail else None)
    k, fn, ok, after = run_op(api, conn, refs, op, 0)
    r = attempt(fn, StorageFailure, overwrite())
    st.disarm()
    if r[0] == 'ok':
        api.check(ok, 'operation must be refused')
        if fail:
            # an operation that changes nothing need not touch the storage
            api.check(len(after[0]) == len(refs[0]) and first(refs, k) is MISS and op == 'delete',
                      'a failing commit is reported')
        refs = after
    else:
        api.check(fail or not ok, 'operation refused without reason')
    committed(api, db, refs, keys_of(refs, k), 'committed on return, nothing left when failed')
    for kk in keys_of(refs, k):
        api.check(same(api, conn.read(kk, MISS), first(refs, kk)), 'own view equals what is committed')
    # the connection stays usable and still commits by itself
    k2 = key(api, 'n', 1)
    v2 = api.int('nv')
    conn.update(k2, v2)
    refs[0].put(k2, v2)
    committed(api, db, refs, keys_of(refs, k, k2), 'still autocommitting, only own effects')


@harness('C07', shards=product(how=['open', 'ctor-single'], auto=[True, False],
                               ops=['create-update', 'update-delete', 'delete-create'],
                               end=['normal', 'raise', 'fail']),
         thorough=product(how=HOW, auto=[True, False],
                          ops=['%s-%s' % (a, b) for a in OPS for b in OPS],
                          end=['normal', 'raise', 'fail']),
         bounds='one stored id, with-block of two arbitrary operations, then one more operation', modules=MODS)
def h_block(api, how, auto, ops, end):
    st, db, refs = setup(api, 1)
    conn = connect(db, how, auto)
    before = refs
    inside = refs
    seen = []
    st.arm(0 if end == 'fail' else None)
    changed = False

    def block():
        nonlocal inside, changed
        with conn:
            for i, op in enumerate(ops.split('-')):
                k, fn, ok, after = run_op(api, conn, inside, op, i)
                seen.append(k)
                r = attempt(fn, overwrite())
                api.check((r[0] == 'ok') == ok, 'outcome inside the block')
                if ok:
                    changed = changed or not (op == 'delete' and first(inside, k) is MISS)
                    inside = after
                for kk in keys_of(inside, k):
                    api.check(same(api, conn.read(kk, MISS), first(inside, kk)), 'own view inside the block')
                committed(api, db, before, keys_of(before, *seen), 'nothing visible before the block ends')
            if end == 'raise':
                raise kind()
    kind = LEAVING[api.choice('kind', list(range(len(LEAVING))))] if end == 'raise' else Stop
    r = attempt(block, StorageFailure, *LEAVING)
    st.disarm()
    if end == 'raise':
        api.check(r[0] == 'exc' and isinstance(r[1], kind), 'the exception leaves the block')
    elif end == 'fail':
        api.check(r[0] == 'exc' or not changed, 'a failing commit is reported')
    else:
        api.check(r[0] == 'ok', 'the block ends normally')
    refs = inside if r[0] == 'ok' else before
    if end != 'fail':
        for kk in keys_of(refs, *seen):
            api.check(same(api, conn.read(kk, MISS), first(refs, kk)), 'own view after the block')
    committed(api, db, refs, keys_of(refs, *seen), 'all or nothing of the block')
    # the setting in force before is in force again
    api.check(conn.autocommit is auto, 'autocommit setting restored')
    if r[0] == 'exc':
        conn.transaction_manager.abort()
    k2, v2 = key(api, 'n', 1), api.int('nv')
    conn.update(k2, v2)
    after = [m.copy() for m in refs]
    after[0].put(k2, v2)
    if not auto:
        committed(api, db, refs, keys_of(refs, k2), 'nothing committed with autocommit off')
        conn.transaction_manager.commit()
    committed(api, db, after, keys_of(after, k2), 'committed by the connection or the user')


@harness('C07', shards=product(how=['open', 'ctor-single'], auto=[True, False], ops=['create-update', 'update-delete'],
                               inner=['raise'], end=['normal']) +
         product(how=['open'], auto=[True], ops=['update-create'], inner=['normal', 'deep', 'leave'],
                 end=['normal', 'raise', 'fail']),
         thorough=product(how=HOW, auto=[True, False], ops=['%s-%s%s' % (a, b, c) for a in OPS for b in OPS for c in ('', '-update')],
                          inner=['normal', 'raise', 'deep', 'leave'], end=['normal', 'raise', 'fail']),
         bounds='one stored id, a with-block of two (three) arbitrary operations, the second one in a with-block of its own (or two), '
                'each left normally or by an exception, the commit may fail', modules=MODS)
def h_inner(api, how, auto, ops, inner, end):
    st, db, refs = setup(api, 1)
    conn = connect(db, how, auto)
    before, inside, seen = refs, refs, []
    ops = ops.split('-')
    changed = False
    outer = conn.transaction_manager if how == 'open' and api.choice('outer', ['connection', 'manager']) == 'manager' else conn

    def step(i):
        nonlocal inside, changed
        k, fn, ok, after = run_op(api, conn, inside, ops[i], i)
        seen.append(k)
        r = attempt(fn, overwrite())
        api.check((r[0] == 'ok') == ok, 'outcome inside the block')
        if ok:
            changed = changed or not (ops[i] == 'delete' and first(inside, k) is MISS)
            inside = after
        look('inside')

    def look(msg):
        for kk in keys_of(inside, *seen):
            api.check(same(api, conn.read(kk, MISS), first(inside, kk)), 'own view ' + msg)
        committed(api, db, before, keys_of(before, *seen), 'nothing visible before the outer block ends: ' + msg)

    def block():
        nonlocal inside, changed
        with outer:
            step(0)
            kept, kept_changed = inside, changed

            def part():
                with conn:
                    if inner == 'deep':
                        with conn:
                            pass
                    step(1)
                    if inner in ('raise', 'leave'):
                        raise Many()
            r = attempt(part, *([Many] if inner == 'raise' else []))
            api.check((r[0] == 'ok') == (inner != 'raise'), 'the exception leaves the inner block')
            if inner == 'raise':
                inside, changed = kept, kept_changed
            look('after the inner block')
            if len(ops) > 2:
                step(2)
            if end == 'raise':
                raise Stop()
    st.arm(0 if end == 'fail' else None)
    r = attempt(block, StorageFailure, Stop, Many)
    st.disarm()
    if inner == 'leave' or end == 'raise':
        api.check(r[0] == 'exc' and isinstance(r[1], Many if inner == 'leave' else Stop), 'the exception leaves the block')
    elif end == 'fail':
        api.check(r[0] == 'exc' or not changed, 'a failing commit is reported')
    else:
        api.check(r[0] == 'ok', 'the block ends normally')
    refs = inside if r[0] == 'ok' else before
    committed(api, db, refs, keys_of(refs, *seen), 'all or nothing of the block')
    api.check(conn.autocommit is auto, 'autocommit setting restored')
    if r[0] == 'exc':
        conn.transaction_manager.abort()
    k, v = key(api, 'n', 1), api.int('nv')
    after = [m.copy() for m in refs]
    after[0].put(k, v)
    with conn:
        conn.update(k, v)
    committed(api, db, after, keys_of(after, k), 'a later block commits')


class Sync:
    """takes part in transactions and may fail when one begins"""
    broken = False

    def newTransaction(self, txn):
        if self.broken:
            raise StorageFailure('no connection')

    def beforeCompletion(self, txn):
        pass

    afterCompletion = beforeCompletion


@harness('C07', shards=product(how=HOW, op=OPS + ['block'], auto=[True]) + product(how=HOW, op=['block'], auto=[False]),
         bounds='one stored id, an operation or a block that cannot begin its transaction, then another operation', modules=MODS)
def h_begin(api, how, op, auto):
    st, db, refs = setup(api, 1)
    conn = connect(db, how, auto)
    sync = Sync()
    conn.transaction_manager.registerSynch(sync)
    sync.broken = True
    k, fn, ok, after = run_op(api, conn, refs, 'update' if op == 'block' else op, 0)

    def block():
        with conn:
            fn()
    r = attempt(block if op == 'block' else fn, StorageFailure)
    api.check(r[0] == 'exc', 'the failure is reported')
    sync.broken = False
    conn.transaction_manager.abort()
    committed(api, db, refs, keys_of(refs, k), 'nothing of it is committed')
    api.check(conn.autocommit is auto, 'autocommit setting in force')
    k, v = key(api, 'n', 1), api.int('nv')
    after = [m.copy() for m in refs]
    after[0].put(k, v)
    conn.update(k, v)
    if not auto:
        committed(api, db, refs, keys_of(refs, k), 'nothing committed with autocommit off')
        conn.transaction_manager.commit()
    committed(api, db, after, keys_of(after, k), 'later operations are committed')
    k2, v2 = key(api, 'n2', 1), api.int('nv2')
    with conn:
        conn.update(k2, v2)
    after[0].put(k2, v2)
    committed(api, db, after, keys_of(after, k, k2), 'later blocks are committed')


@harness('C07', shards=product(how=HOW, op=OPS, finish=['commit', 'abort', 'fail', 'off-on']),
         bounds='one stored id, one or two arbitrary operations with autocommit off', modules=MODS)
def h_manual(api, how, op, finish):
    st, db, refs = setup(api, 1)
    conn = connect(db, how, False)
    api.check(conn.autocommit is False, 'autocommit is off')
    k, fn, ok, after = run_op(api, conn, refs, op, 0)
    r = attempt(fn, overwrite())
    api.check((r[0] == 'ok') == ok, 'outcome')
    if not ok:
        after = refs
    committed(api, db, refs, keys_of(refs, k), 'nothing committed with autocommit off')
    for kk in keys_of(after, k):
        api.check(same(api, conn.read(kk, MISS), first(after, kk)), 'own view')
    if finish == 'commit':
        conn.transaction_manager.commit()
        refs = after
    elif finish == 'abort':
        conn.transaction_manager.abort()
    elif finish == 'fail':
        st.arm(0)
        r = attempt(conn.transaction_manager.commit, StorageFailure)
        st.disarm()
        if r[0] == 'ok':
            refs = after
        conn.transaction_manager.abort()
    elif finish == 'off-on':
        conn.transaction_manager.commit()
        refs = after
        conn.autocommit = True
        k2, v2 = key(api, 'n', 1), api.int('nv')
        conn.update(k2, v2)
        refs[0].put(k2, v2)
        k = k2
    committed(api, db, refs, keys_of(refs, k), 'committed exactly when the user committed')


@harness('C07', shards=product(op=['create', 'update', 'block'], how=['open', 'ctor']),
         bounds='strict container of capacity 1 per collection; refused writes', modules=MODS)
def h_refused(api, op, how):
    st, db, refs = setup(api, 1, cap=1, strict=True)
    conn = connect(db, how)
    k, v = key(api, 'k', 1), api.int('v')
    k2, v2 = key(api, 'k2', 1), api.int('v2')

    def go():
        if op == 'block':
            with conn:
                conn.update(k, v)
                conn.update(k2, v2)
        elif op == 'update':
            conn.update(k, v)
        else:
            conn.create(k, v)
    r = attempt(go, overwrite(), *errors())
    if r[0] == 'ok':
        if op == 'block':
            refs[0].put(k, v)
            refs[0].put(k2, v2)
        else:
            refs[0].put(k, v)
    committed(api, db, refs, keys_of(refs, k, k2), 'a refused operation leaves nothing behind')
    for kk in keys_of(refs, k, k2):
        api.check(same(api, conn.read(kk, MISS), first(refs, kk)), 'own view after a refusal')


# ---------------------------------------------------------------------------
# C08


def any_value(api, name):
    kind = api.choice(name + '_kind', ['int', 'none', 'empty'])
    if kind == 'int':
        return api.int(name)
    return {'none': None, 'empty': ''}[kind]


def view(api, conn, refs, p, msg):
    want = first(refs, p)
    api.check(same(api, conn.read(p, MISS), want), msg + ': read')
    r = attempt(lambda: conn[p], KeyError)
    if want is MISS:
        api.check(r[0] == 'exc', msg + ': [] of a missing id raises KeyError')
        api.check(conn.read(p) is None, msg + ': read without default')
    else:
        api.check(r[0] == 'ok' and same(api, r[1], want), msg + ': [] gives the object')


@harness('C08', shards=product(stored=[1, 2], extra=[0, 1], op=OPS, auto=[True]) +
         product(stored=[0], extra=[1], op=OPS, auto=[False]),
         thorough=product(stored=[0, 1, 2, 3], extra=[0, 1], op=OPS, auto=[True, False]),
         bounds='<= 3 stored ids in the primary and <= 1 in a secondary group, 1-character ids, '
                'objects None, "" or any integer, arbitrary probe id', modules=MODS)
def h_crud(api, stored, extra, op, auto):
    big = stored + extra > 1
    st, db, refs = setup(api, stored, extra_group=extra, value=None if big else any_value)
    conn = connect(db, 'open', auto)
    k, v = key(api, 'k', 1), (api.int('v') if big else any_value(api, 'v'))
    had = first(refs, k)
    if op == 'create':
        r = attempt(lambda: conn.create(k, v), overwrite())
        api.check((r[0] == 'ok') == (had is MISS), 'create is refused exactly when the id is taken')
        if had is MISS:
            refs[0].put(k, v)
    elif op == 'update':
        prev = conn.update(k, v)
        api.check(same(api, prev, None if had is MISS else had), 'update returns the previous object')
        refs[0].put(k, v)
    else:
        want = [m.get(k) for m in refs if m.has(k)]
        got = conn.delete(k)
        api.check(len(got) == len(want) and all(same(api, a, b) for a, b in zip(got, want)),
                  'delete returns the removed objects')
        for m in refs:
            m.remove(k)
    view(api, conn, refs, k, 'after ' + op)
    p = key(api, 'p', 1)
    view(api, conn, refs, p, 'other ids')
    api.check(conn.container.size == sum(len(m) for m in refs), 'number of stored objects')
    if op == 'delete':
        r = attempt(lambda: conn.create(k, 7), overwrite())
        api.check(r[0] == 'ok', 'the id is free after delete')
        refs[0].put(k, 7)
        view(api, conn, refs, k, 'created again')


@harness('C08', shards=product(stored=[0, 1, 2], n=[1, 2], kind=['list', 'tuple', 'gen']),
         thorough=product(stored=[0, 1, 2, 3], n=[0, 1, 2, 3], kind=['list', 'tuple', 'gen']),
         bounds='<= 3 ids looked up at once, <= 3 stored', modules=MODS)
def h_lookup(api, stored, n, kind):
    st, db, refs = setup(api, stored, value=any_value)
    conn = connect(db, 'open')
    ids = [key(api, 'p%d' % i, 1) for i in range(n)]
    arg = ids if kind == 'list' else tuple(ids) if kind == 'tuple' else (i for i in ids)
    r = attempt(lambda: conn[arg], KeyError)
    want = [first(refs, i, None) for i in ids]
    if all(first(refs, i) is MISS for i in ids):
        api.check(r[0] == 'exc', 'KeyError when none of the ids is stored')
    else:
        api.check(r[0] == 'ok', 'no error when one of the ids is stored')
        api.check(len(r[1]) == n and all(same(api, a, b) for a, b in zip(r[1], want)),
                  'one result per id, in order')
    for m in refs:
        for kk, _ in m.d:
            view(api, conn, refs, kk, 'lookups change nothing')


@harness('C08', shards=product(op=OPS + ['read'], call=['obj', 'all'], auto=[True, False]),
         bounds='one stored id; arguments given by position or by name', modules=MODS)
def h_calls(api, op, call, auto):
    st, db, refs = setup(api, 1, value=any_value)
    conn = connect(db, 'open', auto)
    k, v = key(api, 'k', 1), any_value(api, 'v')
    args = {'delete': [], 'read': [('default', v)]}.get(op, [('obj', v)])
    if call == 'all':
        fn = lambda: getattr(conn, op)(**dict([('id', k)] + args))
    elif call == 'obj':
        fn = lambda: getattr(conn, op)(k, **dict(args))
    else:
        fn = lambda: getattr(conn, op)(k, *[a for _, a in args])
    had = first(refs, k)
    r = attempt(fn, overwrite())
    api.check((r[0] == 'ok') == (op != 'create' or had is MISS), 'create is refused exactly when the id is taken')
    if op == 'read':
        api.check(same(api, r[1], v if had is MISS else had), 'read gives the object or the default')
    elif op == 'delete':
        api.check(len(r[1]) == (had is not MISS) and all(same(api, a, had) for a in r[1]), 'delete returns the removed objects')
        refs[0].remove(k)
    elif r[0] == 'ok':
        refs[0].put(k, v)
        api.check(op == 'create' or same(api, r[1], None if had is MISS else had), 'update returns the previous object')
    for i in keys_of(refs, k):
        view(api, conn, refs, i, 'after ' + op)
    if not auto:
        conn.transaction_manager.commit()
    committed(api, db, refs, keys_of(refs, k), 'committed')


@harness('C07', shards=product(op=OPS, first=[True, False], second=['open', 'open-single', 'off']),
         bounds='a connection that was used with autocommit on or off is closed and the database opened again; one stored id, one '
                'arbitrary operation', modules=MODS)
def h_reopen(api, op, first, second):
    from citrine.storage.transaction import TransactionManager
    st, db, refs = setup(api, 1)
    conn = connect(db, 'open')
    conn.autocommit = first
    conn.close()
    if second == 'off':
        tm = TransactionManager()
        tm.autocommit = False
        conn = db.open(transaction_manager=tm)
    else:
        conn = connect(db, second)
    api.check(conn.autocommit is (second != 'off'), 'the setting is the one in force')
    k, fn, ok, after = run_op(api, conn, refs, op, 0)
    r = attempt(fn, overwrite())
    api.check((r[0] == 'ok') == ok, 'outcome')
    now = refs if second == 'off' or not ok else after
    committed(api, db, now, keys_of(after, k), 'committed exactly when autocommit is on')
