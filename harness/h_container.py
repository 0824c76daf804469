"""C04: container reads back what was written; C05: resize / condense."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, MISS, any_value, key, none_or_int, odd, same
from harness.h_capacity import errors

MODS = ['citrine.storage.container', 'citrine.storage.group', 'citrine.storage.collection']


def make_group(nc, max_size=9, strict=False):
    from citrine.storage.group import Group
    from citrine.storage.collection import Collection
    return Group(tuple(Collection(max_size=max_size) for _ in range(nc)), strict=strict)


def fill(api, groups, sizes, tag='a', klen=1, value=None):
    """put symbolic entries into every group; a reference map per group"""
    refs = []
    for gi, (g, n) in enumerate(zip(groups, sizes)):
        m = RefMap()
        for i in range(n):
            k = key(api, '%s%d_%d' % (tag, gi, i), klen)
            v = value(api, 'x%s%d_%d' % (tag, gi, i)) if value else api.int('x%s%d_%d' % (tag, gi, i))
            g.update({k: v})
            m.put(k, v)
        refs.append(m)
    return refs


def first(refs, k, default=MISS):
    for m in refs:
        if m.has(k):
            return m.get(k)
    return default


def check_reads(api, c, refs, p, msg):
    api.check(same(api, c.read(p, MISS), first(refs, p)), msg + ': read')
    api.check(c.has(p) == sum(1 for m in refs if m.has(p)), msg + ': has')


@harness('C04', shards=product(sizes=[(1,), (2,), (0, 1), (1, 1), (2, 1), (0, 0, 1), (1, 1, 1)], nc=[2],
                               op=['write', 'write2', 'delete', 'none']) +
         product(sizes=[(1, 1)], nc=[1, 3], op=['write', 'delete']) ,
         thorough=product(sizes=[(0,), (1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1)],
                          nc=[1, 2, 3], op=['write', 'write2', 'delete', 'none']),
         bounds='<= 3 groups of 1-3 collections, <= 4 stored entries, 1-character ASCII ids, '
                'unbounded integer objects, arbitrary probe id', modules=MODS)
def h_container_step(api, sizes, nc, op):
    from citrine.storage.container import Container
    groups = tuple(make_group(nc) for _ in sizes)
    c = Container(groups[0], groups)
    refs = fill(api, groups, sizes)
    k, v = key(api, 'k', 1), api.int('v')
    if op in ('write', 'write2'):
        c.write(k, v)
        refs[0].put(k, v)
        api.check(same(api, c.read(k, MISS), v), 'write then read')
        if op == 'write2':
            v = api.int('v2')
            c.write(k, v)
            refs[0].put(k, v)
    elif op == 'delete':
        want = [m.get(k) for m in refs if m.has(k)]
        got = c.delete(k)
        api.check(len(got) == len(want), 'delete returns one object per group holding the id')
        for a, b in zip(got, want):
            api.check(same(api, a, b), 'delete returns the removed objects in group order')
        for m in refs:
            m.remove(k)
    p = key(api, 'p', 1)
    check_reads(api, c, refs, p, 'after ' + op)
    api.check(c.size == sum(len(m) for m in refs), 'number of stored objects')


@harness('C04', shards=product(sizes=[(1,), (1, 1)], op=['write', 'delete']),
         thorough=product(sizes=[(1,), (2,), (1, 1), (1, 1, 1)], op=['write', 'delete']),
         bounds='objects None, "", False or any integer; ids of one non-ASCII or 0-2 ASCII characters', modules=MODS)
def h_container_falsy(api, sizes, op):
    from citrine.storage.container import Container
    groups = tuple(make_group(2) for _ in sizes)
    c = Container(groups[0], groups)
    refs = fill(api, groups, sizes, value=any_value if len(sizes) == 1 else none_or_int)
    n = api.choice('klen', [0, 1, 2])
    k, v = key(api, 'k', n), any_value(api, 'v')
    if op == 'write':
        c.write(k, v)
        refs[0].put(k, v)
    else:
        want = [m.get(k) for m in refs if m.has(k)]
        got = c.delete(k)
        api.check(len(got) == len(want) and all(same(api, a, b) for a, b in zip(got, want)),
                  'delete returns the removed objects')
        for m in refs:
            m.remove(k)
    check_reads(api, c, refs, k, 'after ' + op)
    for m in refs:
        for kk, _ in m.d:
            check_reads(api, c, refs, kk, 'after ' + op)


@harness('C04', shards=product(sizes=[(1,), (1, 1), (0, 1)], op=['write', 'delete', 'none']),
         bounds='<= 2 groups, <= 3 entries, objects that equal everything or nothing or cannot be compared', modules=MODS)
def h_container_odd(api, sizes, op):
    from citrine.storage.container import Container
    groups = tuple(make_group(2) for _ in sizes)
    c = Container(groups[0], groups)
    refs = fill(api, groups, sizes, value=odd)
    k, v = key(api, 'k', 1), odd(api, 'v')
    if op == 'write':
        c.write(k, v)
        refs[0].put(k, v)
    elif op == 'delete':
        want = [m.get(k) for m in refs if m.has(k)]
        got = c.delete(k)
        api.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'delete gives the removed objects')
        for m in refs:
            m.remove(k)
    p = key(api, 'p', 1)
    holders = [m for m in refs if m.has(p)]
    api.check(c.has(p) == len(holders), 'has counts the groups')
    api.check(c.read(p, MISS) is (holders[0].get(p) if holders else MISS), 'read gives the object itself')
    api.check(c.size == sum(len(m) for m in refs), 'size')


@harness('C04', shards=product(where=[0, 1, 2, None]),
         bounds='primary group given at any position of the group tuple or not at all', modules=MODS)
def h_container_primary(api, where):
    from citrine.storage.container import Container
    groups = tuple(make_group(2) for _ in range(3 if where is not None else 2))
    primary = groups[where] if where is not None else make_group(2)
    c = Container(primary, groups)
    api.check(c.primary is primary, 'primary group')
    api.check(len(c.groups) == 3 and all(any(g is x for x in c.groups) for g in groups + (primary,)),
              'every group is in the container')
    api.check([g for g in c.groups if g is not primary] == [g for g in groups if g is not primary],
              'other groups keep their order')
    ks = [key(api, 'a%d' % i, 1) for i in range(len(groups))]
    for i, g in enumerate(groups):
        g.update({ks[i]: i})
    k, v = key(api, 'k', 1), api.int('v')
    c.write(k, v)
    api.check(same(api, c.read(k, MISS), v), 'write then read')
    p = key(api, 'p', 1)
    want = MISS
    for g in c.groups:
        if g.has_key(p):
            want = g.get(p)
            break
    api.check(same(api, c.read(p, MISS), want), 'first group in order')


# ---------------------------------------------------------------------------
# C05


class Stop(Exception):
    """the failing commit"""


class FaultyManager:
    """Transaction manager whose commit number `fail` fails.  What is in memory
    when a commit succeeds is what a database would hold from then on: it is
    handed to `observe`."""

    def __init__(self, fail, observe):
        self.n, self.fail, self.observe = 0, fail, observe

    def commit(self):
        i, self.n = self.n, self.n + 1
        if i == self.fail:
            raise Stop()
        self.observe()

    def abort(self):
        pass

    def begin(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        return False


def run_op(c, op, transfer, tm, capacity, cms):
    if op == 'condense':
        return c.condense(transfer=transfer, transaction_manager=tm)
    return c.resize(capacity, max_collection_size=cms, condense=(op == 'resize+condense'),
                    transfer=transfer, transaction_manager=tm)


def all_readable(api, c, refs, p, msg):
    for m in refs:
        for k, _ in m.d:
            api.check(same(api, c.read(k, MISS), first(refs, k)), msg)
    if p is not None:
        api.check(same(api, c.read(p, MISS), first(refs, p)), msg)
    api.check(c.groups[0] is c.primary, msg + ' (what is written next is found first)')


OPS = ['condense', 'resize', 'resize+condense']
BIG = dict(capacity=20, cms=10)


def c05(api, sizes, nc, op, transfer, strict, tm=None, caps=(9, 20, 10), fail=None, probe=True, over=False, value=None):
    from citrine.storage.container import Container
    pmax, capacity, cms = caps
    groups = tuple(make_group(nc, pmax if i == 0 or over else 9) for i in range(len(sizes)))
    c = Container(groups[0], groups)
    refs = fill(api, groups, sizes, value=value)
    c.strict = strict
    p = key(api, 'p', 1) if probe else None
    manager = None
    if tm:
        manager = FaultyManager(fail, lambda: all_readable(
            api, c, refs, None, 'every commit leaves every id readable'))
    r = attempt(lambda: run_op(c, op, transfer, manager, capacity, cms), Stop, *errors())
    all_readable(api, c, refs, p, 'readable with the same value afterwards')
    if r[0] == 'exc':
        return 'failed'
    # what happened to the groups
    if op == 'condense':
        new, merged, kept = groups[0], groups[1:], ()
        api.check(c.primary is new, 'primary group unchanged')
    else:
        new = c.primary
        api.check(all(g is not new for g in groups), 'new primary group')
        merged, kept = (groups, ()) if op == 'resize+condense' else (groups[:1], groups[1:])
    want = (new,) + (() if transfer else tuple(merged)) + tuple(kept)
    api.check(len(c.groups) == len(want) and all(a is b for a, b in zip(c.groups, want)),
              'groups in place and in order')
    got = r[1]
    if transfer:
        api.check(len(got) == len(merged) and all(a is b for a, b in zip(got, merged)),
                  'drained groups are returned')
        for g in merged:
            api.check(g.size == 0 and len(list(g.keys())) == 0, 'drained groups are empty')
    else:
        api.check(not got, 'nothing is returned without transfer')
    for g, m in zip(groups, refs):
        if any(g is x for x in kept) or (not transfer and any(g is x for x in merged)):
            api.check(g.size == len(m), 'other groups keep their contents')
            for k, v in m.d:
                api.check(same(api, g.get(k, MISS), v), 'other groups keep their contents')
    for m, g in zip(refs, groups):
        if any(g is x for x in merged):
            for k, _ in m.d:
                api.check(new.has_key(k), 'merged into the primary group')
    if strict:
        for col in new.collections:
            api.check(col.size <= col.max_size, 'strict limit respected')
    return 'ok'


@harness('C05', shards=product(sizes=[(1, 1), (0, 2), (2,), (1, 1, 1)], nc=[2], op=OPS,
                               transfer=[True, False]),
         thorough=product(sizes=[(1, 1), (0, 2), (2,), (2, 1), (1, 1, 1), (1, 0, 2), (2, 2)], nc=[1, 2, 3], op=OPS,
                          transfer=[True, False]),
         bounds='<= 3 groups of 1-3 collections, <= 4 entries with arbitrary (overlapping) 1-character ids',
         modules=MODS)
def h_condense(api, sizes, nc, op, transfer):
    api.check(c05(api, sizes, nc, op, transfer, False) == 'ok', 'never refused without strict mode')


@harness('C05', shards=product(sizes=[(0,), (1,), (0, 0), (1, 0), (0, 1), (1, 0, 1), (0, 1, 0), (0, 0, 1), (1, 0, 0, 1)], op=OPS,
                               transfer=[True, False], strict=[True, False], tm=[True, False]),
         bounds='1-4 groups, any of them empty; strict or not, with and without a transaction manager', modules=MODS)
def h_condense_empty(api, sizes, op, transfer, strict, tm):
    api.check(c05(api, sizes, 2, op, transfer, strict, tm=tm) == 'ok', 'never refused while there is room')


@harness('C05', shards=product(sizes=[(1, 1), (2,), (0, 2)], op=OPS, transfer=[True, False]),
         thorough=product(sizes=[(1, 1), (2,), (0, 2), (1, 1, 1), (2, 1)], op=OPS, transfer=[True, False]),
         bounds='objects None, "", False or any integer (None or any integer where there are three)', modules=MODS)
def h_condense_falsy(api, sizes, op, transfer):
    api.check(c05(api, sizes, 2, op, transfer, False, value=any_value if sum(sizes) < 3 else none_or_int) == 'ok',
              'never refused without strict mode')


@harness('C05', shards=product(sizes=[(2,), (3,), (1, 2)], op=OPS, transfer=[True, False], caps=[(1, 1, 1), (1, 9, 9)]),
         thorough=product(sizes=[(2,), (3,), (4,), (1, 2), (2, 2)], op=OPS, transfer=[True, False],
                          caps=[(1, 1, 1), (1, 2, 1), (2, 2, 2), (1, 9, 9)]),
         bounds='non-strict groups holding more than their nominal size (1-2), <= 4 entries', modules=MODS)
def h_condense_overfull(api, sizes, op, transfer, caps):
    api.check(c05(api, sizes, 1, op, transfer, False, caps=caps, over=True) == 'ok', 'never refused without strict mode')


@harness('C05', shards=product(sizes=[(1, 1), (0, 2), (1, 1, 1)], nc=[1, 2], op=OPS, transfer=[True, False],
                               caps=[(1, 1, 1), (2, 2, 1)]),
         thorough=product(sizes=[(1, 1), (0, 2), (0, 3), (1, 1, 1), (1, 2)], nc=[1, 2], op=OPS,
                          transfer=[True, False],
                          caps=[(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 2), (3, 3, 1)]),
         bounds='strict mode with primary/new capacities 1-3 so that merging may be refused part-way', modules=MODS)
def h_condense_strict(api, sizes, nc, op, transfer, caps):
    # the initial contents must fit the primary group: it is filled non-strictly
    c05(api, sizes, nc, op, transfer, True, caps=caps)
    api.check(True, 'done')


@harness('C05', shards=product(sizes=[(1, 1), (0, 2), (1, 1, 1)], op=OPS, transfer=[True, False],
                               strict=[False]) +
         product(sizes=[(0, 2)], op=OPS, transfer=[True, False], strict=[True]),
         thorough=product(sizes=[(1, 1), (0, 2), (2, 0), (1, 1, 1), (0, 1, 2)], op=OPS,
                          transfer=[True, False], strict=[False, True]),
         bounds='every commit of the operation may be the failing one (symbolic index), or none', modules=MODS)
def h_condense_fault(api, sizes, op, transfer, strict):
    fail = api.choice('fail', list(range(12)) + [None])
    r = c05(api, sizes, 1 if sum(sizes) > 2 else 2, op, transfer, strict, tm=True,
            caps=(1, 1, 1) if strict else (9, 20, 10), fail=fail, probe=False)
    if fail is None and not strict:
        api.check(r == 'ok', 'succeeds when every commit does')


@harness('C05', shards=product(sizes=[(1, 1), (2,)], op=OPS, transfer=[True, False], tm=['one', 'none']),
         thorough=product(sizes=[(1, 1), (2,), (0, 2), (1, 1, 1)], op=OPS, transfer=[True, False], tm=['one', 'none']),
         bounds='real ZODB; any of the first 8 storage commits may fail (or none); a fresh connection reads', modules=MODS)
def h_condense_durable(api, sizes, op, transfer, tm):
    from citrine.storage.container import Container
    from citrine.storage.transaction import TransactionManager
    from harness.zstore import StorageFailure, open_container_db
    groups = tuple(make_group(1) for _ in sizes)
    c = Container(groups[0], groups)
    refs = fill(api, groups, sizes)
    st, db = open_container_db(c)
    conn = db.open(transaction_manager=TransactionManager())
    fail = api.choice('fail', list(range(8)) + [None]) if tm == 'one' else api.choice('fail', [0, None])
    st.arm(fail)
    manager = conn.transaction_manager

    def go():
        if tm == 'one':
            run_op(conn.container, op, transfer, manager, 20, 10)
        else:
            with conn:
                run_op(conn.container, op, transfer, None, 20, 10)
    r = attempt(go, StorageFailure)
    st.disarm()
    if fail is None:
        api.check(r[0] == 'ok', 'succeeds when every commit does')
    manager.abort()
    all_readable(api, conn.container, refs, None, 'readable by the connection')
    other = db.open()
    other.sync()
    all_readable(api, other.container, refs, key(api, 'p', 1), 'readable from what has been committed')
    if r[0] == 'ok':
        merged = {'condense': len(sizes) - 1, 'resize': 1, 'resize+condense': len(sizes)}[op]
        left = 1 + (len(sizes) - (1 if op == 'condense' else 0)) - (merged if transfer else 0)
        api.check(len(other.container.groups) == left, 'groups in what has been committed')
