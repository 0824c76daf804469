"""C20: making groups, with and without custom collection sizes."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import MISS, key, same
from harness.h_capacity import errors

MODS = ['citrine.storage.group', 'citrine.storage.collection']


def build(size, default, strict, custom, how='kw'):
    from citrine.storage.group import Group
    kw = {}
    if size is not None:
        kw['size'] = size
    if default is not None:
        kw['max_collection_size'] = default
    if strict is not None:
        kw['strict'] = strict
    if custom is not None:
        kw['custom'] = custom
    return Group.new(**kw)


def as_requested(api, g, want, strict, msg):
    api.check(len(g.collections) == len(want), msg + ': number of collections')
    total = 0
    for i, (c, w) in enumerate(zip(g.collections, want)):
        api.check(c.max_size == w, msg + ': size of collection %d' % i)
        api.check(c.size == 0, msg + ': empty')
        api.check(c.strict is bool(strict), msg + ': strictness')
        total = total + w
    api.check(g.max_size == total, msg + ': capacity')
    api.check(g.size == 0 and g.strict is bool(strict), msg + ': group')
    api.check(all(a is not b for i, a in enumerate(g.collections) for b in g.collections[:i]), msg + ': separate collections')


@harness('C20', shards=product(n=[1, 2, 3], strict=[True, False, None], again=[False]) +
         product(n=[1, 2], strict=[None], again=[True]),
         thorough=product(n=[1, 2, 3, 4], strict=[True, False, None], again=[False, True], top=[6]),
         bounds='up to 3 (4) custom sizes at any hashes 0-4 (6) in any order, sizes and default from -1 up, number of collections from 0 to 6 '
                'or left out; the same definition used twice', modules=MODS)
def h_custom(api, n, strict, again, top=4):
    custom = {}
    free = list(range(top + 1))
    for i in range(n):
        h = api.choice('hash%d' % i, free)
        free.remove(h)
        custom[h] = api.int('size%d' % i, 1 if again else -1)
    asked = dict(custom)
    hi = max(asked)
    for turn in range(2 if again else 1):
        size = api.choice('size_%d' % turn, [None, hi + 2] if again and not turn else [None, 0, hi - 1, hi, hi + 1, hi + 2])
        default = api.int('default%d' % turn, -1) if api.bool('default_given%d' % turn) else None
        fill = 5000 if default is None else default
        count = max(size or 0, hi + 1)
        want = [asked.get(h, fill) for h in range(count)]
        r = attempt(lambda: build(size, default, strict, custom), KeyError, ValueError)
        # a number of collections of 0 is none given
        if size and size < hi:
            api.check(r[0] == 'exc' and isinstance(r[1], KeyError), 'a number below the highest hash is refused')
        elif any(w <= 0 for w in want):
            api.check(r[0] == 'exc' and isinstance(r[1], ValueError), 'collections that can hold nothing are refused')
        else:
            api.check(r[0] == 'ok', 'a valid definition is accepted')
            as_requested(api, r[1], want, strict, 'group')
        api.check(list(custom) == list(asked), 'the definition is not altered')
        for h in asked:
            api.check(custom[h] is asked[h] or api.eq(custom[h], asked[h]), 'the sizes in the definition are not altered')


@harness('C20', shards=product(strict=[True, False, None], empty=[None, {}]),
         bounds='0-8 collections of any size', modules=MODS)
def h_uniform(api, strict, empty):
    size = api.choice('size', [None] + list(range(9)))
    default = api.int('default', -1) if api.bool('default_given') else None
    fill = 5000 if default is None else default
    r = attempt(lambda: build(size, default, strict, empty), ValueError)
    ok = bool(size) and not fill <= 0
    api.check((r[0] == 'ok') == ok, 'refused exactly without a number of collections or room in them')
    if ok:
        as_requested(api, r[1], [fill] * size, strict, 'group')


@harness('C20', shards=product(bad=['str', 'none', 'float', 'tuple']), bounds='a definition with an arbitrary and a wrong hash', modules=MODS)
def h_wrong_hash(api, bad):
    h = {'str': '1', 'none': None, 'float': 1.5, 'tuple': (0,)}[bad]
    custom = {api.choice('good', [0, 1, 2]): api.int('s', 1), h: api.int('t', 1)}
    r = attempt(lambda: build(api.choice('size', [None, 1, 3]), None, None, custom), KeyError)
    api.check(r[0] == 'exc', 'hashes that are not integers are refused')
    api.check(len(custom) == 2, 'the definition is not altered')


@harness('C20', shards=product(sizes=['12', '.1', '2.1'], n=[3], strict=[True, False]),
         thorough=product(sizes=['12', '.1', '2.1', '211'], n=[3, 4], strict=[True, False]),
         bounds='custom groups of 2-3 collections, 3 (4) arbitrary keys inserted', modules=MODS)
def h_custom_fill(api, sizes, n, strict):
    custom = {h: int(c) for h, c in enumerate(sizes) if c != '.'}
    g = build(None, 2, strict, dict(custom))
    stored, room = [], [custom.get(h, 2) for h in range(max(custom) + 1)]
    for i in range(n):
        k, v = key(api, 'k%d' % i, 1), api.int('v%d' % i)
        known = any(k == o for o, _ in stored)
        r = attempt(lambda: g.insert(k, v), *errors())
        if known:
            continue
        if r[0] == 'ok':
            stored.append((k, v))
            holds = [h for h, c in enumerate(g.collections) if c.has_key(k)]
            api.check(len(holds) == 1, 'stored once')
            room[holds[0]] -= 1
            api.check(not strict or room[holds[0]] >= 0, 'no more than the custom size is stored')
        else:
            api.check(strict, 'refused only when strict')
            api.check(min(room) <= 0, 'refused only when its collection is full')
    for k, v in stored:
        api.check(same(api, g.get(k, MISS), v), 'stored objects')
    api.check(g.size == len(stored), 'number of objects')


@harness('C20', shards=product(n=[1, 2]), thorough=product(n=[1, 2, 3]),
         bounds='up to 2 (3) custom sizes at any of the hashes 0, 1, 2, 9, 10, 11, 20, 101', modules=MODS)
def h_custom_far(api, n):
    custom, free = {}, [0, 1, 2, 9, 10, 11, 20, 101]
    for i in range(n):
        h = api.choice('hash%d' % i, free)
        free.remove(h)
        custom[h] = api.int('size%d' % i, 1, 30)
    asked, hi = dict(custom), max(custom)
    default = api.int('default', 1)
    size = api.choice('size', [None, hi + 1, hi + 5])
    as_requested(api, build(size, default, None, custom), [asked.get(h, default) for h in range(max(size or 0, hi + 1))], None, 'group')
