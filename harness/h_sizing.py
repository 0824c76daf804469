"""C06: sizing (primes, number of collections)."""
from sx.registry import harness, product
from sx.api_conc import attempt

MODS = ['citrine.storage.utils']


def primes_upto(n):
    return [1] + [p for p in range(2, n + 1) if all(p % k for k in range(2, int(p ** .5) + 1))]


def spec_prime(api, n, hi):
    return api.and_(*[api.or_(n % k != 0, n == k) for k in range(2, int(hi ** .5) + 1)])


@harness('C06', shards=[{'lo': a, 'hi': b} for a, b in [(1, 400), (400, 1200), (1200, 2500)]],
         thorough=[{'lo': a, 'hi': b} for a, b in
                   [(1, 400), (400, 1500), (1500, 3000), (3000, 5000), (5000, 7500), (7500, 10000)]],
         bounds='1 <= n <= 2500 (thorough 10000)', modules=MODS)
def h_is_prime(api, lo, hi):
    from citrine.storage.utils import is_prime
    n = api.int('n', lo, hi)
    got = is_prime(n)
    api.check(bool(got) == spec_prime(api, n, hi), 'is_prime is exact')


def smallest_prime(api, got, n, hi):
    """got is the smallest prime (1 included) that is not below n"""
    ps = primes_upto(2 * hi + 2)
    api.check(api.or_(*[got == p for p in ps]), 'number of collections is prime')
    api.check(got >= n, 'holds the requested capacity')
    for p in ps:
        api.check(api.not_(api.and_(n <= p, p < got)), 'no smaller prime suffices')


SIZES = [1, 2, 3, 7, 10, 100, 5000, None]


@harness('C06', shards=product(m=SIZES, hi=[96]), thorough=product(m=SIZES + [4, 9, 12, 4999], hi=[160]),
         bounds='capacity >= 1, at most 96 (thorough 160) collections needed, listed collection sizes',
         modules=MODS)
def h_collections(api, m, hi):
    from citrine.storage.utils import number_of_collections
    size = m or 5000
    cap = api.int('capacity', 1, hi * size)
    got = number_of_collections(cap, max_collection_size=m) if m else number_of_collections(cap)
    smallest_prime(api, got, (cap + (size - 1)) // size, hi)
    api.check(got * size >= cap, 'holds the requested capacity')


@harness('C06', shards=product(m=SIZES, hi=[96]), thorough=product(m=SIZES + [4, 9, 12, 4999], hi=[160]),
         bounds='current size >= 1, at most 96 (thorough 160) collections needed', modules=MODS)
def h_next_collections(api, m, hi):
    from citrine.storage.utils import next_number_of_collections
    size = m or 5000
    cur = api.int('current', 1, hi * size * 2 // 3)
    got = next_number_of_collections(cur, m) if m else next_number_of_collections(cur)
    need = (3 * cur + 1) // 2
    smallest_prime(api, got, (need + (size - 1)) // size, hi + 2)
    api.check(2 * got * size >= 3 * cur, 'holds one and a half times the current size')


@harness('C06', shards=[{'hi': 30}], thorough=[{'hi': 80}],
         bounds='1 <= minimum, maximum <= 30 (thorough 80), any order', modules=MODS)
def h_get_primes(api, hi):
    from citrine.storage.utils import get_primes
    lo, up = api.int('min', 1, hi), api.int('max', 0, hi)
    got = list(get_primes(lo, up))
    for a, b in zip(got, got[1:]):
        api.check(a < b, 'ascending')
    for p in range(0, hi + 2):
        isp = p in primes_upto(hi + 2)
        want = api.and_(isp, lo <= p, p <= up)
        have = api.or_(*[g == p for g in got]) if got else False
        api.check(have == want, 'exactly the primes within the bounds')
    for g in got:
        api.check(api.and_(g >= lo, g <= up), 'within the bounds')


@harness('C06', shards=[{'n': 4, 'a': 1, 'b': 60}, {'n': 4, 'a': 61, 'b': 110}], thorough=[{'n': 8, 'a': i, 'b': i + 49} for i in range(1, 401, 50)], bounds='first 4 (8) primes from any minimum <= 110 (400)', modules=MODS)
def h_get_primes_open(api, n, a, b):
    from citrine.storage.utils import get_primes
    import itertools
    lo = api.int('min', a, b)
    got = list(itertools.islice(get_primes(min=lo), n))
    ps = primes_upto(b + 100)
    api.check(len(got) == n, 'never ends')
    low = lo
    for g in got:
        api.check(api.or_(*[g == p for p in ps]), 'primes only')
        for p in ps:
            api.check(api.not_(api.and_(low <= p, p < g)), 'no prime left out')
        low = g + 1
    first = next(iter(get_primes()))
    api.check(first == 1, 'starts at 1 by default')
