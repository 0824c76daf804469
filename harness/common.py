"""Shared helpers of the storage harnesses (reference map, key inputs)."""
from sx.api_conc import attempt


class RefMap:
    """Reference map: association list, keys compared with =="""

    def __init__(self, pairs=()):
        self.d = [list(p) for p in pairs]

    def find(self, k):
        for i, (x, _) in enumerate(self.d):
            if x == k:
                return i
        return -1

    def has(self, k):
        return self.find(k) >= 0

    def get(self, k, default=None):
        i = self.find(k)
        return self.d[i][1] if i >= 0 else default

    def put(self, k, v):
        i = self.find(k)
        if i >= 0:
            self.d[i][1] = v
        else:
            self.d.append([k, v])

    def insert(self, k, v):
        if not self.has(k):
            self.d.append([k, v])

    def remove(self, k):
        i = self.find(k)
        return self.d.pop(i)[1] if i >= 0 else None

    def copy(self):
        return RefMap(self.d)

    def __len__(self):
        return len(self.d)


class Miss:
    """a unique default object"""


MISS = Miss()


def key(api, name, n, hi=127):
    return api.str(name, n, 0, hi)


def any_value(api, name):
    """an integer or one of the other falsy / truthy objects"""
    kind = api.choice(name + '_kind', ['int', 'none', 'empty', 'false'])
    if kind == 'int':
        return api.int(name)
    return {'none': None, 'empty': '', 'false': False}[kind]


def none_or_int(api, name):
    return api.int(name) if api.choice(name + '_kind', ['int', 'none']) == 'int' else None


class Everything:
    """equals everything and counts as false"""
    __hash__ = object.__hash__

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __bool__(self):
        return False


class Nothing(Everything):
    """equals nothing, not even itself (like the number NaN)"""
    __hash__ = object.__hash__

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    def __bool__(self):
        return True


class Array(Everything):
    """compares element by element and has no truth value"""
    __hash__ = None

    def __eq__(self, other):
        return Array()

    __ne__ = __eq__

    def __bool__(self):
        raise ValueError('the truth value of an array is ambiguous')


ODD = [Everything, Nothing, Array]


def odd(api, name):
    """a new object that compares in an unusual way"""
    return ODD[api.choice(name + '_odd', list(range(len(ODD))))]()


def same(api, a, b):
    """value equality where both sides may be the MISS marker"""
    if a is MISS or b is MISS:
        return a is b
    return api.eq(a, b)


def other_process(api, modules):
    """Python's hash of text differs between processes: from now on hash() in the given modules depends on a salt.
    Gives a function that moves to another process (with an arbitrary other salt)."""
    import builtins
    import importlib
    salt = [0]

    def salted(x):
        if isinstance(x, str):
            return int.from_bytes(x.encode(), 'big') * 2 + salt[0]
        return builtins.hash(x)
    for m in modules:
        api.patch(importlib.import_module(m), 'hash', salted)

    def move():
        salt[0] = api.int('salt', 1, 6)
    return move
