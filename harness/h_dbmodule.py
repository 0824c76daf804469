"""C11: files of a database module."""
import ast

from sx.registry import harness, product
from sx.api_conc import attempt
from harness.world import World, lookup, same_tree, without

MODS = ['citrine.cluster_tools.dbmodule.dbmodule']


def name_of(api, label, n):
    """a file name of n printable ASCII characters"""
    s = api.str(label, n, 33, 126)
    api.assume(api.not_('/' in s))
    if n <= 2:
        api.assume(api.not_(s == '.' * n))
    return s


def flags(api, text):
    """module level assignments of constants"""
    if not hasattr(text, 'encode') or type(text) is not str:
        out = {}
        for line in text.split('\n'):
            for k in ('DB_MODULE', 'DISCOVERABLE'):
                for v in (True, False):
                    if line == '%s = %s' % (k, v):
                        out[k] = v
        return out
    out = {}
    for st in ast.parse(text).body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = st.value.value
    return out


FORMS = ['abs', 'abs/', 'rel', './rel', 'rel/', '..', '.', 'default']


def place(api, w, form, base):
    """the path argument naming the directory base/ below the world's top"""
    if form in ('.', 'default'):
        return w.top, ('.' if form == '.' else None)
    b = w.top + '/' + base
    w.dir(b)
    return b, {'abs': b, 'abs/': b + '/', 'rel': base, './rel': './' + base, 'rel/': base + '/',
               '..': '../top/' + base}[form]


def furnish(api, w, b, name, kind, n):
    """what the base directory holds before"""
    sib = name_of(api, 'sib', n)
    api.assume(api.not_(sib == name))
    w.dir(b + '/' + sib)
    w.file(b + '/' + sib + '/__init__.py', 'other init')
    w.file(b + '/' + sib + '/' + sib, 'other db')
    if kind != 'absent':
        m = b + '/' + name
        if kind == 'file':
            w.file(m, 'a file')
        else:
            w.dir(m)
        if kind == 'module':
            w.file(m + '/__init__.py', 'old init')
            w.file(m + '/' + name, 'old db')
            w.file(m + '/' + name + '.index', 'old index')
    return sib


@harness('C11', shards=product(form=FORMS, kind=['absent', 'empty', 'module', 'file'], n=[1, 2]),
         thorough=product(form=FORMS, kind=['absent', 'empty', 'module', 'file'], n=[1, 2, 3, 4]),
         bounds='module and sibling names of 1-2 (thorough 4) printable characters, the directory given in eight ways', modules=MODS)
def h_create(api, form, kind, n):
    from citrine.cluster_tools.dbmodule import dbmodule
    w = World(api, MODS)
    name = name_of(api, 'name', n)
    b, arg = place(api, w, form, 'base')
    sib = furnish(api, w, b, name, kind, n)
    before = w.snapshot(w.outside)
    base_before = w.snapshot(b)
    kw = {}
    if arg is not None:
        kw['path'] = arg
    disc = api.choice('discoverable', [True, False, None])
    over = api.choice('overwrite', [False, True, None])
    if disc is not None:
        kw['discoverable'] = disc
    if over is not None:
        kw['overwrite'] = over
    if kind == 'file' and over:
        return                                  # a file in the way: not specified
    with w:
        r = attempt(lambda: dbmodule.create_dbmodule(name=name, **kw), OSError)
    if kind != 'absent' and not over:
        api.check(r[0] == 'exc', 'an existing path is refused')
        api.check(same_tree(api, before, w.snapshot(w.outside)), 'nothing is changed when refused')
        return
    api.check(r[0] == 'ok', 'created')
    api.check(api.eq(w.abspath(r[1]), b + '/' + name), 'returns the path of the module')
    snap = w.snapshot(b)
    api.check(same_tree(api, without(base_before, name), without(snap, name)), 'other modules are untouched')
    mod = lookup(snap, name)
    api.check(mod is not None and mod[0] == 'dir', 'the module is a directory')
    api.check(len(mod[1]) == 1, 'the directory holds the init file only')
    init = lookup(mod, '__init__.py')
    api.check(init is not None and init[0] == 'file', 'the directory holds the init file')
    f = flags(api, init[1])
    api.check(f.get('DB_MODULE') is True, 'marked as database module')
    api.check(f.get('DISCOVERABLE') is (disc is not False), 'discoverable as requested')


@harness('C11', shards=product(given=['none', 'empty']), bounds='no name given, twice', modules=MODS)
def h_create_unnamed(api, given):
    from citrine.cluster_tools.dbmodule import dbmodule
    w = World(api, MODS)
    sib = name_of(api, 'sib', 2)
    w.dir(w.top + '/' + sib)
    kw = {} if given == 'none' else {'name': ''}
    with w:
        a = dbmodule.create_dbmodule(w.top, **kw)
        b = dbmodule.create_dbmodule(w.top, **kw)
    api.check(api.not_(a == b), 'every unnamed module gets a name of its own')
    snap = w.snapshot(w.top)
    api.check(len(snap[1]) == 3, 'two modules beside what was there')
    for p in (a, b):
        api.check(p.startswith(w.top + '/') and p[len(w.top) + 1:].isidentifier() or
                  p[len(w.top) + 1:].replace('_', '').isalnum(), 'usable name')
        api.check(len(lookup(snap, p[len(w.top) + 1:])[1]) == 1, 'created')


def own(api, name, entry):
    """the files that make up the module"""
    return api.or_(entry == name, entry.startswith(name + '.'), entry == '__init__.py')


def entries(api, w, m, lens, init):
    got = []
    if init:
        w.file(m + '/__init__.py', 'init')
        got.append(('__init__.py', 'file'))
    for i, k in enumerate(lens):
        e = name_of(api, 'e%d' % i, k)
        for g, _ in got:
            api.assume(api.not_(g == e))
        kind = api.choice('kind%d' % i, ['file', 'dir', 'full'])
        if kind == 'file':
            w.file(m + '/' + e, 'data %d' % i)
        else:
            w.dir(m + '/' + e)
            if kind == 'full':
                w.file(m + '/' + e + '/x', 'inner')
        got.append((e, kind))
    return got


DFORMS = ['abs', 'abs/', 'rel', './rel', 'rel/', '.', '..']


@harness('C11', shards=product(n=[1, 2], lens=[(), (1,), (3,), (2, 3), (4,)], form=['abs', 'rel/'], init=[True, False]) +
         product(n=[1], lens=[(1, 3)], form=DFORMS, init=[True]) +
         product(n=[1], lens=[(), (1,)], form=['abs', 'rel/'], init=[True, False], alone=[True]),
         thorough=product(n=[1, 2, 3], lens=[(), (1,), (2,), (3,), (4,), (5,), (1, 2), (2, 3), (1, 3), (3, 3), (4, 4)],
                          form=DFORMS, init=[True, False]) +
         product(n=[1, 2], lens=[(), (1,), (3,), (1, 2)], form=DFORMS[:5], init=[True, False], alone=[True]),
         bounds='module names of 1-2 (3) characters, up to two further files or directories with names of 1-4 (5) '
                'arbitrary characters, the path given in seven ways', modules=MODS)
def h_delete(api, n, lens, form, init, alone=False):
    from citrine.cluster_tools.dbmodule import dbmodule
    w = World(api, MODS)
    name = name_of(api, 'name', n)
    if form in ('.', '..'):
        # the module is the current directory (or named from inside it)
        name = 'top'
        b, m = w.top[:-4], w.top
        arg = '.' if form == '.' else '../top'
    else:
        b = w.top + '/base'
        w.dir(b)
        m = b + '/' + name
        w.dir(m)
        rel = 'base/' + name
        arg = {'abs': m, 'abs/': m + '/', 'rel': rel, './rel': './' + rel, 'rel/': rel + '/'}[form]
        if not alone:
            sib = name_of(api, 'sib', n)
            api.assume(api.not_(sib == name))
            w.dir(b + '/' + sib)
            w.file(b + '/' + sib + '/__init__.py', 'other init')
            w.file(b + '/' + sib + '/' + sib, 'other db')
    got = entries(api, w, m, lens, init)
    if init and len(lens) < 2:
        # compiled code, left by an import of the module
        w.dir(m + '/__pycache__')
        w.file(m + '/__pycache__/__init__.cpython-312.pyc', 'code')
    if form in ('.', '..'):
        remove_empty = False
    else:
        remove_empty = api.choice('remove_empty', [True, False, None])
    remove_all = False if form in ('.', '..') else api.choice('remove_all', [True, False, None])
    kw = {}
    if remove_empty is not None:
        kw['remove_empty'] = remove_empty
    if remove_all is not None:
        kw['remove_all'] = remove_all
    base_before = w.snapshot(b)
    top_before = without(w.snapshot(w.top), 'base') if form not in ('.', '..') else None
    before = w.snapshot(m)
    with w:
        dbmodule.delete_dbmodule(arg, **kw)
    last = m[len(b) + 1:]
    api.check(same_tree(api, without(base_before, last), without(w.snapshot(b), last)),
              'nothing outside of the module is touched')
    if top_before is not None:
        api.check(same_tree(api, top_before, without(w.snapshot(w.top), 'base')), 'nothing above is touched')
    after = w.snapshot(m)
    if remove_all:
        api.check(after is None, 'the whole directory is removed')
        return
    left = [(e, k) for e, k in got if not (k == 'file' and own(api, name, e))]
    if not left and remove_empty is not False:
        api.check(after is None, 'the empty directory is removed')
        return
    api.check(after is not None, 'the directory is kept')
    api.check(len(after[1]) == len(left), 'exactly the files of the module are deleted')
    for e, k in left:
        s = lookup(after, e)
        api.check(s is not None and same_tree(api, s, lookup(before, e)), 'other files are kept')


@harness('C11', shards=product(count=[3, 9, 25], n=[1, 2], kind=['file', 'dir']),
         bounds='module names of 1-2 characters, up to 25 further files or directories whose names share an arbitrary first character',
         modules=MODS)
def h_delete_many(api, count, n, kind):
    from citrine.cluster_tools.dbmodule import dbmodule
    w = World(api, MODS)
    name, first = name_of(api, 'name', n), api.str('first', 1, 33, 126)
    api.assume(api.not_(api.or_(first == '/', first == '.')))
    m = w.top + '/' + name
    w.dir(m)
    others = [first + 'other%02d' % i for i in range(count)]
    for other in others:
        w.file(m + '/' + other, 'mine') if kind == 'file' else w.dir(m + '/' + other)
    db = [name, name + '.index', name + '.tmp', name + '.lock', name + '.old']
    for file in db:
        w.file(m + '/' + file, 'db')
    w.file(m + '/__init__.py', 'init')
    with w:
        dbmodule.delete_dbmodule(m)
    after = w.snapshot(m)
    api.check(after is not None, 'the directory is kept')
    api.check(len(after[1]) == count, 'exactly the files of the module are deleted')
    for other in others:
        api.check(lookup(after, other) is not None, 'other files are kept')


@harness('C11', shards=product(n=[1, 2], over=[True, False]), thorough=product(n=[1, 2, 3], over=[True, False]),
         bounds='two modules with arbitrary names of 1-2 (3) characters created, one replaced or deleted', modules=MODS)
def h_lifecycle(api, n, over):
    """create, create, delete/replace, create again"""
    from citrine.cluster_tools.dbmodule import dbmodule
    w = World(api, MODS)
    a, b = name_of(api, 'a', n), name_of(api, 'b', n)
    with w:
        dbmodule.create_dbmodule(w.top, a)
        r = attempt(lambda: dbmodule.create_dbmodule(w.top, b, discoverable=False), OSError)
    if a == b:
        api.check(r[0] == 'exc', 'a name is used once')
        return
    api.check(r[0] == 'ok', 'both created')
    two = w.snapshot(w.top)
    api.check(len(two[1]) == 2, 'both created')
    pick, other = (a, b) if api.bool('first') else (b, a)
    w.file(w.top + '/' + pick + '/' + pick, 'data')
    w.file(w.top + '/' + other + '/' + other, 'other data')
    keep = lookup(w.snapshot(w.top), other)
    with w:
        if over:
            dbmodule.create_dbmodule(w.top, pick, overwrite=True)
        else:
            dbmodule.DbModule.destroy(w.top + '/' + pick)
    after = w.snapshot(w.top)
    api.check(same_tree(api, lookup(after, other), keep), 'the other module is untouched')
    if over:
        f = flags(api, lookup(lookup(after, pick), '__init__.py')[1])
        api.check(f.get('DB_MODULE') is True and f.get('DISCOVERABLE') is True, 'replaced')
        api.check(lookup(lookup(after, pick), pick) is None, 'old data is gone')
    else:
        api.check(lookup(after, pick) is None and len(after[1]) == 1, 'destroyed')
        with w:
            dbmodule.create_dbmodule(w.top, pick)
        api.check(lookup(w.snapshot(w.top), pick) is not None, 'created again')
