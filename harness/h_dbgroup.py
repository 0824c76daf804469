"""C15: groups of database modules (real files in a scratch directory)."""
import os

from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import RefMap, MISS, same
from harness.world import World

MODS = ['citrine.cluster_tools.dbmodule.dbmodule', 'citrine.cluster_tools.dbmodule.dbgroup']


def key(api, name, n=1):
    """one of six ids (the routing of arbitrary ids is C01's subject)"""
    return api.str(name, 1, 97, 102)


def world(api):
    w = World(api, MODS, real=True)
    api.check(w.top.endswith('/t/u/top'), 'scratch directory')
    w.dir(w.top + '/g')
    return w, w.top + '/g'


def close(g):
    for m in g.modules.values():
        m.db.close()


def put(api, g, refs, name, k, v):
    conn = g.modules[name].open()
    conn.update(k, v)
    conn.close()
    refs[name].put(k, v)


def agrees(api, g, refs, msg, probe=None):
    """the group holds exactly the modules of refs, each its own objects"""
    api.check(sorted(g.modules) == sorted(refs), msg + ': exactly the modules')
    api.check(sorted(g.databases) == sorted(refs), msg + ': a database for each module')
    total = 0
    for name, m in refs.items():
        mod = g.modules[name]
        api.check(mod.name == name and g.databases[name] is mod.db and mod() is mod.db, msg + ': own database')
        conn = mod.open()
        for k, v in m.d:
            api.check(same(api, conn.read(k, MISS), v), msg + ': objects of the module')
        if probe is not None:
            api.check(same(api, conn.read(probe, MISS), m.get(probe, MISS)), msg + ': only objects of the module')
        conn.close()
        api.check(mod.size == len(m), msg + ': number of objects of the module')
        total = total + len(m)
    api.check(g.size == total, msg + ': number of objects')


def on_disk(root, name):
    d = root + '/' + name
    return os.path.isfile(d + '/__init__.py') and os.path.isfile(d + '/' + name)


@harness('C15', shards=product(n=[1, 2], form=['abs', 'rel', '.']), thorough=product(n=[1, 2, 3], form=['abs', 'rel', '.']),
         bounds='1-2 (3) modules with fixed names, ids from a set of six and unbounded integer objects, any module destroyed; '
                'the root given in three ways', modules=MODS)
def h_group(api, n, form):
    from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
    w, root = world(api)
    if form == '.':
        os.chdir(root)
    arg = {'abs': root, 'rel': 'g', '.': '.'}[form]
    names = ['alpha', 'alphabet', 'b'][:n]
    with w:
        g = DbGroup() if form == '.' else DbGroup(arg)
        api.check(len(g.modules) == 0 and g.size == 0, 'empty at first')
        refs = {}
        for name in names:
            m = g.create_dbmodule(name)
            refs[name] = RefMap()
            api.check(m is g.modules[name] and os.path.abspath(m.path) == root + '/' + name, 'the new module')
            api.check(on_disk(root, name), 'below the root')
        agrees(api, g, refs, 'created')
        k, k2 = key(api, 'k', 1), key(api, 'k2', 1)
        put(api, g, refs, names[0], k, api.int('v'))
        put(api, g, refs, names[-1], k2, api.int('v2'))
        agrees(api, g, refs, 'filled', k)
        put(api, g, refs, names[0], key(api, 'k3', 1), api.int('v3'))
        agrees(api, g, refs, 'filled again')
        gone = api.choice('gone', names)
        r = attempt(lambda: g.create_dbmodule(gone), OSError)
        api.check(r[0] == 'exc', 'an existing module is not replaced')
        agrees(api, g, refs, 'refused')
        g.modules[gone].db.close()
        g.destroy_dbmodule(gone)
        del refs[gone]
        api.check(not os.path.exists(root + '/' + gone), 'gone from the disk')
        agrees(api, g, refs, 'destroyed', k2)
        close(g)
        g = DbGroup(arg)
        agrees(api, g, refs, 'discovered', k)
        g.create_dbmodule(gone)
        refs[gone] = RefMap()
        agrees(api, g, refs, 'created again')
        close(g)


@harness('C15', shards=product(names=[('a', 'ab')]), thorough=product(names=[('a', 'ab'), ('ab', 'a'), ('x', 'x_1', 'y')]),
         bounds='modules with objects, one replaced, everything else kept', modules=MODS)
def h_overwrite(api, names):
    from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
    w, root = world(api)
    with w:
        g = DbGroup(root)
        refs = {}
        for i, name in enumerate(names):
            g.create_dbmodule(name)
            refs[name] = RefMap()
            put(api, g, refs, name, key(api, 'k%d' % i, 1), api.int('v%d' % i))
        pick = api.choice('pick', list(names))
        g.modules[pick].db.close()
        g.create_dbmodule(pick, overwrite=True)
        refs[pick] = RefMap()
        agrees(api, g, refs, 'replaced', key(api, 'p', 1))
        close(g)
        g = DbGroup(root)
        agrees(api, g, refs, 'discovered')
        close(g)


KINDS = ['none', 'module', 'hidden', 'plain', 'noinit', 'package', 'broken', 'false', 'file']


def furnish(w, root, name, kind):
    from citrine.cluster_tools.dbmodule.dbmodule import create_dbmodule
    p = root + '/' + name
    if kind in ('module', 'hidden'):
        create_dbmodule(root, name, discoverable=kind == 'module')
    elif kind == 'file':
        w.file(p, 'DB_MODULE = True')
    elif kind != 'none':
        w.dir(p)
        if kind == 'noinit':
            w.file(p + '/' + name, 'x')
        elif kind == 'package':
            w.file(p + '/__init__.py', 'X = 1\n')
        elif kind == 'broken':
            w.file(p + '/__init__.py', 'DB_MODULE = True\nraise RuntimeError()\n')
        elif kind == 'false':
            w.file(p + '/__init__.py', 'DB_MODULE = False\n')


@harness('C15', shards=product(first=KINDS), thorough=product(first=KINDS, third=[True]),
         bounds='two (three) entries of the root directory, each any of nine kinds (hidden modules not specified)', modules=MODS)
def h_discover(api, first, third=False):
    from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
    from citrine.cluster_tools.dbmodule.dbmodule import find_dbmodules, DbModule, import_db
    w, root = world(api)
    kinds = {'one': first, 'two': api.choice('two', KINDS)}
    if third:
        kinds['three'] = api.choice('three', KINDS)
    with w:
        for name, kind in kinds.items():
            furnish(w, root, name, kind)
        want = sorted(n for n, k in kinds.items() if k == 'module')
        seen = sorted(os.path.abspath(p) for p in find_dbmodules(root))
        hidden = [root + '/' + n for n, k in kinds.items() if k == 'hidden']
        api.check([p for p in seen if p not in hidden] == [root + '/' + n for n in want], 'finds exactly the modules')
        off = DbGroup(root, discovery=False)
        api.check(len(off.modules) == 0 and off.databases == {}, 'nothing without discovery')
        g = DbGroup(root)
        refs = {n: RefMap() for n in want}
        for n in list(g.modules):
            if kinds.get(n) == 'hidden':
                refs[n] = RefMap()
        agrees(api, g, refs, 'discovered')
        for name, kind in kinds.items():
            if kind in ('none', 'noinit', 'file'):
                r = attempt(lambda: import_db(root + '/' + name), OSError)
                api.check(r[0] == 'exc', 'no database to import')
            if kind == 'none':
                r = attempt(lambda: DbModule(root + '/' + name), FileNotFoundError)
                api.check(r[0] == 'exc', 'no module to open')
        close(g)


@harness('C15', shards=product(discovery=[True, False], clash=[True, False]),
         bounds='modules given explicitly, with or without discovery and name clash', modules=MODS)
def h_given(api, discovery, clash):
    from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
    from citrine.cluster_tools.dbmodule.dbmodule import DbModule
    w, root = world(api)
    w.dir(w.top + '/h')
    with w:
        inside = DbModule.create(root, 'inside')
        inside.db.close()
        given = DbModule.create(w.top + '/h', 'inside' if clash else 'outside')
        mods = {given.name: given}
        g = DbGroup(root, discovery=discovery, modules=mods)
        k, v = key(api, 'k', 1), api.int('v')
        refs = {given.name: RefMap()}
        if discovery:
            refs['inside'] = RefMap()
        api.check(g.modules[given.name] is given, 'the given module')
        put(api, g, refs, given.name, k, v)
        agrees(api, g, refs, 'given', k)
        given.db.close()
        if discovery and not clash:
            g.modules['inside'].db.close()
        r = attempt(lambda: setattr(given, 'path', root), AttributeError)
        api.check(r[0] == 'exc' and given.path == w.top + '/h/' + given.name, 'the path of a module is fixed')
