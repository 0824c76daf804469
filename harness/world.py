"""A small world of files: symbolic names on sx.vfs, or a real scratch directory
(replay), where every destructive call outside the scratch directory is refused."""
import builtins
import os
import shutil
import sys
import tempfile


class Escape(Exception):
    """a destructive call outside of the scratch directory"""


class World:
    """self.top is an absolute directory; the current directory is self.top"""

    def __init__(self, api, modules=(), real=False):
        self.api = api
        self.real = real or api.concrete
        if self.real:
            self._real(modules)
        else:
            from sx import vfs
            self.v = vfs.VFS('/t/u/top')
            self.v.makedirs('/t/u/top')
            self.top = '/t/u/top'
            self.outside = '/t'

            def undo():
                vfs.CURRENT = None
            api.cleanup(undo)

    # the code under test only acts on the world inside a `with`
    def __enter__(self):
        if not self.real:
            from sx import vfs
            vfs.CURRENT = self.v
        else:
            self.armed = True
        return self

    def __exit__(self, *a):
        if not self.real:
            from sx import vfs
            vfs.CURRENT = None
        else:
            self.armed = False

    def _real(self, modules):
        api = self.api
        self.armed = False
        scratch = os.path.realpath(tempfile.mkdtemp(prefix='sxworld'))
        self.outside = scratch + '/t'
        self.top = scratch + '/t/u/top'
        os.makedirs(self.top)
        cwd = os.getcwd()
        os.chdir(self.top)

        def undo():
            os.chdir(cwd)
            shutil.rmtree(scratch, ignore_errors=True)
        api.cleanup(undo)
        inside = scratch + '/t/'

        def guarded(f, write=None):
            def g(path, *a, **kw):
                if self.armed and not kw.get('dir_fd') and isinstance(path, (str, bytes)) \
                        and (write is None or write(*a, **kw)):
                    if not (os.path.abspath(os.fsdecode(path)) + '/').startswith(inside):
                        raise Escape(os.path.abspath(os.fsdecode(path)))
                return f(path, *a, **kw)
            return g

        def writing(mode='r', *a, **kw):
            return any(c in str(mode) for c in 'wax+')
        subst = []
        for mod, name in ((os, 'mkdir'), (os, 'makedirs'), (os, 'rmdir'), (os, 'remove'), (os, 'unlink'),
                          (os, 'rename'), (os, 'replace'), (os, 'removedirs'), (shutil, 'rmtree'),
                          (shutil, 'move')):
            f = getattr(mod, name)
            subst.append((f, guarded(f)))
            api.patch(mod, name, subst[-1][1])
        subst.append((builtins.open, guarded(builtins.open, writing)))
        for m in modules:
            m = sys.modules.get(m) or __import__(m, fromlist=['x'])
            if 'open' not in vars(m):
                api.patch(m, 'open', subst[-1][1])
            for k, v in list(vars(m).items()):
                for f, g in subst:
                    if v is f:
                        api.patch(m, k, g)

    # -- building
    def dir(self, path):
        (os if self.real else self.v).mkdir(path)

    def file(self, path, text):
        with (open if self.real else self.v.open)(path, 'w') as w:
            w.write(text)

    # -- looking
    def snapshot(self, path):
        """None, ('file', text) or ('dir', [(name, snapshot), ...])"""
        if not self.real:
            n = self.v.get(path)
            return None if n is None else self._node(n)
        if not os.path.lexists(path):
            return None
        if os.path.isdir(path):
            return ('dir', [(n, self.snapshot(os.path.join(path, n))) for n in os.listdir(path)])
        with open(path) as r:
            return ('file', r.read())

    def _node(self, n):
        if n.kind == 'file':
            return ('file', n.data)
        return ('dir', [(name, self._node(m)) for name, m in n.entries])

    def abspath(self, path):
        if self.real:
            return os.path.abspath(path)
        return self.v.abspath(path)


def lookup(snap, name):
    for n, s in snap[1]:
        if n == name:
            return s
    return None


def same_tree(api, a, b):
    """formula: the two snapshots show the same files"""
    if a is None or b is None:
        return a is b
    if a[0] != b[0]:
        return False
    if a[0] == 'file':
        return api.eq(a[1], b[1])
    if len(a[1]) != len(b[1]):
        return False
    for name, s in a[1]:
        t = lookup(b, name)
        if t is None or not same_tree(api, s, t):
            return False
    return True


def without(snap, *names):
    return ('dir', [(n, s) for n, s in snap[1] if not any(n == x for x in names)])
