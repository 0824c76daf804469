"""A file system with symbolic names.  While CURRENT is set, the file functions
called by instrumented code act on it instead of the real file system."""
import builtins
import errno
import io
import os
import shutil

from .core import Unsupported
from .instr import HANDLERS, anysym, normpath_model
from .strings import mk
from .values import is_sym

CURRENT = None


class Node:
    def __init__(self, kind, data=''):
        self.kind, self.data, self.entries = kind, data, []

    def find(self, name):
        for e in self.entries:
            if e[0] == name:
                return e
        return None


def err(cls, no, path):
    # the path may be symbolic: OSError keeps the arguments as they are
    return cls(no, os.strerror(no), path if not is_sym(path) else '<symbolic path>')


class VFile:
    def __init__(self, node, mode):
        self.node, self.mode, self.closed = node, mode, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def write(self, s):
        if not any(c in self.mode for c in 'wax+'):
            raise io.UnsupportedOperation('not writable')
        self.node.data = self.node.data + s
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def read(self):
        return self.node.data

    def flush(self):
        pass


class VFS:
    def __init__(self, cwd):
        self.root = Node('dir')
        self.cwd = cwd

    # -- paths
    def parts(self, path):
        if not isinstance(path, str):
            raise Unsupported('path %r' % type(path))
        if not path.startswith('/'):
            path = self.cwd + '/' + path
        p = normpath_model(path)
        return [c for c in p.split('/') if c != '']

    def get(self, path):
        n = self.root
        for c in self.parts(path):
            if n.kind != 'dir':
                return None
            e = n.find(c)
            if e is None:
                return None
            n = e[1]
        return n

    def need(self, path):
        n = self.get(path)
        if n is None:
            raise err(FileNotFoundError, errno.ENOENT, path)
        return n

    def parent(self, path):
        ps = self.parts(path)
        n = self.root
        for c in ps[:-1]:
            e = n.find(c)
            if e is None:
                raise err(FileNotFoundError, errno.ENOENT, path)
            n = e[1]
            if n.kind != 'dir':
                raise err(NotADirectoryError, errno.ENOTDIR, path)
        return n, ps[-1]

    # -- operations
    def exists(self, path):
        return self.get(path) is not None

    def isfile(self, path):
        n = self.get(path)
        return n is not None and n.kind == 'file'

    def isdir(self, path):
        n = self.get(path)
        return n is not None and n.kind == 'dir'

    def abspath(self, path):
        if not path.startswith('/'):
            path = self.cwd + '/' + path
        return normpath_model(path)

    def listdir(self, path='.'):
        n = self.need(path)
        if n.kind != 'dir':
            raise err(NotADirectoryError, errno.ENOTDIR, path)
        return [e[0] for e in n.entries]

    def mkdir(self, path, mode=0o777):
        p, name = self.parent(path)
        if p.find(name) is not None:
            raise err(FileExistsError, errno.EEXIST, path)
        p.entries.append([name, Node('dir')])

    def makedirs(self, path, mode=0o777, exist_ok=False):
        n = self.root
        ps = self.parts(path)
        for i, c in enumerate(ps):
            e = n.find(c)
            if e is None:
                n.entries.append([c, Node('dir')])
                e = n.entries[-1]
            elif e[1].kind != 'dir' or (i == len(ps) - 1 and not exist_ok):
                raise err(FileExistsError, errno.EEXIST, path)
            n = e[1]

    def remove(self, path):
        p, name = self.parent(path)
        e = p.find(name)
        if e is None:
            raise err(FileNotFoundError, errno.ENOENT, path)
        if e[1].kind == 'dir':
            raise err(IsADirectoryError, errno.EISDIR, path)
        p.entries = [x for x in p.entries if x is not e]

    def rmdir(self, path):
        p, name = self.parent(path)
        e = p.find(name)
        if e is None:
            raise err(FileNotFoundError, errno.ENOENT, path)
        if e[1].kind != 'dir':
            raise err(NotADirectoryError, errno.ENOTDIR, path)
        if e[1].entries:
            raise err(OSError, errno.ENOTEMPTY, path)
        p.entries = [x for x in p.entries if x is not e]

    def removedirs(self, path):
        self.rmdir(path)
        ps = self.parts(path)[:-1]
        while ps:
            try:
                self.rmdir('/' + '/'.join(ps))
            except OSError:
                return
            ps = ps[:-1]

    def rmtree(self, path, ignore_errors=False, onerror=None):
        p, name = self.parent(path)
        e = p.find(name)
        if e is None:
            if ignore_errors:
                return
            raise err(FileNotFoundError, errno.ENOENT, path)
        if e[1].kind != 'dir':
            raise err(NotADirectoryError, errno.ENOTDIR, path)
        p.entries = [x for x in p.entries if x is not e]

    def rename(self, src, dst):
        p, name = self.parent(src)
        e = p.find(name)
        if e is None:
            raise err(FileNotFoundError, errno.ENOENT, src)
        q, qname = self.parent(dst)
        f = q.find(qname)
        if f is not None:
            if f is e:
                return
            if f[1].kind == 'dir':
                raise Unsupported('rename onto a directory')
            q.entries = [x for x in q.entries if x is not f]
        p.entries = [x for x in p.entries if x is not e]
        q.entries.append([qname, e[1]])

    def open(self, path, mode='r', *a, **kw):
        if 'b' in mode:
            raise Unsupported('binary file')
        n = self.get(path)
        if n is not None and n.kind == 'dir':
            raise err(IsADirectoryError, errno.EISDIR, path)
        if 'r' in mode:
            if n is None:
                raise err(FileNotFoundError, errno.ENOENT, path)
            return VFile(n, mode)
        if n is None:
            p, name = self.parent(path)
            n = Node('file')
            p.entries.append([name, n])
        elif 'x' in mode:
            raise err(FileExistsError, errno.EEXIST, path)
        elif 'w' in mode:
            n.data = ''
        return VFile(n, mode)

    def walk(self, top, topdown=True, **kw):
        n = self.get(top)
        if n is None or n.kind != 'dir':
            return
        ds = [e[0] for e in n.entries if e[1].kind == 'dir']
        fs = [e[0] for e in n.entries if e[1].kind == 'file']
        if topdown:
            yield top, ds, fs
        for d in ds:
            yield from self.walk(top + '/' + d, topdown)
        if not topdown:
            yield top, ds, fs

    def scandir(self, path='.'):
        return DirIter([DirEntry(path, e) for e in self.need(path).entries])


class DirEntry:
    def __init__(self, path, e):
        self.name, self._n = e
        self.path = path + ('' if path.endswith('/') else '/') + self.name

    def is_file(self, **kw):
        return self._n.kind == 'file'

    def is_dir(self, **kw):
        return self._n.kind == 'dir'

    def is_symlink(self):
        return False


class DirIter(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _op(name):
    def h(f, a, kw):
        if CURRENT is None:
            return prev(f, a, kw) if prev else f(*a, **kw)
        return getattr(CURRENT, name)(*a, **kw)
    prev = None
    return h


def _refuse(what):
    def h(f, a, kw):
        if CURRENT is not None:
            raise Unsupported(what)
        return f(*a, **kw)
    return h


def install():
    table = {os.mkdir: 'mkdir', os.makedirs: 'makedirs', os.listdir: 'listdir', os.rmdir: 'rmdir',
             os.remove: 'remove', os.unlink: 'remove', os.path.exists: 'exists',
             os.path.lexists: 'exists', os.path.isfile: 'isfile', os.path.isdir: 'isdir',
             os.path.abspath: 'abspath', os.path.realpath: 'abspath', shutil.rmtree: 'rmtree',
             builtins.open: 'open', os.rename: 'rename', os.removedirs: 'removedirs', os.replace: 'rename',
             shutil.move: 'rename', os.walk: 'walk', os.scandir: 'scandir'}
    for f, name in table.items():
        HANDLERS[f] = _op(name)
    HANDLERS[os.getcwd] = lambda f, a, kw: CURRENT.cwd if CURRENT is not None else f()
    for f in (os.stat, os.lstat, os.access, os.chdir, shutil.copy, shutil.copytree,
              os.symlink, os.link, os.chmod, os.truncate, os.open):
        HANDLERS[f] = _refuse(f.__name__)
