"""A stand-in file system for code that writes, compares, moves and removes files.

In the explorer, everything below fs.root lives here: file contents may be symbolic text or Old (any contents at all: only whether they
equal the reference contents, whether they have its size, and their age are known, each a symbolic value), modification times are
symbolic integers.  os, os.path, filecmp, shutil and open of the modules under test are replaced; paths elsewhere go to the real ones.
In the replay the same calls run on a real scratch directory; only the clock is set from the solver's values.
"""
import builtins
import errno
import filecmp
import glob
import os
import shutil
import sys
import tempfile
import z3
from ..engine import Inconclusive
from . import load as _load
from .sym import mk, chs, same, ask, SymInt, SymStr

NATIVE = bool(os.environ.get('VT_NATIVE'))


class Old:
    """Contents of a file left by an earlier run: ref when eq holds, anything else otherwise."""
    def __init__(self, ref, eq, samesize):
        self.ref, self.eq, self.samesize = ref, eq, samesize

    def text(self):
        if ask(self.eq):
            return self.ref
        r = chs(self.ref)
        if r and ask(self.samesize):
            return mk(r[:-1] + ['\n' if r[-1] != '\n' else ' '])
        return mk(r + ['!'])


class Node:
    def __init__(self, content, mtime):
        self.content, self.mtime, self.written = content, mtime, False

    def text(self):
        return self.content.text() if isinstance(self.content, Old) else self.content


def equal(a, b):
    """Condition under which two nodes have the same contents."""
    if a is b:
        return True
    a, b = a.content, b.content
    if isinstance(b, Old):
        a, b = b, a
    if isinstance(a, Old) and not isinstance(b, Old) and ask(same(a.ref, b)):
        return a.eq
    t = [x.text() if isinstance(x, Old) else x for x in (a, b)]
    return same(t[0], t[1])


def same_size(a, b):
    a, b = a.content, b.content
    if isinstance(b, Old):
        a, b = b, a
    if isinstance(a, Old):
        if isinstance(b, Old):
            return len(chs(a.text())) == len(chs(b.text()))
        if len(chs(a.ref)) == len(chs(b)):
            return z3.Or(a.eq, a.samesize) if isinstance(a.eq, z3.ExprRef) or isinstance(a.samesize, z3.ExprRef) else (a.eq or a.samesize)
        return len(chs(a.text())) == len(chs(b))
    return len(chs(a)) == len(chs(b))


def _e(v):
    return v.e if isinstance(v, SymInt) else v


class Handle:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.name, self.mode, self.closed = fs, path, path, mode, False
        self.parts = []
        if 'w' in mode or 'x' in mode or 'a' in mode:
            old = fs.files.get(path)
            if 'x' in mode and old is not None:
                raise FileExistsError(errno.EEXIST, 'exists', path)
            if fs.isdir(path):
                raise IsADirectoryError(errno.EISDIR, 'is a directory', path)
            if not fs.isdir(os.path.dirname(path)):
                raise FileNotFoundError(errno.ENOENT, 'no directory', path)
            self.node = old or Node('', fs.now())
            self.parts = chs(old.text()) if old is not None and 'a' in mode else []
            self.node.written = True
            fs.files[path] = self.node
            self._sync()
        else:
            if path not in fs.files:
                raise FileNotFoundError(errno.ENOENT, 'no such file', path)
            self.node = fs.files[path]
            t = chs(self.node.text())
            self.lines, cur = [], []
            for c in t:
                cur.append(c)
                if c == '\n':
                    self.lines.append(mk(cur))
                    cur = []
            if cur:
                self.lines.append(mk(cur))
            self.pos = 0

    def _sync(self):
        self.node.content = mk(list(self.parts))
        self.node.mtime = self.fs.now()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        if not self.closed and 'r' not in self.mode:
            self._sync()
        self.closed = True

    def write(self, s):
        if isinstance(s, (bytes, bytearray)):
            s = s.decode('utf-8')
        self.parts += chs(s)
        return len(chs(s))

    def writelines(self, it):
        for s in it:
            self.write(s)

    def flush(self):
        pass

    def __iter__(self):
        return iter(self.lines)

    def readlines(self):
        return list(self.lines)

    def readline(self):
        self.pos += 1
        return self.lines[self.pos - 1] if self.pos <= len(self.lines) else ''

    def read(self, *a):
        t = self.node.text()
        return t.encode('utf-8') if 'b' in self.mode else t

    def fileno(self):
        raise OSError('no descriptor')


class Stat:
    def __init__(self, node):
        self.st_size = len(chs(node.text()))
        self.st_mtime = node.mtime
        self.st_mtime_ns = node.mtime


class Path:
    """os.path"""
    def __init__(self, fs):
        self._fs = fs

    def __getattr__(self, n):
        return getattr(os.path, n)

    def isfile(self, p):
        q = self._fs.own(p)
        return os.path.isfile(p) if q is None else q in self._fs.files

    def isdir(self, p):
        q = self._fs.own(p)
        return os.path.isdir(p) if q is None else self._fs.isdir(q)

    def exists(self, p):
        q = self._fs.own(p)
        return os.path.exists(p) if q is None else q in self._fs.files or self._fs.isdir(q)

    lexists = exists

    def islink(self, p):
        return os.path.islink(p) if self._fs.own(p) is None else False

    def abspath(self, p):
        return self._fs.abspath(p)

    realpath = abspath

    def relpath(self, p, start=None):
        return os.path.relpath(self._fs.abspath(p), self._fs.abspath(start if start is not None else '.'))

    def getsize(self, p):
        q = self._fs.own(p)
        return os.path.getsize(p) if q is None else len(chs(self._fs.node(q).text()))

    def getmtime(self, p):
        q = self._fs.own(p)
        return os.path.getmtime(p) if q is None else self._fs.node(q).mtime

    def samefile(self, a, b):
        return self._fs.abspath(a) == self._fs.abspath(b)


class Os:
    """os"""
    def __init__(self, fs):
        self._fs = fs
        self.path = Path(fs)

    def __getattr__(self, n):
        v = getattr(os, n)
        if callable(v) and n not in ('getenv', 'getpid', 'fspath', 'cpu_count'):
            def f(*a, **k):
                if any(isinstance(x, str) and self._fs.own(x) is not None for x in a):
                    raise Inconclusive('os.%s is not modelled' % n)
                return v(*a, **k)
            return f
        return v

    def getcwd(self):
        return self._fs.cwd

    def chdir(self, p):
        q = self._fs.abspath(p)
        if not self.path.isdir(q):
            raise FileNotFoundError(errno.ENOENT, 'no directory', p)
        self._fs.cwd = q

    def access(self, p, m):
        q = self._fs.own(p)
        return os.access(p, m) if q is None else self.path.exists(q)

    def listdir(self, p='.'):
        q = self._fs.own(p)
        if q is None:
            return os.listdir(p)
        if not self._fs.isdir(q):
            raise FileNotFoundError(errno.ENOENT, 'no directory', p)
        return self._fs.children(q)

    def stat(self, p):
        q = self._fs.own(p)
        return os.stat(p) if q is None else Stat(self._fs.node(q))

    def walk(self, top, topdown=True):
        q = self._fs.own(top)
        if q is None:
            yield from os.walk(top, topdown)
            return
        if not self._fs.isdir(q):
            return
        names = self._fs.children(q)
        ds = [n for n in names if self._fs.isdir(os.path.join(q, n))]
        fl = [n for n in names if os.path.join(q, n) in self._fs.files]
        if topdown:
            yield top, ds, fl
        for n in ds:
            yield from self.walk(os.path.join(top, n), topdown)
        if not topdown:
            yield top, ds, fl

    def remove(self, p):
        q = self._fs.own(p)
        if q is None:
            raise Inconclusive('removal outside the scratch tree: %s' % p)
        self._fs.node(q)
        del self._fs.files[q]

    unlink = remove

    def rename(self, a, b):
        qa, qb = self._fs.own(a), self._fs.own(b)
        if qa is None or qb is None:
            raise Inconclusive('rename outside the scratch tree: %s %s' % (a, b))
        if self._fs.isdir(qa):
            raise Inconclusive('renaming directories is not modelled')
        node = self._fs.node(qa)
        if self._fs.isdir(qb):
            raise IsADirectoryError(errno.EISDIR, 'is a directory', b)
        if not self._fs.isdir(os.path.dirname(qb)):
            raise FileNotFoundError(errno.ENOENT, 'no directory', b)
        if qa != qb:
            self._fs.files[qb] = node
            del self._fs.files[qa]

    replace = rename

    def mkdir(self, p, mode=0o777):
        q = self._fs.own(p)
        if q is None:
            raise Inconclusive('mkdir outside the scratch tree: %s' % p)
        if self.path.exists(q):
            raise FileExistsError(errno.EEXIST, 'exists', p)
        if not self._fs.isdir(os.path.dirname(q)):
            raise FileNotFoundError(errno.ENOENT, 'no directory', p)
        self._fs.dirs.add(q)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        q = self._fs.own(p)
        if q is None:
            raise Inconclusive('makedirs outside the scratch tree: %s' % p)
        if self.path.exists(q):
            if exist_ok and self._fs.isdir(q):
                return
            raise FileExistsError(errno.EEXIST, 'exists', p)
        if not self._fs.isdir(os.path.dirname(q)):
            self.makedirs(os.path.dirname(q))
        self._fs.dirs.add(q)

    def rmdir(self, p):
        q = self._fs.own(p)
        if q is None:
            raise Inconclusive('rmdir outside the scratch tree: %s' % p)
        if q not in self._fs.dirs:
            raise FileNotFoundError(errno.ENOENT, 'no directory', p)
        if self._fs.children(q):
            raise OSError(errno.ENOTEMPTY, 'not empty', p)
        self._fs.dirs.discard(q)

    def removedirs(self, p):
        self.rmdir(p)
        head, tail = os.path.split(p)
        if not tail:
            head, tail = os.path.split(head)
        while head and tail:
            try:
                self.rmdir(head)
            except (OSError, Inconclusive):
                break
            head, tail = os.path.split(head)


class Filecmp:
    def __init__(self, fs):
        self._fs = fs

    def __getattr__(self, n):
        raise Inconclusive('filecmp.%s is not modelled' % n)

    def clear_cache(self):
        pass

    def cmp(self, f1, f2, shallow=True):
        qa, qb = self._fs.own(f1), self._fs.own(f2)
        if qa is None or qb is None:
            return filecmp.cmp(f1, f2, shallow)
        a, b = self._fs.node(qa), self._fs.node(qb)
        if shallow and ask(same_size(a, b)):
            x, y = _e(a.mtime), _e(b.mtime)
            if ask(x == y if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef) else bool(x == y)):
                return True
        return ask(equal(a, b))


class Shutil:
    def __init__(self, fs):
        self._fs = fs

    def __getattr__(self, n):
        v = getattr(shutil, n)

        def f(*a, **k):
            if any(isinstance(x, str) and self._fs.own(x) is not None for x in a):
                raise Inconclusive('shutil.%s is not modelled' % n)
            return v(*a, **k)
        return f if callable(v) else v

    def move(self, a, b, copy_function=None):
        if self._fs.os.path.isdir(b):
            b = os.path.join(b, os.path.basename(a))
            if self._fs.os.path.exists(b):
                raise shutil.Error("Destination path '%s' already exists" % b)
        self._fs.os.rename(a, b)
        return b

    def _copy(self, a, b, keep):
        qa, qb = self._fs.own(a), self._fs.own(b)
        if qa is None or qb is None:
            raise Inconclusive('copy outside the scratch tree')
        if self._fs.isdir(qb):
            qb = os.path.join(qb, os.path.basename(qa))
        n = self._fs.node(qa)
        with Handle(self._fs, qb, 'w') as h:
            h.parts = chs(n.text())
        if keep:
            self._fs.files[qb].mtime = n.mtime
        return b

    def copyfile(self, a, b):
        return self._copy(a, b, False)

    def copy(self, a, b):
        return self._copy(a, b, False)

    def copy2(self, a, b):
        return self._copy(a, b, True)

    def rmtree(self, p, ignore_errors=False, onerror=None):
        q = self._fs.own(p)
        if q is None:
            raise Inconclusive('rmtree outside the scratch tree: %s' % p)
        if q not in self._fs.dirs:
            if ignore_errors:
                return
            raise FileNotFoundError(errno.ENOENT, 'no directory', p)
        for f in list(self._fs.files):
            if f.startswith(q + '/'):
                del self._fs.files[f]
        for d in list(self._fs.dirs):
            if d == q or d.startswith(q + '/'):
                self._fs.dirs.discard(d)


def _modules():
    for m in list(sys.modules.values()):
        f = getattr(m, '__file__', None)
        if f and f.startswith(_load.SCRIPTS):
            yield m


class FS:
    """with FS(clock) as fs: ...  clock: the modification time files written now get (one symbolic value per tick)."""
    def __init__(self, clock=(0,), root='/vtfs'):
        self.clock = list(clock)
        self.tick = 0
        self.files, self.dirs = {}, set()
        self.root = tempfile.mkdtemp(prefix='vtfs') if NATIVE else root
        self.dirs.add(self.root)
        self.cwd = self.root
        self.os = Os(self)
        self.given = {}
        self.kept = []

    # ---- used by the stand-ins
    def abspath(self, p):
        if type(p) is SymStr:       # taken as normal
            return p if ask(same(mk(chs(p)[:1]), '/')) else mk(list(self.cwd) + ['/'] + chs(p))
        return os.path.normpath(p if os.path.isabs(p) else os.path.join(self.cwd, p))

    def own(self, p):
        if isinstance(p, int):
            return None
        q = self.abspath(os.fspath(p))
        return q if q == self.root or q.startswith(self.root + '/') else None

    def isdir(self, q):
        return q in self.dirs

    def children(self, q):
        return [os.path.basename(x) for x in list(self.dirs) + list(self.files) if os.path.dirname(x) == q and x != q]

    def node(self, q):
        if q not in self.files:
            if q in self.dirs:
                raise IsADirectoryError(errno.EISDIR, 'is a directory', q)
            raise FileNotFoundError(errno.ENOENT, 'no such file', q)
        return self.files[q]

    def now(self):
        return self.clock[min(self.tick, len(self.clock) - 1)]

    def open(self, name, mode='r', *a, **k):
        q = self.own(name) if isinstance(name, str) else None
        if q is None:
            if 'r' not in mode or '+' in mode:
                raise Inconclusive('writes outside the scratch tree: %s' % name)
            return builtins.open(name, mode, *a, **k)
        return Handle(self, q, mode)

    def _nopen(self, name, mode='r', *a, **k):
        """open() of the replay: the real one, with the solver's clock."""
        f = builtins.open(name, mode, *a, **k)
        if 'r' not in mode and isinstance(name, str) and os.path.abspath(name).startswith(self.root):
            ino = os.fstat(f.fileno()).st_ino
            self.kept.append(ino)
            path, close, t = os.path.abspath(name), f.close, self.now()

            class W:
                def __enter__(s):
                    return s

                def __exit__(s, *x):
                    s.close()

                def close(s):
                    close()
                    os.utime(path, (t, t))

                def __getattr__(s, n):
                    return getattr(f, n)
            return W()
        return f

    # ---- used by harnesses
    def path(self, rel):
        return os.path.join(self.root, rel) if rel else self.root

    def mkdir(self, rel):
        if NATIVE:
            os.makedirs(self.path(rel), exist_ok=True)
        else:
            self.os.makedirs(self.path(rel), exist_ok=True)

    def put(self, rel, content, mtime):
        if NATIVE:
            t = content.text() if isinstance(content, Old) else content
            with builtins.open(self.path(rel), 'w', newline='') as f:
                f.write(t)
            os.utime(self.path(rel), (mtime, mtime))
            self.given[rel] = os.stat(self.path(rel)).st_ino
        else:
            self.given[rel] = self.files[self.path(rel)] = Node(content, mtime)

    def names(self):
        if NATIVE:
            return sorted(os.path.relpath(os.path.join(r, f), self.root) for r, _, fl in os.walk(self.root) for f in fl)
        return sorted(os.path.relpath(f, self.root) for f in self.files)

    def folders(self):
        if NATIVE:
            return sorted(os.path.relpath(os.path.join(r, d), self.root) for r, ds, _ in os.walk(self.root) for d in ds)
        return sorted(os.path.relpath(d, self.root) for d in self.dirs if d != self.root)

    def text(self, rel):
        if NATIVE:
            with builtins.open(self.path(rel), newline='') as f:
                return f.read()
        return self.files[self.path(rel)].text()

    def holds(self, rel, want):
        """Condition: the file is there with these contents."""
        if rel not in self.names():
            return False
        if NATIVE:
            return self.text(rel) == want
        return equal(self.files[self.path(rel)], Node(want, 0))

    def untouched(self, rel):
        """The file put there is still the same one and has not been written to."""
        if rel not in self.names():
            return False
        if NATIVE:
            i = os.stat(self.path(rel)).st_ino
            return i == self.given[rel] and i not in self.kept
        n = self.files[self.path(rel)]
        return n is self.given[rel] and not n.written

    def __enter__(self):
        self.saved = []
        table = {} if NATIVE else {id(os): self.os, id(filecmp): Filecmp(self), id(shutil): Shutil(self), id(os.path): self.os.path}
        for m in _modules():
            d = m.__dict__
            for n, v in list(d.items()):
                if id(v) in table:
                    self.saved.append((d, n, v))
                    d[n] = table[id(v)]
            self.saved.append((d, 'open', d.get('open')))
            d['open'] = self._nopen if NATIVE else self.open
        if NATIVE:
            filecmp.clear_cache()
            self.cwd0 = os.getcwd()
            os.chdir(self.root)
        return self

    def __exit__(self, *a):
        for d, n, v in self.saved:
            if v is None:
                d.pop(n, None)
            else:
                d[n] = v
        if NATIVE:
            os.chdir(self.cwd0)
            shutil.rmtree(self.root, ignore_errors=True)
        return False
