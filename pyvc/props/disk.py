"""A file that is stored and loaded with pickle, and the operations on it.

One file is of interest, the target; what else there is are files that the code
makes itself.  Every operation can fail with an exception of a given class, and
after every operation the target must be whole: a process that dies there leaves
the files as they are then."""
import builtins
import os
import pickle
import posixpath
import shutil
import tempfile
import z3
import lockfile
from lockfile.linklockfile import LinkLockFile
from .. import core, ops, models
from ..core import *
from ..interp import ModelMethod

S = z3.StringSort()

TRUSTED_DISK = [
    'os.rename and os.replace replace the target in one step; shutil.move does os.rename, and copies the file if that raises OSError; open for writing empties a file; '
    'what is written to a file is in it, completely, when the file is closed or flushed',
    'lockfile: a FileLock on a path excludes any other on that path from __enter__ or acquire() to __exit__ or release(); it is not taken if acquire() raises',
    'tempfile makes a new file in the directory it is given',
    'pickle.load of what pickle.dump wrote makes an object of the same class, without calling __init__, and gives its __setstate__ a copy of '
    'what __getstate__ gave; records of words are copied by their own __getstate__ and __setstate__ (proved: "a record")',
]
ASSUMPTIONS_DISK = [
    'the directory of the file exists and can be written; nobody else changes the file without holding its lock; the file is no symbolic link',
    'a crash is the end of the process: what was written before is kept by the operating system in the order of the calls (no power failure)',
]

dirname_ = z3.Function('dirname', S, S)
abspath_ = z3.Function('abspath', S, S)
realpath_ = z3.Function('realpath', S, S)
basename_ = z3.Function('basename', S, S)

ABSENT, PART, OLD = ('absent',), ('part',), ('old',)


class Data(Ext):
    """A pickle of a value."""
    def __init__(self, content):
        super().__init__('pickled data')
        self.content = content


class Handle(Ext):
    def __init__(self, disk, key, mode, delete=False, name=None):
        super().__init__('open file')
        self.disk, self.key, self.mode, self.delete, self.name = disk, key, mode, delete, name
        self.closed, self.buffer = False, None
        self.fields = {}
    def a_name(self, interp): return self.name
    def a_closed(self, interp): return self.closed
    def m___enter__(self, interp, a, kw): return self
    def m___exit__(self, interp, a, kw): self.m_close(interp, [], {})
    def m_close(self, interp, a, kw):
        if self.closed: return
        self.closed = True
        try:
            if self.buffer is not None: self.m_flush(interp, [], {})
        finally:
            if self.delete: self.disk.set(self.key, ABSENT, 'close of a temporary file')
    def m_flush(self, interp, a, kw):
        if self.buffer is not None:
            self.disk.fault('flush')
            b, self.buffer = self.buffer, None
            self.disk.set(self.key, b, 'flush')
    def m_fileno(self, interp, a, kw): return 7
    def check(self, write):
        if self.closed: ops.raise_(ValueError, 'I/O operation on closed file')
        if write != self.writable(): raise Unsupported('file opened with mode %r' % self.mode)
        if 'b' not in self.mode: raise Unsupported('text file')
    def writable(self): return 'r' not in self.mode or '+' in self.mode
    def put(self, content):
        """Writes something: some of it may already be in the file."""
        self.check(True)
        before = self.disk.content[self.key]
        first = before == PART and self.buffer is None and not getattr(self, 'some', False)
        self.some = True
        self.disk.set(self.key, PART, 'write')
        self.disk.fault('write')
        self.buffer = content if first else PART
    def m_write(self, interp, a, kw):
        v = force(a[0])
        self.put(v.content if isinstance(v, Data) else PART)
        return None
    def get(self):
        self.check(False)
        self.disk.locked(self.key, 'read')
        self.disk.fault('read')
        return self.disk.content[self.key]
    def m_read(self, interp, a, kw):
        if a: raise Unsupported('part of a file')
        return Data(self.get())


class Lock(Ext):
    def __init__(self, disk, key):
        super().__init__('lock')
        self.disk, self.key = disk, key
    def m_acquire(self, interp, a, kw):
        self.disk.fault('lock')
        self.disk.locks.append(self.key)
    def m_release(self, interp, a, kw):
        if self.key not in self.disk.locks: ops.raise_(lockfile.NotLocked, 'not locked')
        self.disk.locks.remove(self.key)
    def m___enter__(self, interp, a, kw):
        self.m_acquire(interp, [], {})
        return self
    def m___exit__(self, interp, a, kw): self.m_release(interp, [], {})
    def m_is_locked(self, interp, a, kw): return self.key in self.disk.locks
    def m_i_am_locking(self, interp, a, kw): return self.key in self.disk.locks


class Disk:
    """`old`: what the target holds; `fault`: the class of the exception operations may raise."""
    def __init__(self, vc, old, fault, load=None):
        self.vc, self.faultclass, self.load_ = vc, fault, load
        self.path = z3.String('filename')
        self.names = {'target': [self.path, abspath_(self.path), realpath_(self.path)]}
        self.content = {'target': old}
        self.old = old
        self.new = []                # complete contents that a dump made
        self.locks = []
        self.ntemp = 0
        self.faults = 0
        i = vc.i
        m = i.models
        for f, h in ((posixpath.abspath, self.fn(abspath_)), (posixpath.realpath, self.fn(realpath_)), (posixpath.dirname, self.dirname), (posixpath.basename, self.fn(basename_)),
                     (posixpath.join, self.join), (posixpath.exists, self.exists), (posixpath.isfile, self.exists), (posixpath.lexists, self.exists), (os.remove, self.remove), (os.unlink, self.remove),
                     (os.replace, self.rename), (os.rename, self.rename), (shutil.move, self.move), (shutil.copyfile, self.copy), (shutil.copy, self.copy), (shutil.copy2, self.copy),
                     (builtins.open, self.open), (tempfile.NamedTemporaryFile, self.tempfile), (tempfile.mkstemp, self.mkstemp), (tempfile.gettempdir, lambda interp, a, kw: SStr(z3.String('tempdir'), str)),
                     (os.fsync, self.nothing), (os.fdopen, self.fdopen), (os.close, self.closefd), (os.chmod, self.nothing), (os.getpid, lambda interp, a, kw: SInt(z3.Int('pid'))),
                     (pickle.dump, self.dump), (pickle.dumps, self.dumps), (pickle.load, self.load), (pickle.loads, self.loads)):
            m[id(f)] = h
        i.classmodels[(LinkLockFile, '__new__')] = ModelMethod(self.lock)
        from sbclassifier import safepickle
        if id(safepickle.NamedTemporaryFile) not in m: raise Unsupported('temporary file')

    # faults and crashes
    def fault(self, what):
        if self.faultclass is None: return
        if core.cx().branch(core.cx().fresh('fails', z3.BoolSort())):
            self.faults += 1
            ops.raise_(self.faultclass, what)

    def nothing(self, interp, a, kw):
        self.fault('call')
        return None

    def ok(self): return self.content['target'] == self.old or self.content['target'] in self.new

    def set(self, key, content, what):
        if key == 'target': self.locked(key, what)
        self.content[key] = content
        self.vc.prove('a crash after "%s" leaves the file whole' % what, z3.BoolVal(self.ok()))

    def locked(self, key, what):
        if key == 'target': self.vc.prove('the lock is held at "%s"' % what, z3.BoolVal('target' in self.locks))

    # paths
    def text(self, v):
        v = force(v)
        if not (isinstance(v, str) or isinstance(v, SStr) and v.kind is str): raise Unsupported('path %r' % (v,))
        return ops.strterm(v)
    def fn(self, f):
        return lambda interp, a, kw: SStr(f(self.text(a[0])), str)
    def dirname(self, interp, a, kw): return SStr(dirname_(self.text(a[0])), str)
    def join(self, interp, a, kw): return SStr(z3.Concat(*[y for x in a for y in (self.text(x), z3.StringVal('/'))][:-1]), str)
    def dirs(self):
        return [dirname_(t) for t in self.names['target']]
    def here(self, t):
        """The path is in the directory of the target."""
        from .fslib import flat
        parts = flat(z3.simplify(t))
        if len(parts) > 1 and any(parts[0].eq(x) for x in self.names['target']):
            return not any(z3.is_string_value(p) and '/' in p.as_string() for p in parts[1:])
        if len(parts) > 2 and any(parts[0].eq(x) for x in self.dirs()): return True
        return any(t.eq(x) for x in self.names['target'])
    def key(self, v, make=False):
        t = self.text(v)
        for k, ns in self.names.items():
            if any(t.eq(x) for x in ns): return k
        for k, ns in self.names.items():
            if k != 'target' or not self.here(t):
                if k != 'target' and core.cx().branch(t == ns[0]): return k
        if not self.here(t) and core.cx().branch(t == self.path): return 'target'
        if not make: return None
        self.ntemp += 1
        k = 'file%d' % self.ntemp
        self.names[k] = [t]
        self.content[k] = ABSENT
        return k
    def near(self, k): return k == 'target' or any(self.here(t) for t in self.names[k])

    # operations
    def exists(self, interp, a, kw):
        k = self.key(a[0])
        if k is None: return SBool(core.cx().fresh('exists', z3.BoolSort()))
        return self.content[k] != ABSENT
    def remove(self, interp, a, kw):
        k = self.key(a[0])
        self.fault('remove')
        if k is None or self.content[k] == ABSENT: ops.raise_(FileNotFoundError, 'remove')
        self.set(k, ABSENT, 'remove')
    def rename(self, interp, a, kw):
        s, d = self.key(a[0] if a else kw['src']), self.key(a[1] if len(a) > 1 else kw['dst'], True)
        self.fault('rename')
        if s is None or self.content[s] == ABSENT: ops.raise_(FileNotFoundError, 'rename')
        if not (self.near(s) and self.near(d)) and core.cx().branch(z3.Bool('other filesystem')): ops.raise_(OSError, 'Invalid cross-device link')
        c = self.content[s]
        if s != d:
            if s == 'target':
                self.locked(s, 'rename')
                self.content[d] = c
                self.set(s, ABSENT, 'rename')
            else:
                self.content[s] = ABSENT
                self.set(d, c, 'rename')
    def move(self, interp, a, kw):
        """os.rename, and if that raises OSError for whatever reason, a copy."""
        try: return self.rename(interp, a, kw)
        except PyRaise as e:
            if not issubclass(e.exc.cls, OSError): raise
        s = self.key(a[0])
        self.copy(interp, a, kw)
        self.set(s, ABSENT, 'move')
    def copy(self, interp, a, kw):
        s, d = self.key(a[0]), self.key(a[1], True)
        if s is None or self.content[s] == ABSENT: ops.raise_(FileNotFoundError, 'copy')
        self.locked(s, 'copy')
        self.set(d, PART, 'copy')
        self.fault('copy')
        self.set(d, self.content[s], 'copy')
    def open(self, interp, a, kw):
        mode = force(a[1] if len(a) > 1 else kw.get('mode', 'r'))
        if not isinstance(mode, str): raise Unsupported('open')
        k = self.key(a[0], 'r' not in mode)
        self.fault('open')
        if k is None or (self.content[k] == ABSENT and 'r' in mode): ops.raise_(FileNotFoundError, 'open')
        if 'x' in mode and self.content[k] != ABSENT: ops.raise_(FileExistsError, 'open')
        if 'a' in mode or '+' in mode: raise Unsupported('open for %s' % mode)
        self.locked(k, 'open')
        if 'r' not in mode: self.set(k, PART, 'open for writing')
        return Handle(self, k, mode, name=a[0])
    def maketemp(self, a, kw, order):
        d = dict(zip(order, a), **kw)
        where = d.get('dir')
        mode = force(d.get('mode', 'w+b'))
        if 'b' not in mode or 'w' not in mode: raise Unsupported('temporary file with mode %r' % mode)
        self.fault('temporary file')
        cc = core.cx()
        name = cc.fresh('tempname', S)
        dt = self.text(where) if where is not None and not (isinstance(where, Data)) else z3.String('tempdir')
        t = z3.Concat(dt, z3.StringVal('/'), name)
        for ns in self.names.values():
            for x in ns: cc.assume(t != x)
        self.ntemp += 1
        k = 'temp%d' % self.ntemp
        self.names[k] = [t]
        self.content[k] = PART
        return k, SStr(t, str), d
    def tempfile(self, interp, a, kw):
        k, name, d = self.maketemp(a, kw, ('mode', 'buffering', 'encoding', 'newline', 'suffix', 'prefix', 'dir', 'delete'))
        delete = force(d.get('delete', True))
        return Handle(self, k, 'wb', delete=bool(delete), name=name)
    def mkstemp(self, interp, a, kw):
        k, name, d = self.maketemp(a, kw, ('suffix', 'prefix', 'dir', 'text'))
        return (Handle(self, k, 'wb', name=name), name)
    def fdopen(self, interp, a, kw):
        h = force(a[0])
        if not isinstance(h, Handle): raise Unsupported('os.fdopen')
        return h
    def closefd(self, interp, a, kw):
        h = force(a[0])
        if not isinstance(h, Handle): raise Unsupported('os.close')
        h.m_close(interp, [], {})
    def lock(self, interp, cls, a, kw):
        k = self.key(a[0] if a else kw['path'])
        return Lock(self, k if k is not None else 'something else')

    # pickle
    def made(self, v):
        c = ('new', self.freeze(v))
        return c
    def freeze(self, v): return v
    def dump(self, interp, a, kw):
        v, h = a[0], force(a[1] if len(a) > 1 else kw['file'])
        if not isinstance(h, Handle): raise Unsupported('dump to %r' % (h,))
        h.check(True)
        self.set(h.key, PART, 'write')
        self.fault('dump')
        c = self.made(v)
        h.put(c)
        if h.buffer == c and h.key != 'target': self.new.append(c)
        elif h.buffer == c: self.new.append(c)
    def dumps(self, interp, a, kw):
        self.fault('dumps')
        c = self.made(a[0])
        self.new.append(c)
        return Data(c)
    def load(self, interp, a, kw):
        h = force(a[0] if a else kw['file'])
        if not isinstance(h, Handle): raise Unsupported('load of %r' % (h,))
        return self.loaded(interp, h.get())
    def loads(self, interp, a, kw):
        d = force(a[0])
        if not isinstance(d, Data): raise Unsupported('loads of %r' % (d,))
        return self.loaded(interp, d.content)
    def loaded(self, interp, content):
        self.fault('load')
        if self.load_ is None: raise Unsupported('load')
        return self.load_(interp, content)
