"""A directory of files, and the system calls on it.

The directory holds regular files (name -> content) and other entries.  A path
is the directory, '/', and a name; a name is plain if it is the name of an entry
that could be directly in the directory.  A system call on any other path is
outside: it is recorded and fails."""
import builtins
import fnmatch
import os
import posixpath
import shutil
import z3
from .. import core, ops
from ..core import *
from .lib import *

S = z3.StringSort()
SLASH = z3.StringVal('/')

TRUSTED_FS = [
    'os.listdir, os.path.isfile, os.path.join, os.path.basename, os.remove, os.stat, open: those of POSIX on a directory that '
    'exists; entries of a directory have names that are not empty, ".", ".." and have no "/"',
    'fnmatch.fnmatch(name, filter) depends on the name and the filter only',
    'Message.as_bytes() gives the bytes of a message and changes nothing; email.message_from_bytes() makes a message of bytes',
]
ASSUMPTIONS_FS = [
    'only the corpus changes files of its directory during one of its operations; one thread',
    'the directory is not named by the empty string or with a "/" at its end',
]


def plain(t):
    return z3.And(z3.Not(z3.Contains(t, SLASH)), *[t != z3.StringVal(x) for x in ('', '.', '..')])


bytes_of = z3.Function('bytes_of', Tok, Tok)      # what a message is as bytes
id_of = z3.Function('id_of', Tok, S)              # the ID of a message
cat_ = z3.Function('cat', Tok, Tok, Tok)


class FileMsg(Ext):
    """A message made of the content of a file."""
    def __init__(self, content, mid):
        from sbclassifier.message import Message
        super().__init__('filemsg')
        self.content, self.mid = content, mid
        self.pytype = Message
    def subst(self, pairs):
        return FileMsg(z3.substitute(self.content, *pairs), None if self.mid is None else z3.substitute(self.mid, *pairs))
    def m_id(self, interp, a, kw): return None if self.mid is None else SStr(self.mid, str)
    def m_as_bytes(self, interp, a, kw): raise Unsupported('bytes of a message read from a file')


class File(Ext):
    def __init__(self, fs, name, mode):
        super().__init__('file')
        self.fs, self.name, self.mode = fs, name, mode
        self.fields = {'closed': False, 'written': None}
    def m___enter__(self, interp, a, kw): return self
    def m___exit__(self, interp, a, kw): self.m_close(interp, [], {})
    def m_close(self, interp, a, kw):
        self.write('closed', True)
        self.fields['closed'] = True
    def m_flush(self, interp, a, kw): return None
    def m_read(self, interp, a, kw):
        if a or 'r' not in self.mode or 'b' not in self.mode: raise Unsupported('read')
        if self.fields['closed']: ops.raise_(ValueError, 'I/O operation on closed file')
        return self.fs.files.val(self.name)
    def m_write(self, interp, a, kw):
        if self.fields['closed']: ops.raise_(ValueError, 'I/O operation on closed file')
        v = force(a[0])
        if 'r' in self.mode: raise Unsupported('write')
        if 'b' not in self.mode: raise Unsupported('writing a text')
        if not isinstance(v, (STok, bytes)): raise Unsupported('writing %r' % (v,))
        t = keyterm(v) if isinstance(v, STok) else core.cx().tok_const(v)
        old = self.fields['written']
        self.write('written', None)
        self.fields['written'] = t if old is None else cat_(old, t)
        ops.dict_set(self.fs.files, SStr(self.name, str), STok(self.fields['written']))
        return None


class FS:
    def __init__(self, vc, faults=False):
        cx = vc.cx
        self.vc = vc
        cx.str_as_tok = False
        self.D = z3.String('directory')
        self.F = z3.String('filter')
        self.other = z3.Function('other', S, B)
        self.ctime = z3.Function('ctime', S, R)
        self.match = z3.Function('match', S, B)
        f0 = z3.Function('file0', S, B)
        c0 = z3.Function('content0', S, Tok)
        cx.add_fact(S, lambda t: z3.And(z3.Implies(f0(t), z3.And(plain(t), z3.Not(self.other(t)))), z3.Implies(self.other(t), plain(t))), 'entries')
        self.files = PyDict(dom=memo1(lambda t: f0(t)), val=memo1(lambda t: STok(c0(t))), site='files', sort=S)
        self.outside = []
        self.faults = faults
        m = vc.i.models
        for f, h in ((posixpath.join, self.join), (posixpath.basename, self.basename), (posixpath.isfile, self.isfile), (posixpath.exists, self.exists),
                     (posixpath.dirname, self.dirname), (os.listdir, self.listdir), (os.remove, self.remove), (os.replace, self.replace), (os.rename, self.replace), (shutil.move, self.replace), (os.unlink, self.remove), (os.stat, self.stat),
                     (os.path.getctime, self.getctime), (os.path.getmtime, self.getmtime), (builtins.open, self.open), (fnmatch.fnmatch, self.fnmatch),
                     (fnmatch.fnmatchcase, self.fnmatch), (os.path.isfile, self.isfile)):
            m[id(f)] = h

    @property
    def directory(self): return SStr(self.D, str)
    @property
    def namefilter(self): return SStr(self.F, str)

    def valid(self, t): return z3.And(plain(t), self.match(t))
    def snapshot(self):
        dom, val = ops.snapshot_mem(self.files), self.files._val
        return dom, (lambda t: keyterm(val(t)))

    # paths
    def text(self, v):
        v = force(v)
        if not (isinstance(v, str) or isinstance(v, SStr) and v.kind is str): ops.raise_(TypeError, 'path')
        return ops.strterm(v)

    def join(self, interp, a, kw):
        r = self.text(a[0])
        for x in a[1:]:
            t = self.text(x)
            if core.cx().branch(z3.PrefixOf(SLASH, t)): r = t
            elif r.eq(self.D): r = z3.Concat(r, SLASH, t)
            else: raise Unsupported('os.path.join')
        return SStr(r, str)

    def basename(self, interp, a, kw):
        t = self.text(a[0])
        cc = core.cx()
        if not cc.branch(z3.Contains(t, SLASH)): return SStr(t, str)
        return SStr(z3.SubString(t, last_slash(cc, t) + 1, z3.Length(t)), str)

    def dirname(self, interp, a, kw):
        t = self.text(a[0])
        cc = core.cx()
        if not cc.branch(z3.Contains(t, SLASH)): return ''
        raise Unsupported('os.path.dirname')

    def name(self, v):
        """The name in the directory, or None."""
        t = z3.simplify(self.text(v))
        parts = flat(t)
        if len(parts) >= 2 and parts[0].eq(self.D):
            if len(parts) >= 3 and parts[1].eq(SLASH):
                r = parts[2] if len(parts) == 3 else z3.Concat(*parts[2:])
                cc = core.cx()
                cc.register(r)
                return r
            if z3.is_string_value(parts[1]) and parts[1].as_string().startswith('/') and len(parts) == 2:
                r = z3.StringVal(parts[1].as_string()[1:])
                core.cx().register(r)
                return r
        return None

    def inside(self, v, what):
        """The plain name; an effect elsewhere is recorded."""
        n = self.name(v)
        if n is None or not core.cx().branch(plain(n)):
            self.outside.append(what)
            ops.raise_(OSError, 'outside')
        return n

    def plain_name(self, v):
        n = self.name(v)
        if n is None or not core.cx().branch(plain(n)): return None
        return n

    # calls that only look
    def isfile(self, interp, a, kw):
        n = self.name(a[0])
        if n is None: return SBool(core.cx().fresh('isfile', B))
        cc = core.cx()
        if not cc.branch(plain(n)): return SBool(unknown(n))
        return SBool(self.files.dom(n))

    def exists(self, interp, a, kw):
        n = self.plain_name(a[0])
        if n is None: return SBool(core.cx().fresh('exists', B))
        return SBool(z3.Or(self.files.dom(n), self.other(n)))

    def listdir(self, interp, a, kw):
        if not a or not self.text(a[0]).eq(self.D): raise Unsupported('os.listdir of something else')
        dom = ops.snapshot_mem(self.files)
        return PySet(mem=memo1(lambda t: z3.Or(dom(t), self.other(t))), site='listdir', sort=S)

    def fnmatch(self, interp, a, kw):
        if not z3.simplify(self.text(a[1])).eq(self.F): raise Unsupported('another filter')
        return SBool(self.match(self.text(a[0])))

    def entry(self, v):
        n = self.plain_name(v)
        if n is None: raise Unsupported('stat outside')
        if not core.cx().branch(z3.Or(self.files.dom(n), self.other(n))): ops.raise_(FileNotFoundError, 'no such file')
        return n

    def stat(self, interp, a, kw):
        n = self.entry(a[0])
        fs = self
        class Stat(Ext):
            def a_st_ctime(self, interp): return SReal(fs.ctime(n))
        return Stat('stat')

    def getctime(self, interp, a, kw): return SReal(self.ctime(self.entry(a[0])))
    def getmtime(self, interp, a, kw): return SReal(z3.Function('mtime', S, R)(self.entry(a[0])))

    # calls with effects
    def remove(self, interp, a, kw):
        n = self.inside(a[0], 'remove')
        if not core.cx().branch(self.files.dom(n)): ops.raise_(FileNotFoundError, 'no such file')
        ops.dict_del(self.files, SStr(n, str))
        return None

    def replace(self, interp, a, kw):
        cc = core.cx()
        n, to = self.inside(a[0], 'replace'), self.inside(a[1], 'replace')
        if not cc.branch(self.files.dom(n)): ops.raise_(FileNotFoundError, 'no such file')
        if cc.branch(self.other(to)): ops.raise_(IsADirectoryError, 'is a directory')
        v = self.files.val(n)
        ops.dict_del(self.files, SStr(n, str))
        ops.dict_set(self.files, SStr(to, str), v)
        return None

    def open(self, interp, a, kw):
        cc = core.cx()
        mode = force(a[1] if len(a) > 1 else kw.get('mode', 'r'))
        if mode not in ('rb', 'r', 'wb', 'w', 'xb', 'ab'): raise Unsupported('open mode %r' % (mode,))
        if 'r' in mode:
            n = self.plain_name(a[0])
            if n is None: raise Unsupported('open outside')
            if not cc.branch(self.files.dom(n)): ops.raise_(FileNotFoundError, 'no such file')
            return File(self, n, mode)
        n = self.inside(a[0], 'open')
        if self.faults and cc.branch(z3.Bool('open_fails')): ops.raise_(OSError, 'cannot be opened')
        if cc.branch(self.other(n)): ops.raise_(IsADirectoryError, 'is a directory')
        if 'x' in mode and cc.branch(self.files.dom(n)): ops.raise_(FileExistsError, 'exists')
        f = File(self, n, mode)
        if 'a' in mode:
            if cc.branch(self.files.dom(n)): f.fields['written'] = keyterm(self.files.val(n))
            else: ops.dict_set(self.files, SStr(n, str), STok(cc.tok_const(b'')))
        else: ops.dict_set(self.files, SStr(n, str), STok(cc.tok_const(b'')))
        return f


unknown = z3.Function('isfile_outside', S, B)


def last_slash(cc, t):
    i = cc.fresh('slash', I)
    cc.assume(z3.And(i >= 0, i < z3.Length(t), z3.SubString(t, i, 1) == SLASH, z3.Not(z3.Contains(z3.SubString(t, i + 1, z3.Length(t)), SLASH))))
    return i


def flat(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in t.children() for y in flat(x)]
    return [t]


def messages(vc, raising=False):
    """Opaque messages (tokens): as_bytes() and id(); messages made of bytes."""
    def tokmethod(interp, obj, name, a, kw):
        if name == 'as_bytes' and not a and not kw:
            if raising and core.cx().branch(z3.Bool('as_bytes_fails')): ops.raise_(UnicodeError, 'as_bytes')
            return (STok(bytes_of(obj.t)),)
        if name == 'id' and not a: return (SStr(id_of(obj.t), str),)
    vc.cx.ghost['tokmethod'] = tokmethod


def reading_contracts(vc, fs):
    def make(content, mid):
        if mid is not None:
            mid = force(mid)
            if not (isinstance(mid, str) or isinstance(mid, SStr)): raise Unsupported('ID of a message')
            mid = ops.strterm(mid)
        return FileMsg(content, mid)
    def arg(a, kw, i, name, default=None): return a[i] if len(a) > i else kw.get(name, default)
    def from_bytes(interp, a, kw):
        b = force(arg(a, kw, 0, 'b'))
        if not isinstance(b, STok): raise Unsupported('a message of %r' % (b,))
        return make(b.t, arg(a, kw, 1, 'message_id'))
    def from_path(interp, a, kw):
        n = fs.plain_name(arg(a, kw, 0, 'filename'))
        if n is None: raise Unsupported('reading outside')
        if not core.cx().branch(fs.files.dom(n)): ops.raise_(FileNotFoundError, 'no such file')
        return make(keyterm(fs.files.val(n)), arg(a, kw, 1, 'message_id'))
    vc.i.overrides['sbclassifier.message:from_path'] = from_path
    vc.i.overrides['sbclassifier.message:from_bytes'] = from_bytes
