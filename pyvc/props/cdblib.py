"""The format of CDB files: what the writer has to make and the reader may rely on.

A file is seen through word(x), the number in the four bytes at x, and through the bytes that begin at x. The items are K(0), V(0), ...;
item i has its record at P(i). Bucket j holds the items whose hash is j modulo 256; table(j) and slots(j) are its place and size in the file.
"""
import mmap, os, struct
import z3
from .. import core, ops
from ..core import *
from ..ops import raise_
from ..interp import ModelMethod

BT = z3.DeclareSort('ByteString')
LEN = z3.Function('len_of', BT, I)
BYTE = z3.Function('byte_of', BT, I, I)
HASH = z3.Function('hash_of', BT, I)
ENC = z3.Function('utf8_of', BT, BT)
MOD = z3.Function('mod', I, I, I)
FPOS = 'place in a file'
LIMIT = 2 ** 32


def modulo(x, y):
    c = core.cx()
    r = MOD(x, y)
    c.assume(z3.Implies(y > 0, z3.And(r >= 0, r < y)))
    c.assume(z3.Implies(z3.And(y > 0, x >= 0, x < y), r == x))
    c.assume(z3.Implies(z3.And(y > 0, x >= y, x < 2 * y), r == x - y))
    return r


class Bts(Ext):
    """A bytes object (or a text) with an unknown content."""
    def __init__(self, t, kind=bytes, site='bytes'):
        super().__init__(site)
        self.t = t
        self.kind = kind
        self.pytype = kind
        core.cx().assume(LEN(t) >= 0)
        core.cx().register(t)
    def shape(self): return ('made', Bts, self.kind)
    @staticmethod
    def join(a, b): return a if a == b else None
    @staticmethod
    def make(shape, f):
        return Bts(f(BT), shape[2])
    def merge(self, c, b):
        if isinstance(b, Bts) and self.kind is b.kind: return Bts(z3.If(c, self.content(), b.content()), self.kind)
    def content(self): return self.t
    def segs(self): return [self]
    def size(self): return LEN(self.t)
    def truth(self): return self.size() > 0
    def m___len__(self, interp, a, kw): return ops.mkint(self.size())
    def m___eq__(self, interp, a, kw):
        b = force(a[0])
        if isinstance(b, Bts): return SBool(self.content() == b.content()) if self.kind is b.kind else False
        if isinstance(b, (bytes, str)) and len(b) == 0: return SBool(self.size() == 0) if self.kind is type(b) else False
        if isinstance(b, (bytes, str, V)): raise Unsupported('comparison of bytes')
        return False
    def m___add__(self, interp, a, kw): return add(self, force(a[0]))
    def m___radd__(self, interp, a, kw): return add(force(a[0]), self)
    def m___getslice__(self, interp, a, kw): return Bts(core.cx().fresh('unknown', BT), self.kind)
    def m_encode(self, interp, a, kw):
        if self.kind is not str: raise_(AttributeError, 'encode')
        if any(force(x) not in ('utf-8', 'utf8', 'UTF-8') for x in a): raise Unsupported('encoding')
        return Bts(ENC(self.t))
    def m___iter__(self, interp, a, kw):
        t = self.content()
        n = LEN(t)
        def elem(k):
            core.cx().assume(z3.And(BYTE(t, k) >= 0, BYTE(t, k) < 256))
            return SInt(BYTE(t, k))
        if self.kind is str: raise Unsupported('characters of a text')
        return SymIter('seq', n, elem, src='bytes')


def tobytes(interp, a, kw):
    """bytes(x) and bytes(x, 'utf-8')"""
    a = [force(x) for x in a]
    if isinstance(a[0], Bts):
        if a[0].kind is str:
            if len(a) < 2: raise_(TypeError, 'string argument without an encoding')
            return a[0].m_encode(interp, a[1:], {})
        if len(a) > 1: raise_(TypeError, 'encoding without a string argument')
        return a[0]
    return None


def hash_contract(interp, a, kw):
    """cdb_hash: a function of the bytes, from 0 to 2**32 - 1 (target "cdb_hash")."""
    b = force(a[0])
    if isinstance(b, Bts) and b.kind is bytes:
        return SInt(hashterm(b.content()))
    if isinstance(b, Bts): raise_(TypeError, 'unsupported operand')
    raise Unsupported('hash of %r' % (b,))


def hashterm(t):
    h = HASH(t)
    core.cx().assume(z3.And(h >= 0, h < LIMIT))
    return h


def le_words(fmt):
    fmt = force(fmt)
    if isinstance(fmt, str) and fmt[:1] == '<' and fmt[1:] and set(fmt[1:]) <= {'L', 'I'}: return len(fmt) - 1
    raise Unsupported('format %r' % (fmt,))


# ---------------------------------------------------------------- files that are read

class Map(Ext):
    """A file that is mapped."""
    def __init__(self, fmt):
        super().__init__('map')
        self.fmt = fmt
        self.open = True
    def m_close(self, interp, a, kw): self.open = False
    def m___getslice__(self, interp, a, kw):
        if not self.open: raise_(ValueError, 'mmap closed or invalid')
        return span(self, *a)
    def m___len__(self, interp, a, kw): return SInt(self.fmt.size)


def span(m, lo, hi, base=None, end=None):
    """A part of a file, or of a part [base, end)."""
    c = core.cx()
    size = m.fmt.size
    end = size if end is None else end
    base = z3.IntVal(0) if base is None else base
    lo = base if lo is None else base + ops.intterm(lo)
    hi = end if hi is None else base + ops.intterm(hi)
    if not c.branch(lo >= base): return Bts(c.fresh('unknown', BT))          # counted from the end
    if not c.branch(hi >= base): return Bts(c.fresh('unknown', BT))
    if not c.branch(hi >= lo): hi = lo
    if not c.branch(hi <= end):
        hi = end
        if not c.branch(lo <= end): lo = end
    return Span(m, z3.simplify(lo), z3.simplify(hi))


class Span(Bts):
    def __init__(self, m, lo, hi):
        Ext.__init__(self, 'span')
        self.m, self.lo, self.hi = m, lo, hi
        self.kind = self.pytype = bytes
    def size(self): return z3.simplify(self.hi - self.lo)
    def content(self):
        t = self.m.fmt.content(self.lo, self.size())
        c = core.cx()
        c.assume(LEN(t) == self.size())
        return t
    def m___getslice__(self, interp, a, kw):
        return span(self.m, a[0], a[1], self.lo, self.hi)
    def words(self, n):
        if not core.cx().branch(self.size() == 4 * n): raise_(struct.error, 'unpack requires a buffer of another size')
        return tuple(SInt(self.m.fmt.word(z3.simplify(self.lo + 4 * i))) for i in range(n))


def unpack(interp, a, kw):
    n = le_words(a[0])
    b = force(a[1])
    if isinstance(b, Span): return b.words(n)
    if isinstance(b, Bts) and b.kind is bytes:
        c = core.cx()
        if not c.branch(b.size() == 4 * n): raise_(struct.error, 'unpack requires a buffer of another size')
        ws = [c.fresh('unknown', I) for i in range(n)]
        for w in ws: c.assume(z3.And(w >= 0, w < LIMIT))
        return tuple(SInt(w) for w in ws)
    raise Unsupported('unpack of %r' % (b,))


# ---------------------------------------------------------------- the format

class Format:
    """The items, and where they are in the file. j is any bucket; q is an item of it, or None."""
    ITEM = SLOT = PLACE = IDX      # what facts are about: items, slots, places in a bucket
    def __init__(self, vc, kinds=(bytes, bytes), q=True):
        cx = vc.cx
        self.kinds = kinds
        self.N = z3.Int('items')
        self.k0, self.v0 = z3.Function('key', I, BT), z3.Function('value', I, BT)
        enc = [(lambda t: ENC(t)) if k is str else (lambda t: t) for k in kinds]
        self.K = lambda i: enc[0](self.k0(i))
        self.V = lambda i: enc[1](self.v0(i))
        self.P = z3.Function('record', I, I)
        self.idx = z3.Function('record_at', I, I)
        self.j = z3.Int('bucket')
        self.q = z3.Int('the_item') if q else None
        cx.assume(z3.And(self.N >= 0, self.j >= 0, self.j < 256, self.P(0) == 2048))
        cx.register(self.N, self.ITEM)
        cx.register(z3.IntVal(0), self.ITEM)
        N, P = self.N, self.P
        def record(i):
            i1 = z3.simplify(i + 1)
            return z3.Implies(z3.And(i >= 0, i < N), z3.And(
                LEN(self.K(i)) >= 0, LEN(self.V(i)) >= 0, P(i) >= 2048, P(i1) == P(i) + 8 + LEN(self.K(i)) + LEN(self.V(i)), P(i1) <= P(N),
                self.idx(P(i)) == i, hashterm_in(HASH(self.K(i)))))
        cx.add_fact(self.ITEM, record, 'records')
        cx.assume(P(N) >= 2048)
        if q:
            cx.assume(z3.And(self.q >= 0, self.q < N, self.bucket(self.q) == self.j))
            cx.register(self.q, self.ITEM)
            cx.add_fact(self.ITEM, lambda a: z3.Implies(z3.And(a >= 0, a < N, a != self.q), self.K(a) != self.K(self.q)), 'keys are distinct')
            self.hash = HASH(self.K(self.q))

    def bucket(self, i): return HASH(self.K(i)) % 256

    def genuine(self, h, p, upto=None):
        """(h, p) is the entry of an item of bucket j."""
        i = self.idx(p)
        core.cx().register(i, self.ITEM)
        return z3.And(i >= 0, i < (self.N if upto is None else upto), self.P(i) == p, h == HASH(self.K(i)), self.bucket(i) == self.j, p >= 2048)

    def start(self, ns):
        """The slot where the search for item q begins."""
        return modulo(self.hash / 256, ns)

    def records(self, word, at, upto):
        """(name, sorts, formula): the records of the first items."""
        N, P, K, V = self.N, self.P, self.K, self.V
        return ('the records', self.ITEM, lambda i: z3.Implies(z3.And(i >= 0, i < N, i < upto), z3.And(
            word(P(i)) == LEN(K(i)), word(P(i) + 4) == LEN(V(i)), at(P(i) + 8, K(i)), at(P(i) + 8 + LEN(K(i)), V(i)))))

    def table_layout(self, T, NS, word, slot, end):
        """The same of the table of bucket j at T with NS slots."""
        out = [('the place of the table', z3.And(T >= self.P(self.N), NS >= 0, T + 8 * NS <= end))]
        out.append(('the slots', self.SLOT, lambda s: z3.Implies(z3.And(s >= 0, s < NS), self.slot_ok(word(T + 8 * s), word(T + 8 * s + 4)))))
        if self.q is not None:
            h, p = HASH(self.K(self.q)), self.P(self.q)
            out.append(('the item has a slot', z3.And(slot >= 0, slot < NS, word(T + 8 * slot) == h, word(T + 8 * slot + 4) == p)))
            out.append(('no empty slot before that of the item', self.SLOT, lambda s: z3.Implies(
                z3.And(s >= 0, s < NS, dist(self.start(NS), s, NS) < dist(self.start(NS), slot, NS)), word(T + 8 * s + 4) != 0)))
        return out

    def layout(self, word, at, slot, end):
        """The file is well formed as far as bucket j and item q are concerned. at(x, t): the bytes t are at x."""
        return [self.records(word, at, self.N), ('the first table begins where the records end', z3.And(word(z3.IntVal(0)) == self.P(self.N), end >= self.P(self.N), end >= 2048))] \
            + self.table_layout(word(8 * self.j), word(8 * self.j + 4), word, slot, end)

    def slot_ok(self, h, p):
        return z3.Or(z3.And(h == 0, p == 0), self.genuine(h, p))


def hashterm_in(h): return z3.And(h >= 0, h < LIMIT)


def dist(start, s, n):
    """How many slots after start, going round."""
    return z3.If(s >= start, s - start, s - start + n)


def cyc(a, n): return z3.If(a < n, a, a - n)


class FileRead(Format):
    """A well-formed file."""
    def __init__(self, vc, absent=None, q=None, table=True, **kw):
        super().__init__(vc, q=absent is None if q is None else q, **kw)
        cx = vc.cx
        self.table = table
        if absent is not None:
            self.hash = HASH(absent)
            cx.assume(z3.And(hashterm_in(self.hash), self.j == self.hash % 256))
            cx.add_fact(IDX, lambda i: z3.Implies(z3.And(i >= 0, i < self.N), self.K(i) != absent), 'not a key of the file')
        self.w = z3.Function('word', I, I)
        self.c = z3.Function('content', I, I, BT)
        self.size = z3.Int('size')
        self.slot = z3.Int('slot')
        for x in self.layout(self.word0, lambda x, t: self.c(x, LEN(t)) == t, self.slot, self.size)[:None if table else 2]:
            if len(x) == 2: cx.assume(x[1])
            else: cx.add_fact(x[1], x[2], x[0])
        self.T, self.NS = self.w(8 * self.j), self.w(8 * self.j + 4)

    def word0(self, x):
        return self.w(z3.simplify(x))

    def word(self, x):
        c = core.cx()
        r = self.w(x)
        c.assume(z3.And(r >= 0, r < LIMIT))
        if self.table and not z3.is_int_value(x) and c.branch(z3.And(x >= self.T, x < self.T + 8 * self.NS)):
            c.register_index(z3.simplify((x - self.T) / 8))
        return r

    def content(self, lo, n): return self.c(z3.simplify(lo), z3.simplify(n))


def ints(loop):
    """(name, term) of the integers that the loop changes."""
    from ..interp import Env
    for o, what, shape in loop.objects():
        d = o.vars if isinstance(o, Env) else o.fields if isinstance(o, Obj) else {}
        if what in d:
            v = d[what]
            if isinstance(v, (int, SInt)) and not isinstance(v, bool): yield '%s.%s' % (getattr(o, 'name', ''), what), ops.intterm(v)


def install(vc):
    g = vc.cx.ghost
    g['mod'] = modulo
    g['ends'] = True
    g['tobytes'] = tobytes
    vc.i.models[id(struct.unpack)] = unpack
    vc.i.models[id(struct.pack)] = pack
    vc.i.overrides['sbclassifier.cdb:cdb_hash'] = hash_contract


class Fp(Ext):
    """The open file that a Cdb is made from."""
    def __init__(self, fmt):
        super().__init__('fp')
        self.fmt = fmt
        self.fd = SInt(z3.Int('fd'))
    def m_fileno(self, interp, a, kw): return self.fd


class Stat(Ext):
    def __init__(self, fmt):
        super().__init__('stat')
        self.fmt = fmt
    def a_st_size(self, interp): return SInt(self.fmt.size)


def open_file(vc, fmt):
    """fmt as an open file."""
    install(vc)
    fp = Fp(fmt)
    def fstat(interp, a, kw):
        if force(a[0]) is not fp.fd: raise Unsupported('fstat of another file')
        return Stat(fmt)
    def mmap_(interp, a, kw):
        if force(a[0]) is not fp.fd or set(kw) - {'access'} or kw and kw['access'] != mmap.ACCESS_READ: raise Unsupported('mmap')
        n = ops.intterm(force(a[1]))
        if len(a) > 2 or core.cx().branch(z3.And(n != 0, n != fmt.size)): raise Unsupported('a part of the file')
        return Map(fmt)
    vc.i.models[id(os.fstat)] = fstat
    vc.i.classmodels[(mmap.mmap, '__new__')] = ModelMethod(lambda interp, cls, a, kw: mmap_(interp, a, kw))
    return fp


# ---------------------------------------------------------------- files that are made

class Packed(Ext):
    """Bytes: n words, word(i) the i-th."""
    def __init__(self, n, word, site='packed'):
        super().__init__(site)
        self.n, self.word = z3.simplify(n), core.memo1(word)
        self.kind = self.pytype = bytes
    def shape(self): return ('made', Packed)
    @staticmethod
    def join(a, b): return a if a == b or b == ('const', b'') else None
    @staticmethod
    def make(shape, f):
        n = f(I, '.n')
        core.cx().assume(n >= 0)
        w = core.cx().fresh_fun('words', [I], I)
        return Packed(n, lambda i: w(i))
    def size(self): return 4 * self.n
    def segs(self): return [self]
    def m___len__(self, interp, a, kw): return ops.mkint(self.size())
    def truth(self): return self.n > 0
    def m___add__(self, interp, a, kw): return add(self, force(a[0]))
    def m___radd__(self, interp, a, kw): return add(force(a[0]), self)


class Pieces(Ext):
    """Bytes put together."""
    def __init__(self, segs):
        super().__init__('pieces')
        self._segs = segs
        self.kind = self.pytype = bytes
    def shape(self): return ('made', Bts, bytes)
    def segs(self): return self._segs
    def size(self): return z3.simplify(z3.Sum([x.size() for x in self._segs]))
    def m___len__(self, interp, a, kw): return ops.mkint(self.size())
    def m___add__(self, interp, a, kw): return add(self, force(a[0]))
    def m___radd__(self, interp, a, kw): return add(force(a[0]), self)


def segs(x):
    if isinstance(x, (Bts, Packed, Pieces)):
        if x.kind is not bytes: raise_(TypeError, "can't concat str to bytes")
        return x.segs()
    if isinstance(x, bytes) and not x: return []
    if isinstance(x, str): raise_(TypeError, "can't concat str to bytes")
    raise Unsupported('concatenation with %r' % (x,))


def add(a, b):
    out = []
    for s in segs(a) + segs(b):
        if out and isinstance(s, Packed) and isinstance(out[-1], Packed):
            p = out.pop()
            s = Packed(p.n + s.n, lambda i, p=p, s=s: z3.If(i < p.n, p.word(i), s.word(z3.simplify(i - p.n))))
        out.append(s)
    return b'' if not out else out[0] if len(out) == 1 else Pieces(out)


def pack(interp, a, kw):
    n = le_words(a[0])
    c = core.cx()
    if len(a) - 1 != n: raise_(struct.error, 'pack expected %d items' % n)
    ws = []
    for v in a[1:]:
        v = force(v)
        if not isinstance(v, (int, SInt)): raise_(struct.error, 'required argument is not an integer')
        t = ops.intterm(v)
        if c.branch(t < 0): raise_(struct.error, 'argument out of range')
        c.assume(t < LIMIT)
        ws.append(t)
    def word(i):
        r = ws[-1]
        for k in range(n - 2, -1, -1): r = z3.If(i == k, ws[k], r)
        return r
    return Packed(z3.IntVal(n), word)


class OutFile(Ext):
    """A file that is written from a place on, then possibly from another one. Nothing may be written twice."""
    fields = ()
    def __init__(self):
        super().__init__('outfile')
        w = z3.Function('word_before', I, I)
        self.pos, self.start = z3.Int('pos_before'), z3.Int('pos_before')
        core.cx().assume(self.pos >= 0)
        self.word = lambda x: w(x)
        self.at = lambda x, t: z3.BoolVal(False)
        self.parts = []
        self.end = z3.IntVal(0)

    def havoc(self, what, shape):
        c = core.cx()
        if what == 'pos':
            self.pos = c.fresh('pos', I)
            c.assume(self.pos >= self.start)
            c.register_index(self.pos)
            return
        if what != 'content': raise Unsupported('the parts of a file in a loop')
        w, at = c.fresh_fun('word', [I], I), c.fresh_fun('at', [I, BT], B)
        self.word = lambda x: w(z3.simplify(x))
        self.at = lambda x, t: at(z3.simplify(x), t)

    def m_seek(self, interp, a, kw):
        if len(a) > 1 and force(a[1]) != 0: raise Unsupported('seek from elsewhere')
        t = ops.intterm(force(a[0]))
        if core.cx().branch(t < 0): raise_(ValueError, 'negative seek')
        self.write('parts')
        self.write('pos', SInt(t))
        self.parts = self.parts + [(self.start, self.pos)]
        self.start = self.pos = t
        return SInt(t)

    def m_tell(self, interp, a, kw): return SInt(self.pos)
    def m_flush(self, interp, a, kw): return None

    def m_write(self, interp, a, kw):
        x = force(a[0])
        total = z3.IntVal(0)
        for s in segs(x):
            n = z3.simplify(s.size())
            pos, word, at = self.pos, self.word, self.at
            for lo, hi in self.parts:
                if not core.cx().branch(z3.Or(pos >= hi, pos + n <= lo, lo == hi)): raise Unsupported('written twice')
            self.write('content')
            if isinstance(s, Packed):
                k = n.as_long() // 4 if z3.is_int_value(n) else 99
                def word1(x, s=s, pos=pos, word=word, k=k):
                    r = word(x)
                    for i in range(k - 1, -1, -1): r = z3.If(x == z3.simplify(pos + 4 * i), s.word(z3.IntVal(i)), r)
                    return r
                def wordn(x, s=s, pos=pos, word=word, n=n):
                    d = z3.simplify(x - pos)
                    return z3.If(z3.And(d >= 0, d < n, d % 4 == 0), s.word(z3.simplify(d / 4)), word(x))
                self.word = core.memo1(word1 if k < 9 else wordn)
            else:
                t = s.content()
                self.at = lambda x, u, t=t, pos=pos, at=at: z3.Or(z3.And(x == pos, u == t), at(x, u))
            self.write('pos', SInt(pos))
            self.pos = z3.simplify(pos + n)
            total = total + n
        return SInt(z3.simplify(total))


class FileMade(Format):
    """Ghosts of the writer: count(k) of the first k items are in bucket j, nth(m) is the m-th of them."""
    ITEM, SLOT, PLACE = 'item', 'slot', 'place in a bucket'
    def __init__(self, vc, **kw):
        super().__init__(vc, **kw)
        cx = vc.cx
        self.count, self.nth = z3.Function('count', I, I), z3.Function('nth', I, I)
        C, N = self.count, self.N
        cx.assume(z3.And(C(0) == 0, C(N) >= 0))
        def counted(i):
            i1 = z3.simplify(i + 1)
            return z3.And(z3.Implies(z3.And(i >= 0, i < N), z3.And(C(i1) == C(i) + z3.If(self.bucket(i) == self.j, 1, 0), C(i1) <= C(N))),
                          z3.Implies(z3.And(i >= 0, i < N, self.bucket(i) == self.j), self.nth(C(i)) == i),
                          z3.Implies(z3.And(i >= 0, i <= N), z3.And(C(i) >= 0, C(i) <= i, C(i) <= C(N))))
        cx.add_fact(self.ITEM, counted, 'how many are in the bucket')
        cx.register(C(self.q), self.PLACE)
        def chosen(m):
            i = self.nth(m)
            cx.register(i, self.ITEM)
            return z3.Implies(z3.And(m >= 0, m < C(N)), z3.And(i >= 0, i < N, self.bucket(i) == self.j, C(i) == m))
        cx.add_fact(self.PLACE, chosen, 'those in the bucket')

    def items(self):
        return PyList(n=self.N, get=lambda i: (Bts(self.k0(i), self.kinds[0]), Bts(self.v0(i), self.kinds[1])), site='items')
