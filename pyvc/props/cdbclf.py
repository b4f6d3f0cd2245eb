"""CDBClassifier: what store() puts into the file, and what load() makes of it.

The file is what C15 proves of cdb_make and Cdb: the pairs of a key and a
value in order, provided that the keys are distinct (an obligation of
whoever calls cdb_make)."""
import os
from types import SimpleNamespace
from .. import core, ops
from .picklelib import *
from .disk import *
from sbclassifier import cdb
from sbclassifier.classifiers.storage import CDBClassifier, STATE_KEY

NAME = 'words.cdb'
KEYOF = z3.Function('key_of_word', Tok, Tok)
WORDOF = z3.Function('word_of_key', Tok, Tok)


class Row(Ext):
    """A text made of decimal numbers and constant texts."""
    pytype = str
    def __init__(self, parts):
        super().__init__('row')
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
            elif p != '' if isinstance(p, str) else True: out.append(p)
        self.parts = out
    def shape(self): return ('made', Row, tuple(p if isinstance(p, str) else None for p in self.parts))
    @staticmethod
    def join(a, b): return a if a == b else None
    @staticmethod
    def make(shape, f):
        return Row([p if p is not None else f(I, '_%d' % i) for i, p in enumerate(shape[2])])
    def merge(self, c, b):
        if isinstance(b, Row) and b.shape() == self.shape():
            return Row([p if isinstance(p, str) else z3.If(c, p, q) for p, q in zip(self.parts, b.parts)])
    def subst(self, pairs): return Row([p if isinstance(p, str) else z3.substitute(p, *pairs) for p in self.parts])
    def numbers(self):
        """The numbers of a row 'n,m'; None if it has another form."""
        p = self.parts
        return (p[0], p[2]) if len(p) == 3 and p[1] == ',' and not isinstance(p[0], str) and not isinstance(p[2], str) else None
    def m___add__(self, interp, a, kw): return Row(self.parts + pieces(a[0]))
    def m___radd__(self, interp, a, kw): return Row(pieces(a[0]) + self.parts)
    def split(self, sep):
        if not isinstance(sep, str) or not sep or any(c in '-0123456789' for c in sep): raise Unsupported('split at %r' % (sep,))
        out = [[]]
        for p in self.parts:
            if not isinstance(p, str): out[-1].append(p)
            else:
                xs = p.split(sep)
                out[-1].append(xs[0])
                for x in xs[1:]: out.append([x])
        return [made(x) for x in out]
    def m_split(self, interp, a, kw):
        if len(a) != 1 or kw: raise Unsupported('split')
        return PyList(self.split(force(a[0])), site='split')
    def m_partition(self, interp, a, kw):
        sep = force(a[0])
        if sep != ',' or self.numbers() is None: raise Unsupported('partition')
        x, y = self.split(sep)
        return (x, sep, y)
    def m_strip(self, interp, a, kw):
        if a or any(isinstance(p, str) and p.strip() != p for p in (self.parts[0], self.parts[-1])): raise Unsupported('strip')
        return self
    def m_encode(self, interp, a, kw):
        utf8(a, kw)
        return InFile(self)


def made(parts):
    parts = [p for p in parts if not isinstance(p, str) or p]
    if all(isinstance(p, str) for p in parts): return ''.join(parts)
    return Row(parts)


def pieces(v):
    v = force(v)
    if isinstance(v, Row): return v.parts
    if isinstance(v, str): return [v]
    raise Unsupported('text of %r' % (v,))


def utf8(a, kw):
    for x in list(a) + list(kw.values()):
        if force(x) not in ('utf-8', 'utf8', 'UTF-8'): raise Unsupported('encoding %r' % (x,))


class InFile(Ext):
    """The UTF-8 bytes of a text."""
    pytype = bytes
    def __init__(self, v):
        super().__init__('utf-8')
        self.v = v
    def shape(self): return ('made', InFile, core.shape_of(self.v))
    @staticmethod
    def join(a, b): return a if a == b else None
    @staticmethod
    def make(shape, f):
        s = shape[2]
        return InFile(Row.make(s, f) if s[0] == 'made' else STok(f(Tok)))
    def merge(self, c, b):
        if isinstance(b, InFile) and b.shape() == self.shape():
            return InFile(self.v.merge(c, b.v) if isinstance(self.v, Row) else STok(z3.If(c, keyterm(self.v), keyterm(b.v))))
    def subst(self, pairs): return InFile(core.subst_value(self.v, pairs))
    def m_decode(self, interp, a, kw):
        utf8(a, kw)
        return self.v


def keyof(vc):
    """Contracts of _db_key and _word_from_db_key (target "keys of words")."""
    cx = vc.cx
    state = cx.tok_const(STATE_KEY)
    cx.add_fact('word', lambda w: z3.And(WORDOF(KEYOF(w)) == w, KEYOF(w) != state), 'keys of words')
    def dbkey(interp, args, kw):
        w = keyterm(force(args[0] if args else kw['word']))
        cx.register(w, 'word')
        cx.register(KEYOF(w))
        return STok(KEYOF(w))
    def fromkey(interp, args, kw):
        k = keyterm(force(args[0] if args else kw['key']))
        cx.register(WORDOF(k), 'word')
        cx.register(WORDOF(k))
        return STok(WORDOF(k))
    vc.i.overrides['sbclassifier.classifiers.storage:_db_key'] = dbkey
    vc.i.overrides['sbclassifier.classifiers.storage:_word_from_db_key'] = fromkey


class Rows:
    """A sequence of pairs: a key and the two numbers of its value."""
    def __init__(self, n, get):
        self.n, self.get = n, get


class Place(Ext):
    """The file system: one file, which is there or not."""
    def __init__(self, vc, rows=None, there=True):
        super().__init__('place')
        self.vc, self.rows, self.there = vc, rows, there
        self.complete = True
        m = vc.i.models
        m[id(open)] = self.open
        for f in (os.path.exists, os.path.isfile): m[id(f)] = self.exists
        vc.i.overrides['sbclassifier.cdb:cdb_make'] = self.make
        vc.i.classmodels[(cdb.Cdb, '__new__')] = ops_model(lambda interp, cls, a, kw: self.reader(interp, a))
        vc.cx.ghost['format'] = number_text
        vc.cx.ghost['int'] = number_of
        vc.cx.ghost['percent'] = percent
    def name(self, v):
        if force(v) != NAME: raise Unsupported('file %r' % (v,))
    def exists(self, interp, a, kw):
        self.name(a[0])
        return self.there if isinstance(self.there, bool) else SBool(self.there)
    def open(self, interp, a, kw):
        self.name(a[0])
        mode = force(a[1] if len(a) > 1 else kw.get('mode', 'r'))
        if mode == 'rb':
            if not interp.truth(self.exists(interp, a, kw)): ops.raise_(FileNotFoundError, 'no such file')
            return Handle(self, mode)
        if mode in ('wb', 'w+b', 'wb+'):
            self.rows, self.there, self.complete = Rows(z3.IntVal(-1), None), True, False
            return Handle(self, 'wb')
        raise Unsupported('mode %r' % (mode,))
    def make(self, interp, a, kw):
        f, items = force(a[0] if a else kw['outfile']), a[1] if len(a) > 1 else kw['items']
        if not isinstance(f, Handle): raise Unsupported('cdb_make into %r' % (f,))
        self.vc.prove('the file is open for writing', f.mode == 'wb' and not f.closed)
        l = models.to_pylist(interp, items, 'items of the file')
        get = ops.snapshot_list(l)
        self.rows = Rows(l.length(), get)
        f.written = True
    def reader(self, interp, a):
        f = force(a[0])
        if not isinstance(f, Handle): raise Unsupported('Cdb of %r' % (f,))
        if f.mode != 'rb' or f.closed: ops.raise_(ValueError, 'read of a closed file')
        return Reader(self, f)


class Handle(Ext):
    def __init__(self, place, mode):
        super().__init__('handle')
        self.place, self.mode, self.closed, self.written = place, mode, False, False
    def m_close(self, interp, a, kw):
        self.closed = True
        if self.written: self.place.complete = True
    def m_flush(self, interp, a, kw): pass
    def m___enter__(self, interp, a, kw): return self
    def m___exit__(self, interp, a, kw):
        self.m_close(interp, [], {})
        return False


class Reader(Ext):
    """Cdb: contract of its iteration (targets "Cdb items()" and so on)."""
    def __init__(self, place, handle):
        super().__init__('cdb')
        self.place, self.handle, self.open = place, handle, True
    def rows(self, what):
        if not self.open or self.handle.closed: ops.raise_(ValueError, 'mmap closed or invalid')
        r = self.place.rows
        pick = {'kv': lambda x: x, 'k': lambda x: x[0], 'v': lambda x: x[1]}[what]
        def get(i):
            k, v = r.get(i)
            return pick((InFile(k), InFile(v)))
        return r.n, get
    def list(self, what):
        n, get = self.rows(what)
        return PyList(n=n, get=get, site='rows')
    def iterator(self, what):
        n, get = self.rows(what)
        return SymIter('seq', n, get, src='rows').one_shot()
    def m_items(self, interp, a, kw): return self.list('kv')
    def m_keys(self, interp, a, kw): return self.list('k')
    def m_values(self, interp, a, kw): return self.list('v')
    def m_iteritems(self, interp, a, kw): return self.iterator('kv')
    def m_iterkeys(self, interp, a, kw): return self.iterator('k')
    def m_itervalues(self, interp, a, kw): return self.iterator('v')
    def m___iter__(self, interp, a, kw): return self.iterator('kv')
    def m_close(self, interp, a, kw): self.open = False


def ops_model(f):
    from ..interp import ModelMethod
    return ModelMethod(f)


def number_text(interp, v, conv, spec):
    if isinstance(v, SInt) and conv in ('', 's') and spec in ('', 'd'): return Row([v.t])
    if isinstance(v, Row) and conv in ('', 's') and spec in ('', 's'): return v
    return None


def percent(interp, fmt, arg):
    if not isinstance(fmt, str): return None
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out = []
    for i, p in enumerate(fmt.split('%')):
        if i == 0: out.append(p)
        elif p[:1] in ('d', 's', 'i') and args:
            r = number_text(interp, force(args.pop(0)), '', '')
            if r is None: return None
            out += r.parts + [p[1:]]
        else: return None
    return None if args else made(out)


def number_of(interp, v, a, kw):
    if isinstance(v, Row) and len(a) == 1:
        if len(v.parts) == 1: return SInt(v.parts[0])
        ops.raise_(ValueError, 'invalid literal for int()')
    return None


def row(v):
    """The key and the numbers of an element that goes into the file; None if it is none."""
    if isinstance(v, SAlt):
        rs = [(g, row(w)) for g, w in v.alts]
        if any(r is None for _, r in rs): return None
        out = rs[-1][1]
        for g, r in rs[-2::-1]: out = tuple(z3.If(g, x, y) for x, y in zip(r, out))
        return out
    if not isinstance(v, tuple) or len(v) != 2: return None
    k, t = keyed(v[0]), numbers(v[1])
    return None if k is None or t is None else (k,) + t


def keyed(k):
    if isinstance(k, SAlt):
        r = None
        for g, w in reversed(k.alts):
            w = keyed(w)
            if w is None: return None
            r = w if r is None else z3.If(g, w, r)
        return r
    if isinstance(k, InFile): k = k.v
    return keyterm(k) if isinstance(k, (str, STok)) else None


def numbers(t):
    if isinstance(t, SAlt):
        r = None
        for g, w in reversed(t.alts):
            w = numbers(w)
            if w is None: return None
            r = w if r is None else tuple(z3.If(g, x, y) for x, y in zip(w, r))
        return r
    if isinstance(t, InFile): t = t.v
    return t.numbers() if isinstance(t, Row) else None


def store_invariants(vc, st):
    """Lists that grow by a row for each word."""
    cx = vc.cx
    def entered(loop):
        loop.before = {o.oid: (o.length(), ops.snapshot_list(o)) for o, _, _ in loop.objects() if isinstance(o, PyList)}
    cx.ghost['loopentry'] = entered
    def f(loop):
        out = []
        if loop.it is None: return out
        src = getattr(loop.it, 'src', None)
        if loop.kind == 'set' and loop.it.sort == Tok: done = loop.done
        elif loop.kind == 'seq' and isinstance(src, PyList) and src.srcinfo is not None and src.srcinfo[4].sort == Tok:
            done = lambda w, idx=src.srcinfo[1], k=loop.k: idx(w) < k
        else: return out
        phase = loop.phase
        for o, what, shape in loop.objects():
            if not isinstance(o, PyList) or o.oid not in loop.before: continue
            nm = 'list%s' % (o.oid,)
            n0, get0 = loop.before[o.oid]
            n, get = o.length(), ops.snapshot_list(o)
            if o.symbolic or o.items:
                if row(get(cx.fresh('probe', I))) is None: continue
            else: get = None
            start = 0 if get0 is None or z3.is_int_value(z3.simplify(n0)) and z3.simplify(n0).as_long() == 0 else 1
            last = z3.simplify(n - 1)
            def picks(w, get=get, last=last, n0=n0): return [(z3.And(last >= n0, row(get(last))[0] == KEYOF(w)), last)] if get is not None else []
            pos = loop.function('place of %s' % nm, Tok, I, picks)
            cx.register_index(last)
            def listed(i, get=get, n=n, n0=n0, pos=pos):
                if get is None: return None
                k, h, s = row(get(i))
                w = WORDOF(k)
                cx.register(k)
                cx.register(w)
                cx.register(w, 'word')
                return z3.Implies(z3.And(i >= n0, i < n), z3.And(k == KEYOF(w), st.dom(w), done(w), h == st.ham(w), s == st.spam(w), pos(w) == i))
            def complete(w, get=get, n=n, n0=n0, pos=pos):
                cx.register(w, 'word')
                cx.register(KEYOF(w))
                p = pos(w)
                if phase == 'assume': cx.register_index(p)
                return z3.Implies(z3.And(st.dom(w), done(w)), z3.And(p >= n0, p < n, row(get(p))[0] == KEYOF(w)) if get is not None else z3.BoolVal(False))
            def kept(i, get=get, n0=n0, get0=get0):
                if not start: return None
                return z3.Implies(z3.And(i >= 0, i < n0), z3.And(*[x == y for x, y in zip(row(get(i)), row(get0(i)))]))
            out += [('%s: no shorter' % nm, n >= n0), ('%s: a row of a word so far' % nm, IDX, listed), ('%s: each word so far' % nm, Tok, complete), ('%s: what was there' % nm, IDX, kept)]
        return out
    return f


def store_target():
    def run(vc):
        cx = vc.cx
        heap_init(vc)
        keyof(vc)
        place = Place(vc, there=z3.Bool('there'))
        clf = sym_pickled(vc, SimpleNamespace(path=z3.StringVal(NAME)), cls=CDBClassifier)
        clf.fields.update(filename=NAME, statekey=STATE_KEY)
        st = MemState(cx, clf)
        vc.invariants(store_invariants(vc, st))
        r, exc = vc.attempt(lambda: vc.method(clf, 'store'))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        vc.prove('the file is complete', place.complete and place.there is True)
        vc.prove('the classifier stays', z3.And(*[ops.intterm(clf.fields[f]) == g for f, g in (('nspam', st.nspam), ('nham', st.nham))]))
        rows = place.rows
        state = cx.tok_const(STATE_KEY)
        def right(i):
            x = row(rows.get(i))
            if x is None: return z3.BoolVal(False)
            k, h, s = x
            w = WORDOF(k)
            cx.register(w, 'word')
            return z3.Implies(z3.And(i >= 0, i < rows.n), z3.If(k == state, z3.And(h == st.nham, s == st.nspam), z3.And(k == KEYOF(w), st.dom(w), h == st.ham(w), s == st.spam(w))))
        vc.prove('each pair is the totals or a word with its counts', right, IDX)
        def once(i, j):
            x, y = row(rows.get(i)), row(rows.get(j))
            if x is None: return z3.BoolVal(False)
            return z3.Implies(z3.And(i >= 0, j >= 0, i < j, j < rows.n), x[0] != y[0])
        vc.prove('the keys are distinct', once, (IDX, IDX))
        for i in (z3.IntVal(0), z3.simplify(rows.n - 1)): cx.register_index(i)
        def has(k, at): return z3.Or([z3.And(i >= 0, i < rows.n, row(rows.get(i))[0] == k) for i in at if row(rows.get(i)) is not None])
        ends = [z3.IntVal(0), z3.simplify(rows.n - 1)]
        vc.prove('the totals are there', has(state, ends))
        def complete(w):
            cx.register(w, 'word')
            cx.register(KEYOF(w))
            at = [f(w) for name, f in cx.ghost.get('functions', ()) if f.domain(0) == Tok]
            at += [idx(w) for idx, base, pkey in cx.ghost.get('enums', ())]
            at = [z3.simplify(a + d) for a in at for d in (0, 1)]
            for a in at: cx.register_index(a)
            return z3.Implies(st.dom(w), has(KEYOF(w), at) if at else z3.BoolVal(False))
        vc.prove('every word is there', complete, Tok)
        vc.cover('end')
    return dict(name='CDBClassifier stores', fn=run, covers=['end'])


def stored_rows(vc):
    """A file that store() wrote (target "CDBClassifier stores")."""
    cx = vc.cx
    n = z3.Int('rows')
    key, pos = z3.Function('row_key', I, Tok), z3.Function('row_of', Tok, I)
    dom = z3.Function('doms', Tok, B)
    sp, hm = (z3.Function(x + 's', Tok, I) for x in ('sp', 'hm'))
    ns, nh = z3.Int('nspams'), z3.Int('nhams')
    cx.assume(z3.And(ns >= 0, nh >= 0, n >= 1))
    vc.fact(Tok, lambda t: z3.Implies(dom(t), z3.And(sp(t) >= 0, hm(t) >= 0, sp(t) + hm(t) >= 1, sp(t) <= ns, hm(t) <= nh)), 'stored counts')
    state = cx.tok_const(STATE_KEY)
    first = lambda k: z3.If(k == state, nh, hm(WORDOF(k)))
    second = lambda k: z3.If(k == state, ns, sp(WORDOF(k)))
    def at(i):
        k = key(i)
        cx.register(k)
        cx.register(WORDOF(k))
        cx.register(WORDOF(k), 'word')
        w = WORDOF(k)
        return z3.Implies(z3.And(i >= 0, i < n), z3.And(pos(k) == i, z3.Or(k == state, z3.And(k == KEYOF(w), dom(w)))))
    def there(w):
        cx.register(w, 'word')
        k = KEYOF(w)
        cx.register(k)
        cx.register_index(pos(k))
        return z3.Implies(dom(w), z3.And(pos(k) >= 0, pos(k) < n, key(pos(k)) == k))
    vc.fact(IDX, at, 'rows of the file')
    vc.fact(Tok, there, 'every word has a row')
    cx.register_index(pos(state))
    cx.register(state)
    vc.assume(z3.And(pos(state) >= 0, pos(state) < n, key(pos(state)) == state))
    rows = Rows(n, lambda i: (STok(key(i)), Row([first(key(i)), ',', second(key(i))])))
    rows.key, rows.pos, rows.first, rows.second = key, pos, first, second
    return rows, dict(dom=lambda t: dom(t), sp=lambda t: sp(t), hm=lambda t: hm(t), ns=ns, nh=nh)


def load_invariants(vc, rows, want):
    """Dictionaries hold the rows so far: words with records of their counts, or keys with the texts of the numbers."""
    cx = vc.cx
    state = cx.tok_const(STATE_KEY)
    def known(k):
        cx.register(WORDOF(k))
        cx.register(WORDOF(k), 'word')
        return z3.Or(k == state, z3.And(k == KEYOF(WORDOF(k)), want['dom'](WORDOF(k))))
    def f(loop):
        if loop.it is None: return []
        if loop.kind == 'set' and loop.it.sort == Tok: done = loop.done
        elif loop.kind == 'seq':
            k = loop.k
            done = lambda t: rows.pos(t) < k
        else: return []
        out = []
        sp, hm, nxt = hp(cx, 'spamcount'), hp(cx, 'hamcount'), cx.next_ref
        for o, what, shape in loop.objects():
            if not isinstance(o, PyDict): continue
            nm = 'dict%s' % (o.oid,)
            if not o.symbolic and o.items: continue
            dom, val = ops.snapshot_mem(o), (o._val if o.symbolic else None)
            if o.symbolic and o.sort != Tok: continue
            def word(w):
                cx.register(w, 'word')
                cx.register(KEYOF(w))
                return z3.And(want['dom'](w), done(KEYOF(w)))
            if val is None:
                out += [('%s: words so far' % nm, Tok, lambda w: z3.Not(word(w))), ('%s: keys so far' % nm, Tok, lambda k: z3.Not(z3.And(known(k), done(k)))),
                        ('%s: words so far, with the totals' % nm, Tok, lambda k: z3.Not(z3.And(known(k), k != state, done(k))))]
                out += [('%s: %s' % (nm, x), z3.BoolVal(True)) for x in ('records', 'not shared', 'counts', 'numbers')]
                continue
            out += [('%s: words so far' % nm, Tok, lambda w, dom=dom: dom(w) == word(w)), ('%s: keys so far' % nm, Tok, lambda k, dom=dom: dom(k) == z3.And(known(k), done(k))),
                    ('%s: words so far, with the totals' % nm, Tok, lambda k, dom=dom: dom(k) == z3.And(known(k), k != state, done(k)))]
            probe = val(cx.fresh('probe', Tok))
            if isinstance(probe, SRef) and probe.cls is WordInfo:
                ref = lambda w, val=val: term(val(w))
                out += [('%s: records' % nm, Tok, lambda w, dom=dom, ref=ref: z3.Implies(dom(w), z3.And(ref(w) >= 1, ref(w) < nxt))),
                        ('%s: not shared' % nm, (Tok, Tok), lambda w, v, dom=dom, ref=ref: z3.Implies(z3.And(dom(w), dom(v), w != v), ref(w) != ref(v))),
                        ('%s: counts' % nm, Tok, lambda w, dom=dom, ref=ref: z3.Implies(dom(w), z3.And(sp(ref(w)) == want['sp'](w), hm(ref(w)) == want['hm'](w))))]
            elif numbers(probe) is not None:
                out += [('%s: numbers' % nm, Tok, lambda k, dom=dom, val=val: z3.Implies(dom(k), z3.And(*[x == y for x, y in zip(numbers(val(k)), (rows.first(k), rows.second(k)))])))]
        for o, what, v in loop.locals():
            v = v if isinstance(v, SAlt) else force(v)
            if isinstance(v, SInt):
                for x, t in (('ham', want['nh']), ('spam', want['ns'])):
                    out.append(('%s: total of %s' % (what, x), z3.Implies(done(state), v.t == t)))
        return out
    return f


def load_target(there, again=False):
    def run(vc):
        cx = vc.cx
        heap_init(vc)
        keyof(vc)
        if there: rows, want = stored_rows(vc)
        else: rows, want = None, NOTHING
        place = Place(vc, rows=rows, there=there)
        vc.invariants(load_invariants(vc, rows, want))
        if again:
            clf = sym_pickled(vc, SimpleNamespace(path=z3.StringVal(NAME)), cls=CDBClassifier)
            clf.fields.update(filename=NAME, statekey=STATE_KEY)
            r, exc = vc.attempt(lambda: vc.method(clf, 'load'))
        else: clf, exc = vc.attempt(lambda: vc.call(CDBClassifier, NAME))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        vc.prove('the file stays', place.rows is rows and place.there is there)
        vc.prove('the name of the file', force(clf.fields.get('filename')) == NAME)
        same_as(vc, clf, **want)
        vc.cover('end')
    return dict(name='CDBClassifier %s %s' % ('loads again' if again else 'opens', 'a file' if there else 'no file'), fn=run, covers=['end'])


def targets(tier): return [store_target(), load_target(True), load_target(False), load_target(True, True), load_target(False, True)]
