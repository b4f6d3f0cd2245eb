"""The database-backed classifier: model of the shelf, abstraction, invariant.

What a ShelveClassifier has learned is a function of its cache (wordinfo,
changed_words, deleted_words) and of the shelf:

    known(w)  = w in wordinfo, or w not in deleted_words and the shelf has w
    counts(w) = those of wordinfo[w], else those of the shelf

The shelf is the trusted part: a mapping from string keys to values that
shelve pickles, kept in a file when it is synchronised or closed."""
import os
import shelve
import z3
from .. import core, ops
from ..core import *
from ..interp import HEAP
from .lib import MemState, heap_init, hp, probcache, WordInfo

from sbclassifier.classifiers import storage
from sbclassifier.classifiers.storage import ShelveClassifier

TRUSTED = ['shelve and dbm: a shelf is a mapping from string keys to pickled values; what it holds when it is '
           'closed is what the file gives back when it is opened again; synchronising may or may not do the same (dbm.ndbm, used here, cannot)',
           'keys of words: _db_key() is injective and never gives the state key (proved by target "keys of words")']


ABS = '/somewhere/'


class Key(V):
    """The key of a word in the shelf: _db_key(word)."""
    def __init__(self, tok): self.tok = tok


def keys_contract(vc):
    def dbkey(interp, args, kw):
        w = force(args[0] if args else kw['word'])
        if not isinstance(w, (STok, str, bytes)): raise Unsupported('key of %r' % (w,))
        return Key(w)
    def fromkey(interp, args, kw):
        k = force(args[0])
        if not isinstance(k, Key): raise Unsupported('word of the key %r' % (k,))
        return k.tok
    vc.i.overrides['sbclassifier.classifiers.storage:_db_key'] = dbkey
    vc.i.overrides['sbclassifier.classifiers.storage:_word_from_db_key'] = fromkey


class Shelf(Ext):
    """words: word -> value; state: value of the state key (or absent)."""
    pytype = shelve.Shelf

    def __init__(self, file, words, present, state, statekey=storage.STATE_KEY):
        super().__init__('shelf')
        self.file = file
        self.words = words
        self.statekey = statekey
        self.fields = {'has_state': present, 'state': state, 'closed': False, 'writes': 0}

    def is_state(self, k):
        k = force(k)
        if self.fields['closed']: ops.raise_(ValueError, 'invalid operation on closed shelf')
        if isinstance(k, Key): return False
        if isinstance(k, str) and k == self.statekey: return True
        raise Unsupported('key %r of the shelf' % (k,))

    def tok(self, k): return force(k).tok

    def written(self):
        n = ops.binop('Add', self.fields['writes'], 1)
        self.write('writes', n)
        self.fields['writes'] = n

    def m_get(self, interp, a, kw):
        default = a[1] if len(a) > 1 else kw.get('default')
        if self.is_state(a[0]):
            return self.fields['state'] if interp.truth(self.fields['has_state']) else default
        ok, v = ops.dict_lookup(self.words, self.tok(a[0]))
        return v if ok else default

    def m___getitem__(self, interp, a, kw):
        if self.is_state(a[0]):
            if interp.truth(self.fields['has_state']): return self.fields['state']
            ops.raise_(KeyError, a[0])
        ok, v = ops.dict_lookup(self.words, self.tok(a[0]))
        if not ok: ops.raise_(KeyError, a[0])
        return v

    def m___setitem__(self, interp, a, kw):
        self.written()
        v = plain(interp, a[1])
        if self.is_state(a[0]):
            self.write('has_state', True)
            self.fields['has_state'] = True
            self.write('state', v)
            self.fields['state'] = v
            return
        ops.dict_set(self.words, self.tok(a[0]), v)

    def m___delitem__(self, interp, a, kw):
        self.written()
        if self.is_state(a[0]):
            if not interp.truth(self.fields['has_state']): ops.raise_(KeyError, a[0])
            self.write('has_state', False)
            self.fields['has_state'] = False
            return
        ok, v = ops.dict_lookup(self.words, self.tok(a[0]))
        if not ok: ops.raise_(KeyError, a[0])
        ops.dict_del(self.words, self.tok(a[0]))

    def m___contains__(self, interp, a, kw):
        if self.is_state(a[0]): return self.fields['has_state']
        return SBool(self.words.dom(keyterm(self.tok(a[0]))))

    def m_pop(self, interp, a, kw):
        if self.is_state(a[0]): raise Unsupported('pop of the state')
        ok, v = ops.dict_lookup(self.words, self.tok(a[0]))
        if ok:
            self.written()
            ops.dict_del(self.words, self.tok(a[0]))
            return v
        if len(a) > 1: return a[1]
        ops.raise_(KeyError, a[0])

    def m_setdefault(self, interp, a, kw):
        if interp.truth(self.m___contains__(interp, a[:1], kw)): return self.m___getitem__(interp, a[:1], kw)
        self.m___setitem__(interp, a, kw)
        return a[1]

    def m_sync(self, interp, a, kw):
        if self.fields['closed']: return
        if interp.truth(SBool(z3.Bool('the kind of DBM can be synchronised'))): self.file.keep(self)

    def m_close(self, interp, a, kw):
        if self.fields['closed']: return
        self.file.keep(self)
        self.write('closed', True)
        self.fields['closed'] = True

    def m___enter__(self, interp, a, kw): return self
    def m___exit__(self, interp, a, kw):
        self.m_close(interp, [], {})
        return False


def plain(interp, v):
    """A value that can be pickled: numbers in tuples."""
    v = force(v)
    if isinstance(v, tuple): return tuple(plain(interp, x) for x in v)
    if v is None or isinstance(v, (int, float, str, bytes, SInt, SReal, SBool, STok)): return v
    raise Unsupported('pickling %r' % (v,))


class File(Ext):
    """The file of a shelf: what it holds when it was last kept."""
    def __init__(self, dom, val, present, state):
        super().__init__('file')
        self.fields = {}
        self.now = (dom, val, present, state)

    def keep(self, shelf):
        self.write('kept', True)
        w = shelf.words
        dom = ops.snapshot_mem(w)
        self.now = (dom, (w._val if w.symbolic else None), shelf.fields['has_state'], shelf.fields['state'])

    def open(self):
        dom, val, present, state = self.now
        if val is None: words = PyDict([], site='words')
        else: words = PyDict(dom=memo1(dom), val=memo1(val), site='words', sort=Tok)
        return Shelf(self, words, present, state)

    def havoc(self, what, shape): raise Unsupported('the file of the shelf changes in a loop')


def counts(v):
    return ops.intterm(v[0]), ops.intterm(v[1])


def sym_file(vc, name='db'):
    d = z3.Function(name + '_dom', Tok, B)
    s = z3.Function(name + '_spam', Tok, I)
    h = z3.Function(name + '_ham', Tok, I)
    ns, nh = z3.Int(name + '_ns'), z3.Int(name + '_nh')
    state = (storage.PICKLE_VERSION, SInt(ns), SInt(nh))
    return File(lambda t: d(t), lambda t: (SInt(s(t)), SInt(h(t))), SBool(z3.Bool(name + '_state')), state)


def open_contract(vc, files):
    """shelve.open(): files maps a file name to a File."""
    def h(interp, args, kw):
        name = force(args[0] if args else kw['filename'])
        flag = force(args[1] if len(args) > 1 else kw.get('flag', 'c'))
        for k in list(kw):
            if k not in ('filename', 'flag'): raise Unsupported('shelve.open with %s' % k)
        if name == ABS + 'words.db': name = 'words.db'
        if name not in files: raise Unsupported('file %r' % (name,))
        if flag == 'n':
            files[name].write('kept', True)
            files[name].now = (lambda t: z3.BoolVal(False), None, False, ())
        elif flag not in ('c', 'w', 'r'): raise Unsupported('flag %r of shelve.open' % (flag,))
        return files[name].open()
    vc.i.models[id(shelve.open)] = h
    def absolute(interp, args, kw):
        name = force(args[0] if args else kw['path'])
        if name == ABS + 'words.db': return name
        if name != 'words.db': raise Unsupported('path of %r' % (name,))
        return ABS + name
    for f in (os.path.abspath, os.path.realpath): vc.i.models[id(f)] = absolute


class ShelfState:
    def __init__(self, cx, clf):
        self.nspam = ops.intterm(clf.fields['nspam'])
        self.nham = ops.intterm(clf.fields['nham'])
        wi, db = clf.fields['wordinfo'], clf.fields['db']
        self.cached = ops.snapshot_mem(wi)
        self.val = wi._val if wi.symbolic else (lambda t: wi.val(t))
        self.nocache = not wi.symbolic and not wi.items
        self.changed = ops.snapshot_mem(clf.fields['changed_words'])
        self.deleted = ops.snapshot_mem(clf.fields['deleted_words'])
        w = db.words
        self.indb = ops.snapshot_mem(w)
        self.dbval = w._val if w.symbolic else (lambda t: w.val(t))
        self.nodb = not w.symbolic and not w.items
        self.has_state = term(db.fields['has_state'])
        self.state = db.fields['state']
        self.writes = ops.intterm(db.fields['writes'])
        self.sp = hp(cx, 'spamcount')
        self.hm = hp(cx, 'hamcount')
        self.next = cx.next_ref
        self.empty = False

    def ref(self, w):
        if self.nocache: return z3.IntVal(0)
        return term(self.val(w))

    def dom(self, w):
        return z3.Or(self.cached(w), z3.And(z3.Not(self.deleted(w)), self.indb(w)))

    def count(self, w, i):
        heap = self.hm if i else self.sp
        zero = z3.IntVal(0)
        r = zero if self.nodb else z3.If(z3.And(z3.Not(self.deleted(w)), self.indb(w)), counts(self.dbval(w))[i], zero)
        return r if self.nocache else z3.If(self.cached(w), heap(self.ref(w)), r)

    def spam(self, w): return self.count(w, 0)
    def ham(self, w): return self.count(w, 1)

    def invariant(self):
        def refs(w):
            if self.nocache: return z3.BoolVal(True)
            return z3.Implies(self.cached(w), z3.And(self.ref(w) >= 1, self.ref(w) < self.next))
        def inj(w, v):
            if self.nocache: return z3.BoolVal(True)
            return z3.Implies(z3.And(self.cached(w), self.cached(v), w != v), self.ref(w) != self.ref(v))
        def nonzero(w):
            s, h = self.spam(w), self.ham(w)
            return z3.Implies(self.dom(w), z3.And(s >= 0, h >= 0, s + h >= 1))
        def bound(w):
            return z3.And(self.spam(w) <= self.nspam, self.ham(w) <= self.nham)
        def changed(w):
            return z3.Implies(self.changed(w), z3.And(self.cached(w), self.spam(w) + self.ham(w) >= 2))
        def deleted(w):
            return z3.Not(z3.And(self.deleted(w), self.cached(w)))
        def clean(w):
            if self.nocache: return z3.BoolVal(True)
            if self.nodb: same = z3.BoolVal(False)
            else:
                s, h = counts(self.dbval(w))
                same = z3.And(self.indb(w), s == self.sp(self.ref(w)), h == self.hm(self.ref(w)))
            return z3.Implies(z3.And(self.cached(w), z3.Not(self.changed(w))), same)
        return [('records are allocated', Tok, refs), ('records are not shared', (Tok, Tok), inj),
                ('no record of two zero counts', Tok, nonzero), ('counts bounded by totals', Tok, bound),
                ('changed words are cached', Tok, changed), ('deleted words are not cached', Tok, deleted),
                ('unchanged cached words are as in the shelf', Tok, clean),
                ('totals not negative', z3.And(self.nspam >= 0, self.nham >= 0))]


def sym_shelve(vc, bigrams=False, **fields):
    """Any state of a database-backed classifier."""
    heap_init(vc)
    keys_contract(vc)
    file = sym_file(vc)
    open_contract(vc, {'words.db': file})
    dom = z3.Function('dom0', Tok, B)
    val = z3.Function('rec0', Tok, I)
    ch = z3.Function('changed0', Tok, B)
    de = z3.Function('deleted0', Tok, B)
    wi = PyDict(dom=memo1(lambda t: dom(t)), val=memo1(lambda t: SRef(WordInfo, val(t))), site='wordinfo', sort=Tok)
    clf = Obj(ShelveClassifier, 'clf', _use_bigrams=bigrams, wordinfo=wi, _probcache=probcache(vc), nspam=SInt(z3.Int('nspam0')),
              nham=SInt(z3.Int('nham0')), statekey=storage.STATE_KEY, filename='words.db', flag='c', db=file.open(),
              changed_words=PySet(mem=memo1(lambda t: ch(t)), sort=Tok, site='changed'),
              deleted_words=PySet(mem=memo1(lambda t: de(t)), sort=Tok, site='deleted'), **fields)
    return clf


def get_contract(vc, clf, st0):
    """Contract of ShelveClassifier._wordinfoget (proved on its body in C10):
    None for an unknown word, else a record that has the counts of the word
    and that no other word has; what is known and counted, and the shelf,
    stay as they are. The cache may grow: it is left out of the frame of the
    callers, which are shown not to touch it otherwise."""
    cx = vc.cx
    view = z3.Function('view', Tok, I)
    vc.fact(Tok, lambda w: z3.Implies(st0.dom(w), z3.And(view(w) >= 1, view(w) < st0.next, st0.sp(view(w)) == st0.spam(w),
                                                         st0.hm(view(w)) == st0.ham(w))), 'record of a word')
    vc.fact((Tok, Tok), lambda w, v: z3.Implies(z3.And(st0.dom(w), st0.dom(v), w != v), view(w) != view(v)), 'own record')
    d = PyDict(dom=memo1(st0.dom), val=memo1(lambda t: SRef(WordInfo, view(t))), site='view', sort=Tok)
    def h(interp, args, kw):
        if args[0] is not clf: raise Unsupported('another classifier')
        w = args[1] if len(args) > 1 else kw['word']
        return interp.call_builtin(d, 'get', [w], {})
    vc.i.overrides['sbclassifier.classifiers.storage:ShelveClassifier._wordinfoget'] = h
