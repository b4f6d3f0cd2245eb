"""Symbolic states shared by the targets."""
import z3
from .. import core, ops
from ..core import *
from ..interp import HEAP

from sbclassifier.classifiers import basic
from sbclassifier.classifiers.basic import Classifier, WordInfo


def B_(x): return ops.as_term_bool(x)


def heap_init(vc, cls=WordInfo, fields=('spamcount', 'hamcount')):
    cx = vc.cx
    vc.i.heapclasses[cls] = fields
    HEAP()
    for f in fields:
        g = z3.Function('h0_%s' % f, I, I)
        cx.heap[(cls, f)] = memo1(lambda r, g=g: SInt(g(r)))
    cx.next_ref = z3.Int('next0')
    cx.assume(cx.next_ref >= 1)


def hp(cx, f, cls=WordInfo):
    """Snapshot of a heap field: ref term -> Int term."""
    g = cx.heap[(cls, f)]
    return lambda r: ops.intterm(g(r))


class MemState:
    """A snapshot of the learned state of a classifier."""
    def __init__(self, cx, clf):
        self.nspam = ops.intterm(clf.fields['nspam'])
        self.nham = ops.intterm(clf.fields['nham'])
        wi = clf.fields['wordinfo']
        self.dom = ops.snapshot_mem(wi)
        self.val = wi._val if wi.symbolic else (lambda t: wi.val(t))
        self.sp = hp(cx, 'spamcount')
        self.hm = hp(cx, 'hamcount')
        self.next = cx.next_ref
        self.empty = not wi.symbolic and not wi.items

    def invariant(self): return mem_invariant(self)

    def ref(self, w): return term(self.val(w))

    def spam(self, w):
        if self.empty: return z3.IntVal(0)
        return z3.If(self.dom(w), self.sp(self.ref(w)), z3.IntVal(0))

    def ham(self, w):
        if self.empty: return z3.IntVal(0)
        return z3.If(self.dom(w), self.hm(self.ref(w)), z3.IntVal(0))


def mem_invariant(st):
    """The class invariant of Classifier (used as precondition, proved as
    postcondition): list of (name, sorts, fn) and (name, formula)."""
    def refs(w):
        if st.empty: return z3.BoolVal(True)
        return z3.Implies(st.dom(w), z3.And(st.ref(w) >= 1, st.ref(w) < st.next))
    def inj(w, v):
        if st.empty: return z3.BoolVal(True)
        return z3.Implies(z3.And(st.dom(w), st.dom(v), w != v), st.ref(w) != st.ref(v))
    def nonzero(w):
        if st.empty: return z3.BoolVal(True)
        s, h = st.sp(st.ref(w)), st.hm(st.ref(w))
        return z3.Implies(st.dom(w), z3.And(s >= 0, h >= 0, s + h >= 1))
    def bound(w):
        return z3.And(st.spam(w) <= st.nspam, st.ham(w) <= st.nham)
    return [('records are allocated', Tok, refs), ('records are not shared', (Tok, Tok), inj),
            ('no record of two zero counts', Tok, nonzero), ('counts bounded by totals', Tok, bound),
            ('totals not negative', z3.And(st.nspam >= 0, st.nham >= 0))]


def State(cx, clf):
    """The learned state of any classifier."""
    db = clf.fields.get('db')
    if db is not None:
        from . import shelf
        return shelf.ShelfState(cx, clf)
    return MemState(cx, clf)


def clf_invariant(st):
    return st.invariant()


def assume_inv(vc, inv):
    for x in inv:
        if len(x) == 2: vc.assume(x[1])
        else: vc.fact(x[1], x[2], x[0])


def prove_inv(vc, inv, prefix=''):
    for x in inv:
        if len(x) == 2: vc.prove(prefix + x[0], x[1])
        else: vc.prove(prefix + x[0], x[2], x[1])


def sym_classifier(vc, cls=Classifier, bigrams=False, **fields):
    heap_init(vc)
    dom = z3.Function('dom0', Tok, B)
    val = z3.Function('rec0', Tok, I)
    wi = PyDict(dom=memo1(lambda t: dom(t)), val=memo1(lambda t: SRef(WordInfo, val(t))), site='wordinfo', sort=Tok)
    clf = Obj(cls, 'clf', _use_bigrams=bigrams, wordinfo=wi, _probcache=probcache(vc), nspam=SInt(z3.Int('nspam0')),
              nham=SInt(z3.Int('nham0')), **fields)
    return clf


def probcache(vc):
    """The probability cache: spam count -> ham count -> probability."""
    d1 = z3.Function('pc_dom', I, B)
    d2 = z3.Function('pc_dom2', I, I, B)
    pv = z3.Function('pc_val', I, I, R)
    return PyDict(dom=memo1(lambda s: d1(s)),
                  val=memo1(lambda s: PyDict(dom=memo1(lambda h: d2(s, h)), val=memo1(lambda h: SReal(pv(s, h))),
                                             site='inner', sort=I)), site='probcache', sort=I)


def words_stream(vc, name='m', raising=False):
    """A token stream: a one-shot sequence of tokens; (stream, member function)."""
    cx = vc.cx
    n = z3.Int(name + '_n')
    cx.assume(n >= 0)
    at = z3.Function(name + '_at', I, Tok)
    mem = z3.Function(name + '_mem', Tok, B)
    pos = z3.Function(name + '_pos', Tok, I)
    # mem is the set of the tokens of the stream
    def f1(t):
        cx.register_index(pos(t))
        return z3.Implies(mem(t), z3.And(pos(t) >= 0, pos(t) < n, at(pos(t)) == t))
    def f2(i): return z3.Implies(z3.And(i >= 0, i < n), mem(at(i)))
    cx.add_fact(Tok, f1, 'member')
    cx.add_fact(IDX, f2, 'element')
    def elem(k):
        cx.register(at(k))
        return STok(at(k))
    it = SymIter('seq', n, elem, src='stream').one_shot()
    it.stream = (n, at, mem)
    if raising:
        when = z3.Int(name + '_raises')
        cx.assume(z3.And(when >= 0, when <= n))
        cx.ghost['raises at'] = when
        def at_k(k):
            if cx.branch(k == when): raise PyRaise(ExcVal(StreamError, ()))
        def whole():
            raise PyRaise(ExcVal(StreamError, ()))
        it.exc = [at_k]
        it.exc_end = [at_k]
        it.exc_all = [whole]
    return it, (lambda t: mem(t)), n, at


class StreamError(Exception):
    pass
