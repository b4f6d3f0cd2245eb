"""What pickle keeps of a classifier."""
from .scoring import *
from .disk import *
from ..interp import HEAP
from sbclassifier.classifiers import basic as basic_
from sbclassifier.classifiers import storage
from sbclassifier.classifiers.storage import PickleClassifier


class Records:
    """A copy of a dictionary of records: words and counts."""
    def __init__(self, cx, d):
        self.dom = ops.snapshot_mem(d)
        self.empty = not d.symbolic and not d.items
        val = d._val if d.symbolic else (lambda t: d.val(t))
        sp, hm = hp(cx, 'spamcount'), hp(cx, 'hamcount')
        self.sp = lambda t: sp(term(val(t)))
        self.hm = lambda t: hm(term(val(t)))

    def thaw(self, cx):
        """A new dictionary of new records."""
        if self.empty: return PyDict(site='loaded')
        n = cx.ghost['copies'] = cx.ghost.get('copies', 0) + 1
        ref, owner = z3.Function('copy%d' % n, Tok, I), z3.Function('copied%d' % n, I, Tok)
        lo, hi = cx.next_ref, cx.fresh('next', I)
        HEAP().write('next', SInt(cx.next_ref))
        cx.assume(hi >= lo)
        cx.next_ref = hi
        dom = self.dom
        cx.add_fact(Tok, lambda t: z3.Implies(dom(t), z3.And(ref(t) >= lo, ref(t) < hi, owner(ref(t)) == t)), 'copies of the records')
        for f, g in (('spamcount', self.sp), ('hamcount', self.hm)):
            old = cx.heap[(WordInfo, f)]
            cx.heap[(WordInfo, f)] = memo1(lambda r, old=old, g=g: SInt(z3.If(z3.And(r >= lo, r < hi), g(owner(r)), ops.intterm(old(r)))))
        return PyDict(dom=memo1(lambda t: dom(t)), val=memo1(lambda t: SRef(WordInfo, ref(t))), site='loaded', sort=Tok)


class PickleDisk(Disk):
    def __init__(self, vc, old, fault):
        super().__init__(vc, old, fault, load=self.unpickle)

    def freeze(self, v):
        v = force(v)
        if not isinstance(v, Obj): raise Unsupported('pickle of %r' % (v,))
        i, cx = self.vc.i, self.vc.cx
        for n in ('__reduce__', '__reduce_ex__', '__getnewargs__', '__copyreg__'):
            if i.find_method(v.cls, n) not in (getattr(object, n, None), None): raise Unsupported(n)
        if i.find_method(v.cls, '__getstate__') is getattr(object, '__getstate__', None): raise Unsupported('pickle of all attributes')
        s = self.vc.method(v, '__getstate__')
        if not isinstance(s, tuple): raise Unsupported('state %r' % (s,))
        return (v.cls,) + tuple(self.copy_in(x) for x in s)

    def copy_in(self, x):
        x = force(x)
        if isinstance(x, PyDict): return Records(self.vc.cx, x)
        if isinstance(x, (SInt, SBool, int, str, bytes, type(None), SReal, float)): return x
        raise Unsupported('pickle of %r' % (x,))

    def unpickle(self, interp, content):
        if content == OLD or content == PART or content == ABSENT: raise Unsupported('load of unknown content')
        if callable(content[1]): return content[1](interp)
        cls, state = content[1][0], content[1][1:]
        o = Obj(cls, 'loaded')
        state = tuple(x.thaw(self.vc.cx) if isinstance(x, Records) else x for x in state)
        self.vc.method(o, '__setstate__', state)
        return o


def sym_pickled(vc, disk, tag='', cls=PickleClassifier):
    """A classifier in any state."""
    cx = vc.cx
    dom = z3.Function('dom' + tag, Tok, B)
    val = z3.Function('rec' + tag, Tok, I)
    wi = PyDict(dom=memo1(lambda t: dom(t)), val=memo1(lambda t: SRef(WordInfo, val(t))), site='wordinfo' + tag, sort=Tok)
    clf = Obj(cls, 'clf' + tag, _use_bigrams=False, wordinfo=wi, _probcache=probcache(vc), nspam=SInt(z3.Int('nspam' + tag)),
              nham=SInt(z3.Int('nham' + tag)), filename=SStr(disk.path, str))
    assume_inv(vc, clf_invariant(MemState(cx, clf)))
    return clf


def stored_state(vc, disk, tag='s'):
    """A content of the file that a classifier stored."""
    cx = vc.cx
    dom = z3.Function('dom' + tag, Tok, B)
    sp, hm = (z3.Function(x + tag, Tok, I) for x in ('sp', 'hm'))
    r = Records.__new__(Records)
    r.dom, r.sp, r.hm, r.empty = (lambda t: dom(t)), (lambda t: sp(t)), (lambda t: hm(t)), False
    ns, nh = z3.Int('nspam' + tag), z3.Int('nham' + tag)
    cx.assume(z3.And(ns >= 0, nh >= 0))
    vc.fact(Tok, lambda t: z3.Implies(dom(t), z3.And(sp(t) >= 0, hm(t) >= 0, sp(t) + hm(t) >= 1, sp(t) <= ns, hm(t) <= nh)), 'stored counts')
    return r, ns, nh


def same_as(vc, clf, dom, sp, hm, ns, nh, prefix=''):
    """clf has exactly these words, counts and totals, and nothing computed from others."""
    st = MemState(vc.cx, clf)
    vc.prove(prefix + 'totals', z3.And(st.nspam == ns, st.nham == nh))
    vc.prove(prefix + 'words', lambda t: (z3.BoolVal(False) if st.empty else st.dom(t)) == dom(t), Tok)
    vc.prove(prefix + 'counts', lambda t: z3.Implies(dom(t), z3.And(st.spam(t) == sp(t), st.ham(t) == hm(t))), Tok)
    prove_inv(vc, clf_invariant(st), prefix)
    pc = cache_fields(vc, clf)
    vc.prove(prefix + 'no probability of other counts is kept', valid_cache(pc, st.nspam, st.nham, lambda p, s, h: p == spec_prob(s, h, st.nspam, st.nham)), (I, I))


NOTHING = dict(dom=lambda t: z3.BoolVal(False), sp=lambda t: z3.IntVal(0), hm=lambda t: z3.IntVal(0), ns=0, nh=0)
