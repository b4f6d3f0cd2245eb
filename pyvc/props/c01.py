"""Training counts are exact."""
from .lib import *
from . import ref as R_
from ..loops import Loop

ASSUMPTIONS = [
    'tokens are opaque hashable values; equality of tokens is that of str and bytes',
    'only this classifier writes its wordinfo and its WordInfo records (no aliasing from outside)',
    'one thread',
]


def indicator(c): return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def count_candidates(vc, clf, st0, sign, is_spam):
    """Loop invariants: the words handled so far have their new counts.

    They speak about the state of the classifier and the set of elements done,
    not about any local variable."""
    cx = vc.cx
    s = sign if is_spam else 0
    h = 0 if is_spam else sign
    def f(loop):
        st = State(cx, clf)
        d = loop.done
        out = [('spam counts so far', Tok, lambda w: st.spam(w) == st0.spam(w) + s * indicator(d(w))),
               ('ham counts so far', Tok, lambda w: st.ham(w) == st0.ham(w) + h * indicator(d(w))),
               ('spam counts unchanged', Tok, lambda w: st.spam(w) == st0.spam(w)),
               ('ham counts unchanged', Tok, lambda w: st.ham(w) == st0.ham(w)),
               ('totals unchanged', z3.And(st.nspam == st0.nspam, st.nham == st0.nham)),
               ('totals moved', z3.And(st.nspam == st0.nspam + s, st.nham == st0.nham + h))]
        return out + clf_invariant(st) + stored_candidates(st, st0)
    return f


def stored_candidates(st, st0):
    def refs(w):
        if st.empty: return z3.BoolVal(True)
        return z3.Implies(st.dom(w), z3.And(st.ref(w) >= 1, st.ref(w) < st.next))
    return []


def prove_counts(vc, st, st0, mem, sign, is_spam):
    s = sign if is_spam else 0
    h = 0 if is_spam else sign
    vc.prove('every word has the right spam count', lambda w: st.spam(w) == st0.spam(w) + s * indicator(mem(w)), Tok)
    vc.prove('every word has the right ham count', lambda w: st.ham(w) == st0.ham(w) + h * indicator(mem(w)), Tok)
    vc.prove('spam total', st.nspam == st0.nspam + s)
    vc.prove('ham total', st.nham == st0.nham + h)


def prove_unchanged(vc, st, st0):
    vc.prove('totals unchanged', z3.And(st.nspam == st0.nspam, st.nham == st0.nham))
    def same(w):
        return z3.And(st.dom(w) == st0.dom(w), st.spam(w) == st0.spam(w), st.ham(w) == st0.ham(w))
    vc.prove('no word changed', same, Tok)


def both(extra, vc, f):
    if extra is None: return f
    g = extra(vc)
    return lambda loop: f(loop) + g(loop)


def learn(is_spam, how, raising=False, make=sym_classifier, stream=words_stream, extra=None):
    def run(vc):
        clf = make(vc)
        st0 = State(vc.cx, clf)
        ws, mem, n, at = stream(vc, raising=raising)
        assume_inv(vc, clf_invariant(st0))
        vc.invariants(both(extra, vc, count_candidates(vc, clf, st0, 1, is_spam)))
        r, exc = vc.attempt(lambda: vc.method(clf, 'learn', ws, is_spam) if how == 'learn' else vc.method(clf, how, ws))
        st = State(vc.cx, clf)
        if raising:
            vc.prove('the exception of the stream is raised', exc is not None and exc.cls is StreamError)
            prove_unchanged(vc, st, st0)
        else:
            vc.prove('no exception', exc is None)
            if exc is None: prove_counts(vc, st, st0, mem, 1, is_spam)
        prove_inv(vc, clf_invariant(st))
        vc.cover('end')
    return dict(name='%s(%s)%s' % (how, 'spam' if is_spam else 'ham', ' of a stream that raises' if raising else ''),
                fn=run, covers=['end'])


def untrainable(st0, mem, is_spam):
    """The message was trained: there is a state that satisfies the invariant
    and from which training the message leads here."""
    def f(w):
        c, n = (st0.spam(w), st0.nspam) if is_spam else (st0.ham(w), st0.nham)
        return z3.And(z3.Implies(mem(w), c >= 1), c - indicator(mem(w)) <= n - 1)
    return f


def unlearn(is_spam, how, raising=False, make=sym_classifier, stream=words_stream, extra=None):
    def run(vc):
        clf = make(vc)
        st0 = State(vc.cx, clf)
        ws, mem, n, at = stream(vc, raising=raising)
        assume_inv(vc, clf_invariant(st0))
        if not raising:
            vc.assume((st0.nspam if is_spam else st0.nham) >= 1)
            vc.fact(Tok, untrainable(st0, mem, is_spam), 'the message was trained')
        vc.invariants(both(extra, vc, count_candidates(vc, clf, st0, -1, is_spam)))
        r, exc = vc.attempt(lambda: vc.method(clf, 'unlearn', ws, is_spam) if how == 'unlearn' else vc.method(clf, how, ws))
        st = State(vc.cx, clf)
        if raising:
            vc.prove('an exception is raised', exc is not None)
            prove_unchanged(vc, st, st0)
        else:
            vc.prove('no exception', exc is None)
            if exc is None: prove_counts(vc, st, st0, mem, -1, is_spam)
        prove_inv(vc, clf_invariant(st))
        vc.cover('end')
    return dict(name='%s(%s)%s' % (how, 'spam' if is_spam else 'ham', ' of a stream that raises' if raising else ''),
                fn=run, covers=['end'])


def refuse(is_spam, how, make=sym_classifier):
    def run(vc):
        clf = make(vc)
        st0 = State(vc.cx, clf)
        ws, mem, n, at = words_stream(vc)
        assume_inv(vc, clf_invariant(st0))
        vc.assume((st0.nspam if is_spam else st0.nham) == 0)
        vc.invariants(count_candidates(vc, clf, st0, -1, is_spam))
        r, exc = vc.attempt(lambda: vc.method(clf, 'unlearn', ws, is_spam) if how == 'unlearn' else vc.method(clf, how, ws))
        st = State(vc.cx, clf)
        vc.prove('refused with an error', exc is not None and issubclass(exc.cls, Exception))
        prove_unchanged(vc, st, st0)
        vc.cover('end')
    return dict(name='%s(%s) without trained messages' % (how, 'spam' if is_spam else 'ham'), fn=run, covers=['end'])


def new():
    def run(vc):
        heap_init(vc)
        clf = vc.call(Classifier)
        st = State(vc.cx, clf)
        vc.prove('no messages', z3.And(st.nspam == 0, st.nham == 0))
        vc.prove('no words', lambda w: z3.And(st.spam(w) == 0, st.ham(w) == 0, z3.Not(st.dom(w))), Tok)
        prove_inv(vc, clf_invariant(st))
        vc.cover('end')
    return dict(name='a new classifier', fn=run, covers=['end'])


def targets(tier):
    out = [new()]
    for s in (True, False):
        nm = 'spam' if s else 'ham'
        out += [learn(s, 'learn'), learn(s, 'learn_' + nm), learn(s, 'learn', True), unlearn(s, 'unlearn'),
                unlearn(s, 'unlearn_' + nm), unlearn(s, 'unlearn', True)]
    return out


def cases(rng):
    while True: yield R_.history_case(rng)


def run_case(case):
    clf = Classifier(use_bigrams=case['bigrams'])
    return R_.play(case, clf, lambda op, ref: R_.compare_state(clf, ref))
