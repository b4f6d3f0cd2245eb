"""Scoring never changes what was learned."""
from .scoring import *
from . import ref as R_
from . import c01, c10
from .shelf import sym_shelve

ASSUMPTIONS = [
    'tokens are opaque hashable values with a total order among themselves; one thread',
    'chi2Q() meets its contract: it computes a number and has no effect (proved in C06)',
]


def unchanged(vc, st, st0):
    c01.prove_unchanged(vc, st, st0)
    vc.prove('no record changed', lambda r: z3.Implies(z3.And(r >= 1, r < st0.next), z3.And(st.sp(r) == st0.sp(r), st.hm(r) == st0.hm(r))), I)
    if isinstance(st, MemState):
        vc.prove('every word keeps its record', lambda w: z3.Implies(st0.dom(w), st.ref(w) == st0.ref(w)), Tok)
    else:
        vc.prove('every cached word keeps its record', lambda w: z3.And(st0.cached(w) == st.cached(w), z3.Implies(st0.cached(w), st.ref(w) == st0.ref(w))), Tok)
        c10.shelf_unchanged(vc, st, st0)


def scoring(evidence, raising=False, make=sym_classifier):
    def run(vc):
        cx = vc.cx
        sc = Scoring(vc, make=make)
        if raising: sc.ws, sc.mem, sc.n, sc.at = words_stream(vc, 'x', raising=True)
        def extra(loop):
            st = State(cx, sc.clf)
            return [('nothing changed so far', Tok, lambda w: z3.And(st.dom(w) == sc.st0.dom(w), st.spam(w) == sc.st0.spam(w), st.ham(w) == sc.st0.ham(w))),
                    ('totals unchanged', z3.And(st.nspam == sc.st0.nspam, st.nham == sc.st0.nham))]
        sc.invariants(extra)
        r, exc = sc.run(evidence)
        if raising: vc.prove('the exception of the stream is raised', exc is not None and exc.cls is StreamError)
        else: vc.prove('no exception', exc is None)
        unchanged(vc, State(cx, sc.clf), sc.st0)
        prove_inv(vc, clf_invariant(State(cx, sc.clf)))
        vc.cover('end')
    return dict(name='%s%s%s' % ('spamprob' if make is sym_classifier else 'spamprob of the database classifier', ' with evidence' if evidence else '',
                                 ' of a stream that raises' if raising else ''), fn=run, covers=['end'])


def targets(tier):
    from . import c04
    return [scoring(False), scoring(True), scoring(True, True), c04.probability(),
            c10.get(), scoring(False, make=sym_shelve), scoring(True, make=sym_shelve), scoring(True, True, make=sym_shelve)]


TOUCHES_FILES = True
TRUSTED = c10.TRUSTED


def cases(rng):
    while True:
        store = rng.choice(['memory', 'shelf', 'shelf'])
        case = R_.history_case(rng, bigrams=(False, True) if store == 'memory' else (False,))
        case['store'] = store
        case['messages'] = [R_.enc(R_.message(rng, R_.vocab(rng, case['kind'], 19), 30)) for _ in range(4)]
        case['sync'] = rng.choice(['no', 'store', 'read only'])
        yield case


def run_case(case):
    from sbclassifier.classifiers.storage import ShelveClassifier
    with R_.scratch() as d:
        clf = Classifier(use_bigrams=case['bigrams']) if case['store'] == 'memory' else ShelveClassifier(d + '/db')
        f = R_.play(case, clf, lambda op, ref: None)
        if f: return None
        try:
            if case['store'] != 'memory' and case['sync'] != 'no': clf.store()
            if case['store'] != 'memory' and case['sync'] == 'read only':
                clf.close()
                clf = ShelveClassifier(d + '/db', 'r')
            for m in case['messages']: 
                f = twice(case, clf, R_.dec(m))
                if f: return f
        finally:
            if case['store'] != 'memory': clf.close()
    return None


def snapshot(case, clf, words):
    s = R_.clf_counts(clf, words) if case['store'] == 'memory' else None
    if s is not None: return (clf.nspam, clf.nham, s)
    return (clf.nspam, clf.nham, R_.shelf_counts(clf, words), dict(clf.db), set(clf.changed_words), set(clf.deleted_words))


def twice(case, clf, m):
    words = set(m) | set(w for op in case['ops'] if op[0] == 'learn' for w in R_.dec(op[1]))
    before = snapshot(case, clf, words)
    try:
        s1 = clf.spamprob(list(m))
        a1 = snapshot(case, clf, words)
        s2, ev = clf.spamprob(iter(list(m)), True)
        a2 = snapshot(case, clf, words)
        s3 = clf.spamprob(list(m))
    except Exception as e: return 'scoring %r raised %r' % (m, e)
    for a in (a1, a2):
        if a != before:
            return 'scoring %r changed %r to %r' % (m, before, a)
    if not s1 == s2 == s3: return 'scoring %r gave %r, then %r, then %r' % (m, s1, s2, s3)
    return None
