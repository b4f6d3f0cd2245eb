"""Word probabilities follow the current counts."""
from .scoring import *
from . import ref as R_
from . import c01

ASSUMPTIONS = [
    'floating-point arithmetic is real arithmetic (probability(): the formula is exact up to rounding)',
    'tokens are opaque hashable values; one thread',
    'nothing outside the classifier writes its counts or its cache of probabilities',
    'a record that is trained was not changed behind the back of the classifier since it was trained',
]


def right(ns, nh):
    return lambda p, s, h: p == spec_prob(s, h, ns, nh)


def probability():
    def run(vc):
        cx = vc.cx
        clf = sym_classifier(vc)
        st = State(cx, clf)
        r = z3.Int('rec')
        s, h = st.sp(r), st.hm(r)
        cx.assume(z3.And(r >= 1, r < st.next))
        cx.assume(z3.And(st.nspam >= 0, st.nham >= 0))
        cx.assume(valid_counts(s, h, st.nspam, st.nham))
        assume_valid_cache(vc, clf, right(st.nspam, st.nham))
        p, exc = vc.attempt(lambda: vc.method(clf, 'probability', SRef(WordInfo, r)))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        q = ops.toreal(p)
        def goal():
            cx.assume(z3.Not(q == spec_prob(s, h, st.nspam, st.nham)))
            return formula(q, s, h, st.nspam, st.nham)
        vc.prove('the probability is that of the formula', goal)
        st1 = State(cx, clf)
        vc.prove('totals unchanged', z3.And(st1.nspam == st.nspam, st1.nham == st.nham))
        vc.prove('no record changed', lambda x: z3.Implies(z3.And(x >= 1, x < st.next), z3.And(st1.sp(x) == st.sp(x), st1.hm(x) == st.hm(x))), I)
        vc.prove('no word changed', lambda w: z3.And(st1.dom(w) == st.dom(w), z3.Implies(st.dom(w), st1.ref(w) == st.ref(w))), Tok)
        pc = cache_fields(vc, clf)
        def cache_goal(a, b):
            d, v = cached(pc, a, b)
            g = z3.Implies(z3.And(d, valid_counts(a, b, st.nspam, st.nham)), v == spec_prob(a, b, st.nspam, st.nham))
            # where it is the pair just computed, as the polynomial relation
            same = z3.And(a == s, b == h)
            return z3.If(same, z3.Or(z3.Not(d), v == q), g)
        vc.prove('every cached probability is that of the formula', cache_goal, (I, I))
        vc.cover('end')
    return dict(name='probability', fn=run, covers=['end'])


def keeps_cache(name, op, pre):
    """A training operation leaves no probability of old totals behind."""
    def run(vc):
        cx = vc.cx
        clf = sym_classifier(vc)
        st0 = State(cx, clf)
        raising, is_spam, sign = pre
        ws, mem, n, at = words_stream(vc, raising=raising)
        assume_inv(vc, clf_invariant(st0))
        if sign < 0 and not raising:
            vc.fact(Tok, c01.untrainable(st0, mem, is_spam), 'the message was trained')
            vc.assume((st0.nspam if is_spam else st0.nham) >= 1)
        assume_valid_cache(vc, clf, right(st0.nspam, st0.nham))
        vc.invariants(c01.count_candidates(vc, clf, st0, sign, is_spam))
        r, exc = vc.attempt(lambda: vc.method(clf, name, ws, is_spam))
        if raising: vc.prove('the exception of the stream is raised', exc is not None)
        else: vc.prove('no exception', exc is None)
        st = State(cx, clf)
        pc = cache_fields(vc, clf)
        vc.prove('cached probabilities are those of the new totals', valid_cache(pc, st.nspam, st.nham, right(st.nspam, st.nham)), (I, I))
        vc.cover('end')
    return dict(name='%s(%s)%s keeps the cache right' % (name, 'spam' if pre[1] else 'ham', ' of a stream that raises' if pre[0] else ''),
                fn=run, covers=['end'])


def setstate():
    def run(vc):
        cx = vc.cx
        clf = sym_classifier(vc)
        from sbclassifier.classifiers import basic as b
        dom = z3.Function('dom1', Tok, B)
        val = z3.Function('rec1', Tok, I)
        wi = PyDict(dom=memo1(lambda t: dom(t)), val=memo1(lambda t: SRef(WordInfo, val(t))), site='loaded', sort=Tok)
        ns, nh = z3.Int('ns1'), z3.Int('nh1')
        cx.assume(z3.And(ns >= 0, nh >= 0))
        st = State(cx, clf)
        assume_valid_cache(vc, clf, right(st.nspam, st.nham))
        r, exc = vc.attempt(lambda: vc.method(clf, '__setstate__', (b.PICKLE_VERSION, wi, SInt(ns), SInt(nh))))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        st = State(cx, clf)
        vc.prove('totals loaded', z3.And(st.nspam == ns, st.nham == nh))
        pc = cache_fields(vc, clf)
        vc.prove('cached probabilities are those of the new totals', valid_cache(pc, st.nspam, st.nham, right(st.nspam, st.nham)), (I, I))
        vc.cover('end')
    return dict(name='__setstate__ keeps the cache right', fn=run, covers=['end'])


def new():
    def run(vc):
        heap_init(vc)
        clf = vc.call(Classifier)
        pc = cache_fields(vc, clf)
        vc.prove('no probability is cached', valid_cache(pc, z3.IntVal(0), z3.IntVal(0), right(z3.IntVal(0), z3.IntVal(0))), (I, I))
        vc.cover('end')
    return dict(name='a new classifier', fn=run, covers=['end'])


def distance():
    """What scoring looks up for a word."""
    def run(vc):
        cx = vc.cx
        sc = Scoring(vc)
        sc.invariants()
        r, exc = sc.run(True)
        vc.prove('no exception', exc is None)
        if exc is not None: return
        score, E, n, clue = evidence_parts(r)
        inr = lambda i: z3.And(i >= 0, i < n)
        vc.prove('the probability of a clue is that of the counts of its word', lambda i: z3.Implies(inr(i), clue(i)[1] == sc.p(clue(i)[0])), I)
        vc.prove('no unknown word is a clue', lambda i: z3.Implies(inr(i), sc.known(clue(i)[0])), I)
        vc.cover('end')
    return dict(name='spamprob uses probability', fn=run, covers=['end'])


def targets(tier):
    out = [probability(), new(), setstate(), distance()]
    for spam in (True, False):
        for name, sign in (('learn', 1), ('unlearn', -1)):
            for raising in (False, True):
                out.append(keeps_cache(name, None, (raising, spam, sign)))
    return out


def cases(rng):
    import random
    while True:
        if rng.random() < 0.5: yield dict(kind='score', case=R_.scoring_case(rng))
        else: yield dict(kind='history', case=R_.history_case(rng, extra=('reload',)))


def run_case(case):
    if case['kind'] == 'score':
        clf, tokens = R_.scoring_setup(case['case'])
        try: s, ev = clf.spamprob(R_.stream(tokens, case['case']['it']), True)
        except Exception as e: return 'spamprob raised %r' % (e,)
        for w, p in ev[2:]:
            if abs(p - R_.clf_prob(clf, w)) > 1e-9: return 'clue %r has probability %r, expected %r' % (w, p, R_.clf_prob(clf, w))
        for w in tokens:
            r = clf.wordinfo.get(w)
            if r is not None and abs(clf.probability(r) - R_.clf_prob(clf, w)) > 1e-9:
                return 'probability of %r is %r, expected %r' % (w, clf.probability(r), R_.clf_prob(clf, w))
        return None
    case = case['case']
    clf = Classifier(use_bigrams=case['bigrams'])
    words = set()
    for op in case['ops']:
        if op[0] in ('learn', 'unlearn', 'score'): words |= set(R_.dec(op[1]))
    words = sorted(words)
    rnd = [0]
    def after(op, ref):
        rnd[0] += 1
        if rnd[0] % 3 == 2: return None
        s, ev = clf.spamprob(words, True)
        got = dict(ev[2:])
        for w in words:
            p = ref.prob(w)
            if w in got and abs(got[w] - p) > 1e-9: return 'the probability of %r is %r, expected %r' % (w, got[w], p)
            if len(words) <= 150 and w not in got and abs(p - 0.5) >= 0.1 + 1e-9:
                return 'the probability of %r is %r, but it is no clue' % (w, p)
        return None
    def reload(op):
        import pickle
        st = pickle.loads(pickle.dumps(clf))
        if len(case['ops']) % 2: clf.__setstate__(st.__getstate__())
        else:
            # data of another history and back
            own = pickle.loads(pickle.dumps(clf)).__getstate__()
            clf.__setstate__((own[0], {}, own[2] + 3, own[3] + 1))
            clf.spamprob(words)
            clf.__setstate__(own)
        return None
    return R_.play(case, clf, after, hooks={'reload': reload})
