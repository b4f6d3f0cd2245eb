"""A spam score is always a number in [0, 1]."""
from .scoring import *
from . import ref as R_

LIMIT = 2 ** 40
ASSUMPTIONS = [
    'fewer than 2**40 messages of each class have been trained',
    'floating-point numbers follow IEEE 754 double precision: every operation rounds monotonically with a relative '
    'error of at most 2**-53 while the exact result is at least 2**-1022, and an absolute one of at most 2**-1022 '
    'otherwise; results do not overflow',
    'math.exp is not negative and at most 1 for arguments that are not positive; math.log is not positive up to 1; '
    'math.frexp gives a mantissa in [1/2, 1) and an exponent below 0 for arguments in (0, 1/2)',
    'tokens are opaque hashable values with a total order among themselves (all str or all bytes)',
]
MIN_P = z3.Q(1, 2 ** 44)


def good(p): return z3.And(p >= MIN_P, p <= 1 - MIN_P)


def probability():
    def run(vc):
        cx = vc.cx
        cx.rounded = True
        clf = sym_classifier(vc)
        st = State(cx, clf)
        r = z3.Int('rec')
        s, h = st.sp(r), st.hm(r)
        cx.assume(z3.And(r >= 1, r < st.next))
        cx.assume(valid_counts(s, h, st.nspam, st.nham))
        cx.assume(z3.And(st.nspam < LIMIT, st.nham < LIMIT))
        # integers below 2**53 are doubles, so rounding keeps order with them
        cx.fixed += [z3.ToReal(s), z3.ToReal(h), z3.ToReal(s + h), z3.ToReal(st.nspam), z3.ToReal(st.nham), MIN_P, z3.simplify(1 - MIN_P)]
        assume_valid_cache(vc, clf, lambda p, s, h: good(p))
        p, exc = vc.attempt(lambda: vc.method(clf, 'probability', SRef(WordInfo, r)))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        vc.prove('the probability is strictly between 0 and 1', good(ops.toreal(p)))
        pc = cache_fields(vc, clf)
        vc.prove('so are the cached ones', valid_cache(pc, st.nspam, st.nham, lambda p, s, h: good(p)), (I, I))
        vc.cover('end')
    return dict(name='probability', fn=run, covers=['end'])


def chi2q():
    def run(vc):
        cx = vc.cx
        cx.rounded = True
        x, v = z3.Real('x2'), z3.Int('v')
        cx.assume(z3.And(x >= 0, v >= 2, v % 2 == 0))
        def inv(loop):
            out = []
            for o, what, val in loop.locals():
                if isinstance(val, (SReal, float)):
                    out.append(('%s.%s not negative' % (o.name, what), ops.toreal(val) >= 0))
            return out
        vc.invariants(inv)
        from sbclassifier.classifiers import basic
        q, exc = vc.attempt(lambda: vc.call(basic.chi2Q, SReal(x), SInt(v)))
        vc.prove('no exception', exc is None)
        if exc is None: vc.prove('between 0 and 1', z3.And(ops.toreal(q) >= 0, ops.toreal(q) <= 1))
        vc.cover('end')
    return dict(name='chi2Q', fn=run, covers=['end'])


def scoring(evidence):
    def run(vc):
        cx = vc.cx
        cx.rounded = True
        sc = Scoring(vc, post=good, chi_pre=lambda x, v: z3.And(x >= 0, v >= 2))
        sc.invariants()
        r, exc = sc.run(evidence)
        vc.prove('no exception', exc is None)
        if exc is not None: return
        if evidence:
            score, E, n, clue = evidence_parts(r)
            vc.prove('every probability in the evidence is strictly between 0 and 1',
                     lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(clue(i)[1] > 0, clue(i)[1] < 1)), I)
        else: score = force(r)
        t = ops.toreal(score)
        vc.prove('the score is between 0 and 1', z3.And(t >= 0, t <= 1))
        def no_clue():
            if evidence: return z3.Implies(n == 0, t == HALF)
            # farther than 0.1 from 0.5, up to the rounding of the distance
            strong = lambda w: z3.And(sc.mem(w), sc.dist(w) >= TENTH - z3.Q(1, 2 ** 50))
            cx.add_fact(Tok, lambda w: z3.Not(strong(w)))
            first_elements(vc)
            return t == HALF
        vc.prove('a message without clues scores exactly 0.5', no_clue)
        vc.cover('end')
    return dict(name='spamprob%s' % (' with evidence' if evidence else ''), fn=run, covers=['end'])


def targets(tier):
    return [probability(), chi2q(), scoring(False), scoring(True)]


def cases(rng):
    while True: yield R_.scoring_case(rng)


def run_case(case):
    clf, tokens = R_.scoring_setup(case)
    try:
        s = clf.spamprob(R_.stream(tokens, case['it']))
        s2, ev = clf.spamprob(R_.stream(tokens, case['it']), True)
    except Exception as e: return 'spamprob raised %r' % (e,)
    for x in (s, s2):
        if not isinstance(x, (int, float)) or not 0 <= x <= 1: return 'score %r' % (x,)
    for w, p in ev[2:]:
        if not 0 < p < 1: return 'probability %r of %r' % (p, w)
    if all(abs(R_.clf_prob(clf, w) - 0.5) < 0.1 - 1e-12 for w in set(tokens)) and (s, s2) != (0.5, 0.5):
        return 'score %r, %r without a clue' % (s, s2)
    return None
