"""Scoring uses exactly the strongest clues."""
from .scoring import *
from . import ref as R_

ASSUMPTIONS = [
    'tokens are opaque hashable values with a total order among themselves (all str or all bytes)',
    'probability() meets its contract: a function of the two counts of a record, strictly between 0 and 1 (proved in C03 and C04)',
    'chi2Q() meets its contract: a number between 0 and 1 (proved in C03 and C06)',
    'floating-point arithmetic is real arithmetic; |p - 0.5| is compared with the double nearest to 0.1',
    'one thread; list.sort/sorted give a sorted permutation',
]


def clues_target(make=sym_classifier):
    def run(vc):
        cx = vc.cx
        sc = Scoring(vc, make=make)
        sc.invariants()
        r, exc = sc.run(True)
        vc.prove('no exception', exc is None)
        if exc is not None: return
        score, E, n, clue = evidence_parts(r)
        inr = lambda i: z3.And(i >= 0, i < n)
        def of_message(i):
            w, p = clue(i)
            return z3.Implies(inr(i), z3.And(sc.mem(w), sc.known(w)))
        vc.prove('every clue is a known token of the message', of_message, I)
        vc.prove('every clue has the probability of its own token', lambda i: z3.Implies(inr(i), clue(i)[1] == sc.p(clue(i)[0])), I)
        vc.prove('every clue is at least 0.1 away from 0.5', lambda i: z3.Implies(inr(i), sc.dist(clue(i)[0]) >= TENTH), I)
        vc.prove('at most 150 clues', n <= 150)
        vc.prove('the clues are distinct', lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i != j), clue(i)[0] != clue(j)[0]), (I, I))
        def left_out(w):
            cx.assume(z3.And(sc.mem(w), sc.dist(w) >= TENTH))
            cx.add_fact(IDX, lambda i: z3.Implies(inr(i), clue(i)[0] != w))
            follow(vc, w, 2)
        def only_at_limit(w):
            left_out(w)
            return n == 150
        vc.prove('a strong token is left out only if there are 150 others', only_at_limit, Tok)
        def weaker(w, i):
            left_out(w)
            return z3.Implies(inr(i), sc.dist(clue(i)[0]) >= sc.dist(w))
        vc.prove('no token left out is farther from 0.5 than a clue', weaker, (Tok, I))
        vc.cover('end')
    return dict(name='spamprob with evidence', fn=run, covers=['end'])


def targets(tier):
    return [clues_target()]


def cases(rng):
    while True: yield R_.scoring_case(rng)


def run_case(case):
    clf, tokens = R_.scoring_setup(case)
    try: s, ev = clf.spamprob(R_.stream(tokens, case['it']), True)
    except Exception as e: return 'spamprob raised %r' % (e,)
    f = check_clues(clf, set(tokens), ev)
    if f: return f
    other = list(tokens) + case_repeat(case, tokens)
    import random
    random.Random(len(tokens)).shuffle(other)
    strong = [w for w in set(tokens) if abs(R_.clf_prob(clf, w) - 0.5) >= 0.1 - 1e-12]
    if len(strong) <= 150:
        s2, ev2 = clf.spamprob(other, True)
        if abs(s2 - s) > 1e-9 or sorted(ev2[2:], key=repr) != sorted(ev[2:], key=repr):
            return 'order or repetition of tokens changed the score %r to %r (%r, %r)' % (s, s2, ev, ev2)
    return None


def case_repeat(case, tokens): return tokens[:len(tokens) // 2]


def check_clues(clf, words, ev):
    clues = ev[2:]
    ws = [w for w, p in clues]
    if len(set(ws)) != len(ws): return 'a clue occurs twice: %r' % (ws,)
    if not set(ws) <= words: return 'clues that are no tokens of the message: %r' % (set(ws) - words,)
    if len(ws) > 150: return '%d clues' % len(ws)
    d = {w: abs(R_.clf_prob(clf, w) - 0.5) for w in words}
    for w, p in clues:
        if abs(p - R_.clf_prob(clf, w)) > 1e-9: return 'clue %r has probability %r, expected %r' % (w, p, R_.clf_prob(clf, w))
        if d[w] < 0.1 - 1e-12: return 'clue %r is only %r away from 0.5' % (w, d[w])
    out = [w for w in words if w not in set(ws) and d[w] >= 0.1 + 1e-12]
    if out and len(ws) != 150: return '%r left out of %d clues' % (out[0], len(ws))
    if out and ws:
        a, b = max(d[w] for w in out), min(d[w] for w in ws)
        if a > b + 1e-12: return 'a token %r away from 0.5 was left out, one %r away is used' % (a, b)
    return None
