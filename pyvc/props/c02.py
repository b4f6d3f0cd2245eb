"""Untraining is the exact inverse of training."""
from .lib import *
from . import ref as R_
from . import c01
from .c01 import *


def two_streams(vc):
    """Two streams of the same message: the same set of tokens, possibly in
    another order and with other repetitions."""
    ws, mem, n, at = words_stream(vc, 'm')
    ws2, mem2, n2, at2 = words_stream(vc, 'again')
    vc.fact(Tok, lambda w: mem(w) == mem2(w), 'same message')
    return ws, ws2, mem


def roundtrip(is_spam):
    def run(vc):
        clf = sym_classifier(vc)
        cx = vc.cx
        st0 = State(cx, clf)
        ws, ws2, mem = two_streams(vc)
        assume_inv(vc, clf_invariant(st0))
        vc.invariants(count_candidates(vc, clf, st0, 1, is_spam))
        vc.method(clf, 'learn', ws, is_spam)
        st1 = State(cx, clf)
        s, h = (1, 0) if is_spam else (0, 1)
        vc.prove('trained', lambda w: z3.And(st1.spam(w) == st0.spam(w) + s * indicator(mem(w)), st1.ham(w) == st0.ham(w) + h * indicator(mem(w))), Tok)
        vc.fact(Tok, lambda w: z3.And(st1.spam(w) == st0.spam(w) + s * indicator(mem(w)), st1.ham(w) == st0.ham(w) + h * indicator(mem(w))), 'trained')
        vc.invariants(count_candidates(vc, clf, st1, -1, is_spam))
        vc.method(clf, 'unlearn', ws2, is_spam)
        st = State(cx, clf)
        prove_unchanged(vc, st, st0)
        prove_inv(vc, clf_invariant(st))
        vc.cover('end')
    return dict(name='learn then unlearn (%s)' % ('spam' if is_spam else 'ham'), fn=run, covers=['end'])


def commute():
    """From the contracts of C01: an untraining cancels an earlier training
    whatever happened in between (one class; the other is not touched)."""
    def run(vc):
        c0, n0, c1, n1 = z3.Ints('c0 n0 c1 n1')
        m = z3.Int('m')
        d, e = z3.Ints('d e')
        # after learning the message: c0 + m, n0 + 1; after any history h that
        # is valid from there: c1, n1, while h from the state without the
        # message gives c0 + d, n0 + e (each step adds or subtracts a constant
        # that does not depend on the state)
        vc.assume(z3.And(m >= 0, m <= 1))
        vc.assume(z3.And(c1 == c0 + m + d, n1 == n0 + 1 + e))
        vc.prove('the counts are those without the message', c1 - m == c0 + d)
        vc.prove('the totals are those without the message', n1 - 1 == n0 + e)
    return dict(name='lemma: untraining cancels an earlier training', fn=run)


def targets(tier):
    out = [commute()]
    for s in (True, False):
        nm = 'spam' if s else 'ham'
        out += [roundtrip(s), c01.learn(s, 'learn'), c01.unlearn(s, 'unlearn'), c01.unlearn(s, 'unlearn_' + nm),
                refuse(s, 'unlearn'), refuse(s, 'unlearn_' + nm)]
    return out


ASSUMPTIONS = c01.ASSUMPTIONS + ['the message untrained is one that was trained with that label and not untrained since']


def cases(rng):
    while True:
        c = R_.history_case(rng)
        n = len(c['ops'])
        v = R_.vocab(rng, c['kind'], 6)
        m = R_.message(rng, v, 10)
        c['probe'] = [R_.enc(m), rng.random() < 0.5, rng.randint(0, n), R_.enc(v)]
        yield c


def run_case(case):
    toks, spam, at, v = case['probe']
    a, b = Classifier(), Classifier()
    tokens = R_.dec(toks)
    fa = R_.play(case, a, lambda op, ref: None)
    if fa: return fa
    # with the message trained at some point and untrained at the end
    ops = case['ops']
    ref = R_.Ref()
    f = R_.play(dict(case, ops=ops[:at]), b, lambda op, r: None, ref)
    if f: return f
    b.learn(list(tokens), spam)
    ref.learn(tokens, spam)
    f = R_.play(dict(case, ops=[o for o in ops[at:]]), b, lambda op, r: None, ref)
    if f: return f
    b.unlearn(iter(tokens), spam)
    if R_.clf_state(a) != R_.clf_state(b):
        return 'training and untraining %r as %s left %r instead of %r' % (tokens, spam, R_.clf_state(b), R_.clf_state(a))
    pa, pb = a.spamprob(R_.dec(v), True), b.spamprob(R_.dec(v), True)
    if pa != pb: return 'scores differ: %r, %r' % (pa, pb)
    for k in (True, False):
        c = Classifier()
        c.learn(tokens, not k)
        before = R_.clf_state(c)
        try: c.unlearn(tokens, k)
        except ValueError: pass
        except Exception as e: return 'untraining an empty class raised %r' % (e,)
        else: return 'untraining from an empty class was not refused'
        if R_.clf_state(c) != before: return 'a refused untraining changed %r to %r' % (before, R_.clf_state(c))
    return None
