"""Pair training covers every token and adjacent pair."""
from .pairlib import *
from . import c01
from . import ref as R_

ASSUMPTIONS = c01.ASSUMPTIONS + ['a message is all str or all bytes tokens'] + ASSUMPTIONS_PAIRS


def make(vc): return sym_classifier(vc, bigrams=True)


def token(kind):
    """bigram() gives for two tokens of a kind the same token of that kind each time."""
    def run(vc):
        x, y = SStr(z3.String('x'), kind), SStr(z3.String('y'), kind)
        r, exc = vc.attempt(lambda: vc.call(basic_.bigram, x, y))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        r2, exc = vc.attempt(lambda: vc.call(basic_.bigram, SStr(z3.String('x'), kind), SStr(z3.String('y'), kind)))
        vc.prove('no exception the second time', exc is None)
        if exc is not None: return
        r, r2 = force(r), force(r2)
        vc.prove('of the kind of the tokens', isinstance(r, SStr) and r.kind is kind and isinstance(r2, SStr) and r2.kind is kind)
        vc.prove('the same each time', ops.strterm(r) == ops.strterm(r2))
        vc.cover('end')
    return dict(name='the token of a pair (%s)' % kind.__name__, fn=run, covers=['end'])


def named(t, kind): return dict(t, name=t['name'] + ', pairs of %s' % kind)


def targets(tier):
    out = [token(str), token(bytes)]
    for s in (True, False):
        nm = 'spam' if s else 'ham'
        for kind in ('an iterator', 'a list'):
            kw = dict(make=make, stream=pair_stream(kind[2:]), extra=collected)
            out += [named(c01.learn(s, 'learn', **kw), kind), named(c01.learn(s, 'learn_' + nm, **kw), kind), named(c01.unlearn(s, 'unlearn', **kw), kind), named(c01.unlearn(s, 'unlearn_' + nm, **kw), kind)]
        kw = dict(make=make, stream=pair_stream('iterator'), extra=collected)
        out += [named(c01.learn(s, 'learn', True, **kw), 'an iterator'), named(c01.unlearn(s, 'unlearn', True, **kw), 'an iterator')]
    return out


def cases(rng):
    while True: yield R_.history_case(rng, bigrams=(True,))


def run_case(case):
    clf = basic_.Classifier(use_bigrams=True)
    return R_.play(case, clf, lambda op, ref: R_.compare_state(clf, ref))
