"""What a database classifier stores it finds again."""
from .lib import *
from .shelf import *
from . import ref as R_
from . import c01, c10

TOUCHES_FILES = True
ASSUMPTIONS = c01.ASSUMPTIONS


def same_learned(vc, st, st0):
    vc.prove('the same totals', z3.And(st.nspam == st0.nspam, st.nham == st0.nham))
    vc.prove('the same words, with the same counts', lambda w: z3.And(st.dom(w) == st0.dom(w), st.spam(w) == st0.spam(w), st.ham(w) == st0.ham(w)), Tok)
    prove_inv(vc, st.invariant())


def stored(then):
    """Any state is stored; then the file is opened or loaded again."""
    def run(vc):
        clf = sym_shelve(vc)
        st0 = State(vc.cx, clf)
        assume_inv(vc, st0.invariant())
        vc.invariants(c10.store_candidates(vc, clf, st0))
        r, exc = vc.attempt(lambda: vc.method(clf, 'store'))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        if then == 'load':
            r, exc = vc.attempt(lambda: vc.method(clf, 'load'))
            again = clf
        else:
            def reopen():
                if then == 'close': vc.method(clf, 'close')
                return vc.call(ShelveClassifier, 'words.db', *((then,) if len(then) == 1 else ()))
            again, exc = vc.attempt(reopen)
        vc.prove('no exception afterwards', exc is None)
        if exc is not None: return
        st = State(vc.cx, again)
        same_learned(vc, st, st0)
        # what it learned is there without what is in memory
        vc.prove('the shelf alone has it', lambda w: z3.And(st.indb(w) == st0.dom(w), z3.Implies(st.indb(w), z3.And(
            counts(st.dbval(w))[0] == st0.spam(w), counts(st.dbval(w))[1] == st0.ham(w)))), Tok)
        vc.cover('end')
    return dict(name='store, then %s' % {'load': 'load', 'close': 'close and open', 'r': 'open for reading', 'w': 'open for writing'}[then], fn=run, covers=['end'])


def opened(how):
    """A file opened: totals and words are those of the file."""
    def run(vc):
        cx = vc.cx
        clf0 = sym_shelve(vc)
        file = clf0.fields['db'].file
        dom, val, present, state = file.now
        if how == 'empty':
            file.now = (lambda t: z3.BoolVal(False), None, False, ())
        elif how == 'version':
            v = z3.Int('version')
            cx.assume(v != storage.PICKLE_VERSION)
            file.now = (dom, val, True, (SInt(v),) + state[1:])
        else:
            file.now = (dom, val, True, state)
            ns, nh = ops.intterm(state[1]), ops.intterm(state[2])
            cx.assume(z3.And(ns >= 0, nh >= 0))
            vc.fact(Tok, lambda w: z3.Implies(dom(w), valid(counts(val(w)), ns, nh)), 'counts in the file')
        clf, exc = vc.attempt(lambda: vc.call(ShelveClassifier, 'words.db'))
        if how == 'version':
            vc.prove('ValueError', exc is not None and exc.cls is ValueError)
            vc.cover('end')
            return
        vc.prove('no exception', exc is None)
        if exc is not None: return
        st = State(cx, clf)
        if how == 'empty':
            vc.prove('no messages', z3.And(st.nspam == 0, st.nham == 0))
            vc.prove('no words', lambda w: z3.Not(st.dom(w)), Tok)
        else:
            vc.prove('the totals of the file', z3.And(st.nspam == ns, st.nham == nh))
            vc.prove('the words of the file', lambda w: z3.And(st.dom(w) == dom(w), z3.Implies(dom(w), z3.And(
                st.spam(w) == counts(val(w))[0], st.ham(w) == counts(val(w))[1]))), Tok)
        prove_inv(vc, st.invariant())
        vc.cover('end')
    return dict(name={'empty': 'opening a new file', 'version': 'opening a file of another version', 'file': 'opening a file'}[how], fn=run, covers=['end'])


def valid(c, ns, nh):
    s, h = c
    return z3.And(s >= 0, h >= 0, s + h >= 1, s <= ns, h <= nh)


def targets(tier):
    out = [stored(t) for t in ('close', 'load', 'r', 'w')] + [opened(h) for h in ('file', 'empty', 'version')]
    out += [c10.keys(), c10.get()]
    for s in (True, False):
        out += [c01.learn(s, 'learn', make=sym_shelve), c01.unlearn(s, 'unlearn', make=sym_shelve)]
    return out


def cases(rng):
    while True:
        case = R_.history_case(rng, extra=('store', 'check', 'reopen', 'load', 'peek'))
        case['ops'].append([rng.choice(['reopen', 'load'])])
        yield case


def run_case(case):
    return R_.play_shelf(case)
