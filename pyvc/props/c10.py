"""The database classifier behaves as the in-memory one."""
from .lib import *
from .shelf import *
from . import ref as R_
from . import c01, c02

TOUCHES_FILES = True
ASSUMPTIONS = c01.ASSUMPTIONS


def get():
    def run(vc):
        cx = vc.cx
        clf = sym_shelve(vc)
        st0 = State(cx, clf)
        assume_inv(vc, st0.invariant())
        w = z3.Const('w', Tok)
        cx.register(w)
        r, exc = vc.attempt(lambda: vc.method(clf, '_wordinfoget', STok(w)))
        vc.prove('no exception', exc is None)
        st = State(cx, clf)
        r = force(r)
        if r is None:
            vc.cover('none')
            vc.prove('None only for unknown words', z3.Not(st0.dom(w)))
        elif isinstance(r, SRef):
            vc.cover('record')
            vc.prove('a record only for known words', z3.And(st0.dom(w), r.t >= 1))
            vc.prove('the record has the counts', z3.And(st.sp(r.t) == st0.spam(w), st.hm(r.t) == st0.ham(w)))
            vc.prove('the record is the one kept for the word', z3.And(st.cached(w), st.ref(w) == r.t))
        else: raise Unsupported('result %r' % (r,))
        frame(vc, st, st0)
    return dict(name='_wordinfoget', fn=run, covers=['none', 'record'])


def frame(vc, st, st0, inv=True):
    c01.prove_unchanged(vc, st, st0)
    shelf_unchanged(vc, st, st0)
    if inv: prove_inv(vc, st.invariant())


def same_state(a, b):
    return z3.And([ops.intterm(x) == ops.intterm(y) for x, y in zip(a, b)])


def shelf_unchanged(vc, st, st0):
    vc.prove('nothing is written to the shelf', st.writes == st0.writes)
    vc.prove('the shelf is not written', lambda w: z3.And(st.indb(w) == st0.indb(w), z3.Implies(st0.indb(w), z3.And(
        *[a == b for a, b in zip(counts(st.dbval(w)), counts(st0.dbval(w)))]))), Tok)
    vc.prove('the state entry is not written', z3.And(st.has_state == st0.has_state, z3.Implies(st0.has_state, same_state(st.state, st0.state))))


def cases(rng):
    while True:
        case = R_.history_case(rng, extra=('store', 'check'))
        case['messages'] = [R_.enc(R_.message(rng, R_.vocab(rng, case['kind'], 19), 30)) for _ in range(2)]
        yield case


def run_case(case):
    return R_.play_shelf(case)


def keys():
    """_db_key: a string, different for different words and from the state
    key; _word_from_db_key is its inverse."""
    def run(vc):
        cx = vc.cx
        from ..models import chars_below
        words = []
        for nm in ('w', 'v'):
            t = z3.String(nm)
            if cx.branch(z3.Bool(nm + '_is_str')): words.append(SStr(t, str))
            else:
                cx.assume(z3.InRe(t, chars_below(256)))
                words.append(SStr(t, bytes))
        ks = []
        for x in words:
            k, exc = vc.attempt(lambda: vc.call(storage._db_key, x))
            vc.prove('no exception', exc is None)
            if exc is not None: return
            k = force(k)
            vc.prove('a string', isinstance(k, str) or isinstance(k, SStr) and k.kind is str)
            vc.prove('not the key of the state', ops.strterm(k) != z3.StringVal(storage.STATE_KEY))
            ks.append(k)
        same = z3.BoolVal(False) if words[0].kind is not words[1].kind else words[0].t == words[1].t
        vc.prove('different words have different keys', z3.Implies(ops.strterm(ks[0]) == ops.strterm(ks[1]), same))
        r, exc = vc.attempt(lambda: force(vc.call(storage._word_from_db_key, ks[0])))
        vc.prove('the word can be found from the key', z3.BoolVal(False) if exc is not None or r is None or ops.kindof(r) is not words[0].kind
                 else ops.strterm(r) == words[0].t)
        vc.cover('str' if words[0].kind is str else 'bytes')
    return dict(name='keys of words', fn=run, covers=['str', 'bytes'])


def store_candidates(vc, clf, st0):
    def f(loop):
        st = State(vc.cx, clf)
        d = loop.done
        def as_shelf(w):
            if st.nocache or st.nodb: return z3.Not(st.cached(w))
            s, h = counts(st.dbval(w))
            return z3.And(st.indb(w), s == st.sp(st.ref(w)), h == st.hm(st.ref(w)))
        def same_db(w):
            return z3.And(st.indb(w) == st0.indb(w), *[a == b for a, b in zip(counts(st.dbval(w)), counts(st0.dbval(w)))])
        return [('nothing learned changes', Tok, lambda w: z3.And(st.dom(w) == st0.dom(w), st.spam(w) == st0.spam(w), st.ham(w) == st0.ham(w))),
                ('same records', Tok, lambda w: z3.And(st.cached(w) == st0.cached(w), st.ref(w) == st0.ref(w))),
                ('deleted words the same', Tok, lambda w: st.deleted(w) == st0.deleted(w)),
                ('changed words the same', Tok, lambda w: st.changed(w) == st0.changed(w)),
                ('totals unchanged', z3.And(st.nspam == st0.nspam, st.nham == st0.nham)),
                ('handled changed words are as in the shelf', Tok, lambda w: z3.Implies(z3.And(d(w), st.cached(w)), as_shelf(w))),
                ('cached words are as in the shelf', Tok, lambda w: z3.Implies(st.cached(w), as_shelf(w))),
                ('handled deleted words are not in the shelf', Tok, lambda w: z3.Implies(z3.And(d(w), st.deleted(w)), z3.Not(st.indb(w)))),
                ('deleted words are not in the shelf', Tok, lambda w: z3.Implies(st.deleted(w), z3.Not(st.indb(w)))),
                ('other words stay as they are in the shelf', Tok, lambda w: z3.Implies(z3.Not(z3.Or(st.deleted(w), st.cached(w))), same_db(w)))] + st.invariant()
    return f


def store():
    def run(vc):
        clf = sym_shelve(vc)
        st0 = State(vc.cx, clf)
        assume_inv(vc, st0.invariant())
        vc.invariants(store_candidates(vc, clf, st0))
        r, exc = vc.attempt(lambda: vc.method(clf, 'store'))
        vc.prove('no exception', exc is None)
        st = State(vc.cx, clf)
        c01.prove_unchanged(vc, st, st0)
        prove_inv(vc, st.invariant())
        vc.cover('end')
    return dict(name='store', fn=run, covers=['end'])


def targets(tier):
    from . import c05, c06
    mk = sym_shelve
    out = [get(), keys(), store(), c05.clues_target(make=mk), c06.combination(False, make=mk)]
    for s in (True, False):
        nm = 'spam' if s else 'ham'
        out += [c01.learn(s, 'learn', make=mk), c01.learn(s, 'learn', True, make=mk), c01.learn(s, 'learn_' + nm, make=mk), c01.unlearn(s, 'unlearn_' + nm, make=mk),
                c01.unlearn(s, 'unlearn', make=mk), c01.unlearn(s, 'unlearn', True, make=mk), c01.refuse(s, 'unlearn', make=mk)]
    return out
