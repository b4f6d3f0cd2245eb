"""Without URLs to follow the slurping classifier adds nothing."""
import os
import socket

import requests
from .lib import *
from .pairlib import *
from .. import models
from ..interp import ModelMethod
from . import c01
from . import ref as R_
from sbclassifier.classifiers import slurping
from sbclassifier.classifiers.slurping import SlurpingClassifier
from sbclassifier.corpora.filesystem import ExpiryFileCorpus

MOD = 'sbclassifier.classifiers.slurping:'
ASSUMPTIONS = c01.ASSUMPTIONS + ASSUMPTIONS_PAIRS + [
    'the directory of the URL cache can be created and read, and the pickles in it can be loaded or fail with OSError or ValueError',
    'spamprob() of the plain classifier gives a function of its state and the tokens (C03 to C06), and does not change the state (C07)']
TRUSTED = ['ExpiryFileCorpus(...) and remove_expired_messages() touch only the files of the URL cache (C17 to C19 and C31)']

PRIMITIVES = [socket.getaddrinfo, socket.gethostbyname, socket.gethostbyname_ex, socket.gethostbyaddr, socket.getfqdn, socket.create_connection]


class Cache(Ext):
    """The URL cache: remove_expired_messages() is all that is called."""
    def __init__(self): super().__init__('url cache')
    def m_remove_expired_messages(self, interp, a, kw): return None


class Stored(Ext):
    """What was stored of earlier URLs."""
    def __init__(self): super().__init__('stored')


def world(vc):
    """No URL was collected; the cache directory in any state; the network is
    out of bounds."""
    cx, i = vc.cx, vc.i
    if slurping.slurp_wordstream is not None: raise Unsupported('a URL is collected when the module is loaded')
    def network(interp, args, kw):
        vc.prove('no network access', z3.BoolVal(False))
        raise Unsupported('network access')
    for f in PRIMITIVES:
        i.overrides['%s:%s' % (f.__module__, f.__qualname__)] = network
        i.models[id(f)] = network
    for name in ('get', 'post', 'head', 'request', 'put', 'options'):
        f = getattr(requests, name)
        i.overrides['%s:%s' % (f.__module__, f.__qualname__)] = network
    i.classmodels[(socket.socket, '__new__')] = ModelMethod(lambda interp, cls, args, kw: network(interp, args, kw))
    i.classmodels[(requests.Session, '__new__')] = ModelMethod(lambda interp, cls, args, kw: network(interp, args, kw))
    def exists(interp, args, kw): return SBool(cx.fresh('exists', B))
    for f in (os.path.exists, os.path.isdir, os.path.isfile): i.overrides['%s:%s' % (f.__module__, f.__qualname__)] = exists
    for f in (os.path.exists, os.path.isdir, os.path.isfile): i.models[id(f)] = exists
    for f in (os.makedirs, os.mkdir):
        i.overrides['%s:%s' % (f.__module__, f.__qualname__)] = lambda interp, args, kw: None
        i.models[id(f)] = lambda interp, args, kw: None
    i.classmodels[(ExpiryFileCorpus, '__new__')] = ModelMethod(lambda interp, cls, args, kw: Cache())
    def read(interp, args, kw):
        how = cx.choose(3)
        if how == 1: raise PyRaise(ExcVal(OSError, ()))
        if how == 2: raise PyRaise(ExcVal(ValueError, ()))
        return Stored()
    i.overrides['sbclassifier.safepickle:pickle_read'] = read
    i.overrides['sbclassifier.safepickle:pickle_write'] = lambda interp, args, kw: None


def slurper(bigrams, used):
    def make(vc):
        world(vc)
        more = dict(setup_done=True, urlCorpus=Cache(), bad_urls=Stored(), http_error_urls=Stored(), do_slurp=True) if used == 2 else \
            dict(setup_done=True, urlCorpus=Cache(), bad_urls=Stored(), http_error_urls=Stored()) if used else {}
        return sym_classifier(vc, SlurpingClassifier, bigrams=bigrams, **more)
    return make


def named(t, how): return dict(t, name=t['name'] + ', ' + how)


def training(tier):
    out = []
    for used in (0, 1, 2):
        for s in (True, False):
            kw = dict(make=slurper(False, used))
            nm = 'spam' if s else 'ham'
            h = ['first use', 'used before', 'after slurping'][used]
            out += [named(c01.learn(s, 'learn', **kw), h), named(c01.unlearn(s, 'unlearn', **kw), h)]
            if used == 1:
                out += [named(c01.learn(s, 'learn_' + nm, **kw), h), named(c01.unlearn(s, 'unlearn_' + nm, **kw), h),
                        named(c01.learn(s, 'learn', True, **kw), h), named(c01.unlearn(s, 'unlearn', True, **kw), h),
                        named(c01.refuse(s, 'unlearn', **kw), h)]
                for kind in ('an iterator', 'a list'):
                    kw = dict(make=slurper(True, used), stream=pair_stream(kind[2:].strip()), extra=collected)
                    out += [named(c01.learn(s, 'learn', **kw), h + ', pairs of %s' % kind), named(c01.unlearn(s, 'unlearn', **kw), h + ', pairs of %s' % kind)]
    return out


class Clues(Ext):
    """The evidence of the plain classifier: a list of any length."""
    def __init__(self, n):
        super().__init__('clues')
        self.n = n
    def m___len__(self, interp, a, kw): return SInt(self.n)
    def m___iter__(self, interp, a, kw): raise Unsupported('goes through the evidence')


def scoring(evidence, bigrams, used):
    """spamprob() calls that of the plain classifier with the tokens, and
    returns what it returns."""
    def run(vc):
        cx = vc.cx
        clf = slurper(bigrams, used)(vc)
        st0 = State(cx, clf)
        ws, mem, n, at = words_stream(vc)
        assume_inv(vc, clf_invariant(st0))
        score, m = z3.Real('score'), z3.Int('n_evidence')
        vc.assume(z3.And(score >= 0, score <= 1, m >= 0))
        clues, calls = Clues(m), []
        def h(interp, args, kw):
            a = dict(zip(['self', 'wordstream', 'evidence'], args)); a.update(kw)
            it = a['wordstream']
            if it is not ws or calls: raise Unsupported('other tokens')
            interp.drain(it)
            calls.append(1)
            if a['self'] is not clf: raise Unsupported('another classifier')
            ev = force(a.get('evidence', False))
            if not isinstance(ev, bool): raise Unsupported('evidence')
            return (SReal(score), clues) if ev else SReal(score)
        vc.i.overrides['sbclassifier.classifiers.basic:Classifier.spamprob'] = h
        r, exc = vc.attempt(lambda: vc.method(clf, 'spamprob', ws, evidence) if evidence is not None else vc.method(clf, 'spamprob', ws))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        r = force(r)
        if evidence:
            vc.prove('the score and the evidence', isinstance(r, tuple) and len(r) == 2)
            if not (isinstance(r, tuple) and len(r) == 2): return
            vc.prove('the same score', ops.toreal(force(r[0])) == score)
            vc.prove('the same evidence', force(r[1]) is clues)
        else: vc.prove('the same score', ops.toreal(r) == score)
        c01.prove_unchanged(vc, State(cx, clf), st0)
        vc.cover('end')
    return dict(name='spamprob, evidence %s%s, %s' % (evidence, ', pairs' if bigrams else '', 'used before' if used else 'first use'), fn=run, covers=['end'])


def new():
    def run(vc):
        heap_init(vc)
        world(vc)
        clf = vc.call(SlurpingClassifier)
        st = State(vc.cx, clf)
        vc.prove('no messages', z3.And(st.nspam == 0, st.nham == 0))
        vc.prove('no words', lambda w: z3.And(st.spam(w) == 0, st.ham(w) == 0, z3.Not(st.dom(w))), Tok)
        prove_inv(vc, clf_invariant(st))
        vc.cover('end')
    return dict(name='a new classifier', fn=run, covers=['end'])


def targets(tier):
    return [new()] + training(tier) + [scoring(e, b, u) for e in (True, False, None) for b in (False, True) for u in (0, 1)]


def cases(rng):
    while True: yield R_.history_case(rng, bigrams=(False, True))


class Network(Exception):
    pass


def run_case(case):
    def network(*a, **kw): raise Network(a)
    old = {f.__name__: f for f in PRIMITIVES}
    get = requests.get
    try:
        for name in old: setattr(socket, name, network)
        requests.get = network
        return compare(case)
    finally:
        for name, f in old.items(): setattr(socket, name, f)
        requests.get = get


def compare(case):
    kw = dict(use_bigrams=case['bigrams'])
    plain, clf = Classifier(**kw), SlurpingClassifier(**kw)
    def after(op, ref):
        f = R_.compare_state(clf, ref)
        if f or op[0] != 'score': return f
        tokens = R_.dec(op[1])
        for ev in (True, False):
            a, b = plain.spamprob(R_.stream(tokens, op[2]), ev), clf.spamprob(R_.stream(tokens, op[2]), ev)
            if a != b: return 'spamprob gives %r, that of the plain classifier %r' % (b, a)
        return None
    def both(op, ref):
        if op[0] in ('learn', 'unlearn'): getattr(plain, op[0])(R_.dec(op[1]), op[2])
        if op[0] == 'again':
            for _ in range(op[3]): plain.learn(R_.dec(op[1]), op[2])
        if op[0] == 'many':
            m = ['many%d' % j for j in range(op[2])]
            plain.learn([w.encode() for w in m] if case['kind'] == 'bytes' else m, op[1])
        return after(op, ref)
    return R_.play(case, clf, both)
