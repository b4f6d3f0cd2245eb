"""Trainers train on addition and untrain on removal."""
import blinker
import json
from .lib import *
from .. import models
from ..interp import Bound
from .msglib import sym_message, Stretch, same_value
from sbclassifier import trainers
from sbclassifier.corpora import base
from sbclassifier.trainers import Trainer, SpamTrainer, HamTrainer

ASSUMPTIONS = [
    'corpora are any objects; a trainer lives as long as it is to listen (blinker refers to it weakly)',
    'tokenize(message) gives the tokens of the message and does not change it (C27)',
    'a message is added and removed once for each notification (C19)',
]
TRUSTED = ['blinker: after connect(receiver, sender=c), send(c, message=m) calls receiver(c, message=m) once, and no other receiver that was '
           'not connected for c or for any sender; connecting the same method for the same sender again changes nothing']


class Stream(Ext):
    """tokenize(message): a one-shot stream."""
    def __init__(self, n, at):
        super().__init__('stream')
        self.n, self.at, self.used = n, at, False
    def m___iter__(self, interp, a, kw):
        if self.used: return PyList([])
        self.used = True
        core.cx().register_index(self.n)
        return SymIter('seq', self.n, lambda k: STok(self.at(k)), src='stream')


class AnyClassifier(Ext):
    """A classifier of any kind: what it is asked to learn is logged."""
    def __init__(self, vc, fails):
        super().__init__('classifier')
        self.vc, self.fails, self.log = vc, fails, []
    def note(self, what, a, kw):
        words = a[0] if a else kw.get('wordstream', kw.get('words'))
        spam = a[1] if len(a) > 1 else kw.get('is_spam')
        self.log.append((what, tokens_of(self.vc, words), force(spam)))
        if self.fails is not None: ops.raise_(self.fails, what)
    def m_learn(self, interp, a, kw): self.note('learn', a, kw)
    def m_unlearn(self, interp, a, kw): self.note('unlearn', a, kw)
    def m_store(self, interp, a, kw): raise Unsupported('store')


def tokens_of(vc, v):
    v = force(v)
    if isinstance(v, Stream):
        used, v.used = v.used, True
        return ('used up',) if used else (v.n, v.at)
    l = models.to_pylist(vc.i, v, 'words')
    return (l.length(), lambda i: keyterm(l.get(i)))


class Registry:
    """(signal, receiver) -> the senders for which it was connected."""
    def __init__(self, vc):
        self.sets, self.any = {}, []
        def connect(interp, a, kw):
            sig, recv = force(a[0]), force(a[1])
            sender = force(kw.get('sender', a[2] if len(a) > 2 else blinker.ANY))
            self.add(sig, recv, sender)
            return recv
        vc.i.models[id(blinker.Signal.connect)] = connect
        for s in (base.message_added, base.message_removed):
            for m in sorted(n for n in dir(Trainer) if not n.startswith('__') and callable(getattr(Trainer, n))): self.sets[(id(s), m)] = PySet(mem=lambda t: z3.BoolVal(False), site='connected', sort=Tok)

    def add(self, sig, recv, sender):
        if not isinstance(recv, Bound): raise Unsupported('a receiver that is not a method')
        name = recv.func.__name__ if hasattr(recv.func, '__name__') else str(recv.func)
        key = (id(sig), name)
        if not (isinstance(recv.self_, Obj) and issubclass(recv.self_.cls, Trainer)): raise Unsupported('a method of something else')
        if sender is blinker.ANY or sender is None:
            self.any.append(key)
            return
        if not isinstance(sender, STok): raise Unsupported('sender %r' % (sender,))
        s = self.sets.get(key)
        if s is None: raise Unsupported('receiver %s' % name)
        ops.set_add(s, sender)


def start(vc, label, fails=None, n=None):
    cx = vc.cx
    reg = Registry(vc)
    clf = AnyClassifier(vc, fails)
    N = z3.Int('n_corpora')
    vc.assume(N >= 0)
    at = z3.Function('corpus', I, Tok)
    mem = z3.Function('listens_to', Tok, B)
    pos = z3.Function('corpus_pos', Tok, I)
    def f1(t):
        cx.register_index(pos(t))
        return z3.Implies(mem(t), z3.And(pos(t) >= 0, pos(t) < N, at(pos(t)) == t))
    cx.add_fact(Tok, f1, 'the corpora')
    cx.add_fact(IDX, lambda i: z3.Implies(z3.And(i >= 0, i < N), mem(at(i))), 'the corpora')
    def elem(i):
        cx.register(at(i))
        return STok(at(i))
    corpora = SymIter('seq', N, elem, src='corpora')
    def inv(loop):
        out = []
        if loop.kind != 'seq': return out
        for key, s in reg.sets.items():
            if any(o is s for o, _, _ in loop.objects()):
                has, k = ops.snapshot_mem(s), loop.k
                out += [('so far %s' % key[1], I, lambda j, has=has, k=k: z3.Implies(z3.And(j >= 0, j < k), has(at(j)))),
                        ('only these %s' % key[1], Tok, lambda t, has=has: z3.Implies(has(t), mem(t)))]
        return out
    vc.invariants(inv)
    if label == 'any':
        flag = z3.Bool('is_spam')
        tr = vc.attempt(lambda: vc.call(Trainer, clf, SBool(flag), corpora))
        want = SBool(flag)
    else:
        cls = {True: SpamTrainer, False: HamTrainer}[label]
        tr = vc.attempt(lambda: vc.call(cls, clf, corpora))
        want = label
    return reg, clf, tr, mem, want


def connected(label):
    def run(vc):
        reg, clf, (tr, exc), mem, want = start(vc, label)
        vc.prove('no exception', exc is None)
        if exc is not None: return
        vc.prove('connected for certain senders only', not reg.any)
        vc.prove('nothing is learned yet', not clf.log)
        for sig, what in ((base.message_added, 'added'), (base.message_removed, 'removed')):
            sets = [(k, s) for k, s in reg.sets.items() if k[0] == id(sig)]
            vc.prove('%s: a method hears of all corpora given, and of no others' % what, lambda t, sets=sets: z3.Or([s.mem(t) for k, s in sets]) == mem(t), Tok)
            vc.prove('%s: by one method' % what, lambda t, sets=sets: z3.And([z3.Not(z3.And(a[1].mem(t), b[1].mem(t))) for a in sets for b in sets if a is not b] or [z3.BoolVal(True)]), Tok)
        vc.cover('end')
    return dict(name='a new trainer listens%s' % NAMES[label], fn=run, covers=['end'])


NAMES = {'any': '', True: ' (SpamTrainer)', False: ' (HamTrainer)'}


def heard(label, what, fails):
    """What the methods connected do, when they are called."""
    def run(vc):
        cx = vc.cx
        reg, clf, (tr, exc), mem, want = start(vc, label, fails)
        if exc is not None: return
        n = z3.Int('n_tokens')
        vc.assume(n >= 0)
        at = z3.Function('token', I, Tok)
        m = sym_message(vc, [Stretch('headers', ())], messageid=SStr(z3.String('id'), str), c=None, t=STok(z3.Const('label before', Tok)))
        before = m.fields['t']
        streams = []
        def tokenize(interp, a, kw):
            v = force(a[0])
            if v is not m: raise Unsupported('tokenize of something else')
            streams.append(1)
            return Stream(n, at)
        vc.i.overrides['sbclassifier.tokenizer:tokenize'] = tokenize
        from sbclassifier import tokenizer
        vc.i.models[id(tokenizer.tokenize)] = tokenize
        sig = {'added': base.message_added, 'removed': base.message_removed}[what]
        sender = z3.Const('sender', Tok)
        cx.register(sender)
        vc.assume(mem(sender))
        # the receivers that blinker calls
        called = 0
        exc = None
        for key, s in reg.sets.items():
            if key[0] == id(sig) and cx.branch(s.mem(sender)):
                called += 1
                r, exc = vc.attempt(lambda: vc.i.apply(vc.i.getattr_(tr, key[1]), [STok(sender)], {'message': m}))
        verb = {'added': 'learn', 'removed': 'unlearn'}[what]
        vc.prove('once', called == 1 and [x[0] for x in clf.log] == [verb])
        if called != 1 or len(clf.log) != 1: return
        _, toks, spam = clf.log[0]
        vc.prove('with the label of the trainer', ops.as_term_bool(vc.i.truth_term(spam)) == ops.as_term_bool(want.t if isinstance(want, SBool) else want))
        vc.prove('with the tokens of the message', len(toks) == 2 and toks[0] == n)
        if len(toks) == 2: vc.prove('each of them, in order', lambda i: z3.Implies(z3.And(i >= 0, i < n), toks[1](i) == at(i)), I)
        now = force(m.fields['t'])
        if fails is not None:
            vc.prove('the failure is reported', exc is not None and issubclass(exc.cls, fails))
            vc.prove('the record stays', now is before)
        else:
            vc.prove('no exception', exc is None)
            if what == 'removed': vc.prove('no training is remembered', now is None)
            else: vc.prove('the label is remembered', now is not None and ops.as_term_bool(ops.eq(now, want)))
        vc.prove('nothing else of the message changes', same_value(m.fields['messageid'], m.start['messageid']) if hasattr(m, 'start') else True)
        vc.cover('end')
    return dict(name='a message is %s%s%s' % (what, NAMES[label], '' if fails is None else ', %s fails' % {'added': 'learning', 'removed': 'unlearning'}[what]), fn=run, covers=['end'])


def targets(tier):
    return [connected(l) for l in ('any', True, False)] + [heard(l, w, f) for l in ('any', True, False) for w in ('added', 'removed') for f in (None,) + ((ValueError,) if w == 'removed' else ())]


# ---------------------------------------------------------------- the real code

def cases(rng):
    while True:
        n = rng.randint(1, 4)
        trainers_ = [[rng.choice(['spam', 'ham', True, False]), sorted(rng.sample(range(n), rng.randint(0, n))), rng.random() < .3] for _ in range(rng.randint(1, 2))]
        ops_ = []
        for _ in range(rng.choice([1, 3, 8])): ops_.append([rng.choice(['add', 'add', 'remove', 'foul']), rng.randrange(n), rng.randrange(4), rng.random() < .9])
        yield dict(n=n, trainers=trainers_, ops=ops_)


BODIES = ['Subject: one\n\nalpha beta gamma alpha', 'Subject: two\n\nbeta delta', 'From: x@y.z\n\n', 'Subject: alpha\n\nalpha alpha alpha beta']


class Recorder:
    def __init__(self): self.log, self.foul = [], False
    def learn(self, words, is_spam): self.log.append(('learn', list(words), is_spam))
    def unlearn(self, words, is_spam):
        self.log.append(('unlearn', list(words), is_spam))
        if self.foul: raise ValueError('foul')


def run_case(case):
    from sbclassifier.corpora.base import Corpus
    from sbclassifier.message import from_string
    from sbclassifier.tokenizer import tokenize
    corpora = [Corpus() for _ in range(case['n'])]
    listening = []
    for label, which, gen in case['trainers']:
        clf = Recorder()
        cs = [corpora[i] for i in which]
        if gen: cs = iter(cs)
        t = {'spam': SpamTrainer, 'ham': HamTrainer}[label](clf, cs) if isinstance(label, str) else Trainer(clf, label, cs)
        listening.append((t, clf, set(which), label in ('spam', True)))
    msgs = [from_string(b, message_id='m%d' % i) for i, b in enumerate(BODIES)]
    for step, (op, c, m, emit) in enumerate(case['ops']):
        where = 'step %d %s: ' % (step, op)
        msg = msgs[m]
        before = msg.is_trained()
        for _, clf, _, _ in listening:
            del clf.log[:]
            clf.foul = op == 'foul'
        failed = None
        try:
            if op == 'add': corpora[c].add_message(msg, emit_signal=emit)
            else: corpora[c].remove_message(msg, emit_signal=emit)
        except ValueError as e: failed = e
        except Exception as e: return where + 'raised %r' % (e,)
        want = list(tokenize(msg))
        heard = [x for x in listening if emit and c in x[2]]
        for x in listening:
            expect = [('learn' if op == 'add' else 'unlearn', want, x[3])] if x in heard else []
            if failed and len(heard) > 1: continue            # the order of receivers is not said
            if x[1].log != expect: return where + 'the classifier was given %s, expected %s' % ([(a, len(b), s) for a, b, s in x[1].log], [(a, len(b), s) for a, b, s in expect])
        now = msg.is_trained()
        if op == 'add' and heard and now not in [x[3] for x in heard]: return where + 'remembered %r' % (now,)
        if op == 'remove' and heard and now is not None: return where + 'remembered %r' % (now,)
        if (not heard or op == 'foul') and now is not before: return where + 'remembered %r, was %r' % (now, before)
        if op == 'foul' and heard and failed is None: return where + 'the failure was hidden'
    return None
