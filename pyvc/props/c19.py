"""Corpus changes are announced exactly once."""
import blinker
from .lib import *
from .cachelib import *
from .fslib import *
from .. import models
from sbclassifier.corpora import base
from sbclassifier.corpora.base import Corpus
from sbclassifier.corpora.filesystem import FileCorpus

ASSUMPTIONS = [
    'receivers are arbitrary: what they do is not part of the corpus; they do not change it while it is being changed',
    'for a corpus of files: only the corpus changes its files; a file that cannot be deleted is logged, not an error',
]
TRUSTED = ['blinker: Signal.send(sender, message=m) calls each receiver connected to the signal for the sender once'] + TRUSTED_FS


class Log:
    """What happened, in order: changes of the cache and notifications."""
    def __init__(self, vc):
        self.events = []
        def send(interp, self_, a, kw):
            self.events.append(('sent', self_, a, kw))
            return PyList([])
        sending(vc, send)


def sending(vc, send):
    vc.i.models[id(blinker.Signal.send)] = lambda interp, a, kw: send(interp, force(a[0]), list(a[1:]), kw)


class AnyCache(Ext):
    """A cache of any class: its changes are logged, and may fail."""
    def __init__(self, log, fails):
        super().__init__('cache')
        self.log, self.fails = log, fails
    def change(self, what, args):
        if self.fails is not None: ops.raise_(self.fails, what)
        self.log.events.append((what,) + tuple(args))
    def m_put(self, interp, a, kw): self.change('put', [a[0] if a else kw['key'], a[1] if len(a) > 1 else kw['value']])
    def m_pop(self, interp, a, kw):
        self.change('pop', [a[0] if a else kw['key']])
        return STok(z3.Const('popped', Tok))
    # what the cache answers is not known
    def known(self): return core.cx().branch(core.cx().fresh('known', z3.BoolSort()))
    def message(self): return STok(core.cx().fresh('kept', Tok))
    def m_get(self, interp, a, kw): return self.message() if self.known() else (a[1] if len(a) > 1 else kw.get('default'))
    def m___getitem__(self, interp, a, kw):
        if not self.known(): ops.raise_(KeyError, a[0])
        return self.message()
    def m___contains__(self, interp, a, kw): return SBool(core.cx().fresh('known', z3.BoolSort()))
    def m___len__(self, interp, a, kw):
        n = core.cx().fresh('size', I)
        core.cx().assume(n >= 0)
        return SInt(n)


def is_signal(v, which): return v is {'added': base.message_added, 'removed': base.message_removed}[which]


def change(op, emit, fails, by_id=False):
    def run(vc):
        cx = vc.cx
        log = Log(vc)
        messages(vc)
        corpus = Obj(Corpus, 'corpus', message_cache=AnyCache(log, fails))
        msg = z3.Const('message', Tok)
        m = STok(msg)
        kw = {} if emit is None else {'emit_signal': SBool(z3.Bool('emit')) if emit == 'any' else emit}
        if by_id: kw['message_id'] = SStr(z3.String('key'), str)
        r, exc = vc.attempt(lambda: vc.method(corpus, '%s_message' % op, m, **kw))
        sent = [e for e in log.events if e[0] == 'sent']
        if fails is not None:
            vc.prove('the failure is reported', exc is not None and issubclass(exc.cls, fails))
            vc.prove('nothing is sent', not sent)
            vc.cover('end')
            return
        vc.prove('no exception', exc is None)
        if exc is not None: return
        wants = emit in (None, True)
        what, which = {'add': ('put', 'added'), 'remove': ('pop', 'removed')}[op]
        if emit == 'any': wants = cx.branch(z3.Bool('emit'))
        vc.prove('sent exactly once, if wanted', len(sent) == (1 if wants else 0))
        changes = [e for e in log.events if e[0] != 'sent']
        vc.prove('the corpus is changed once', len(changes) == 1 and changes[0][0] == what)
        if len(changes) == 1:
            key = z3.String('key') if by_id else id_of(msg)
            vc.prove('under the ID of the message', ops.strterm(force(changes[0][1])) == key)
            if op == 'add': vc.prove('with the message', force(changes[0][2]) is m)
        for e in sent:
            vc.prove('the right signal', is_signal(e[1], which))
            vc.prove('after the change', log.events.index(e) == len(log.events) - 1)
            a, k = list(e[2]), dict(e[3])
            vc.prove('from this corpus', len(a) == 1 and force(a[0]) is corpus)
            vc.prove('with this message', set(k) == {'message'} and force(k['message']) is m)
        vc.cover('end')
    return dict(name='%s_message%s, %s%s' % (op, ' under an ID' if by_id else '', {None: 'by default', True: 'switched on', False: 'switched off', 'any': 'switched by a variable'}[emit], '' if fails is None else ', fails with %s' % fails.__name__),
                fn=run, covers=['end'])


class OtherError(Exception): pass


LOOKS = {
    'get': lambda vc, c, k: vc.method(c, 'get', k), 'get with a default': lambda vc, c, k: vc.method(c, 'get', k, STok(z3.Const('default', Tok))), 'item': lambda vc, c, k: vc.i.getitem(c, k),
    'keys': lambda vc, c, k: models.to_set(vc.i, vc.method(c, 'keys'), 'seen'), 'values': lambda vc, c, k: vc.i.iter_(vc.method(c, 'values')), 'items': lambda vc, c, k: vc.i.iter_(vc.method(c, 'items')),
    'membership': lambda vc, c, k: vc.i.contains(c, k), 'length': lambda vc, c, k: vc.call(len, c), 'iteration': lambda vc, c, k: models.to_set(vc.i, vc.call(iter, c), 'seen'),
}


def look(how, files):
    """Reading a corpus sends nothing."""
    def run(vc):
        cx = vc.cx
        log = Log(vc)
        if files:
            from .c17 import start
            fs, cache, corpus, st0, old = start(vc)
            k = SStr(z3.String('key'), str)
            cx.register(k.t)
        else:
            messages(vc)
            cache = sym_cache(vc, True)
            corpus = Obj(Corpus, 'corpus', message_cache=cache)
            k = STok(z3.Const('key', Tok))
            cx.register(k.t)
        cx.ghost['sum'] = lambda interp, it: (models.stage_eval(it), SInt(z3.Int('number')))[1]
        def thunk():
            v = LOOKS[how](vc, corpus, k)
            if isinstance(v, SymIter):
                t = z3.Const('one', v.sort if v.kind == 'set' else I)
                cx.register(t)
                models.stage_eval(v)(t)
            return v
        r, exc = vc.attempt(thunk)
        vc.prove('nothing is sent', not log.events)
        vc.prove('no exception but for an unknown ID', exc is None or how == 'item' and exc.cls is KeyError)
        vc.cover('end')
    return dict(name='reading a corpus%s: %s' % (' of files' if files else '', how), fn=run, covers=['end'])


def whole(op, emit):
    """With a real cache: the notification comes when the change is done."""
    def run(vc):
        cx = vc.cx
        from .c17 import start
        fs, cache, corpus, st0, old = start(vc, faults=True)
        sent = []
        def send(interp, self_, a, kw):
            dom, val = fs.snapshot()
            sent.append((self_, dom, val, CacheState(cx, cache).dom))
            return PyList([])
        sending(vc, send)
        msg = z3.Const('message', Tok)
        k = z3.String('key')
        cx.register(k)
        vc.assume(id_of(msg) == k)
        r, exc = vc.attempt(lambda: vc.method(corpus, '%s_message' % op, STok(msg), emit_signal=emit))
        if exc is not None:
            vc.prove('nothing is sent after a failure', not sent)
            vc.cover('failed')
            return
        vc.prove('sent exactly once', len(sent) == (1 if emit else 0))
        dom, val = fs.snapshot()
        for s, d, v, mem in sent:
            vc.prove('when the files are changed', lambda t: z3.And(d(t) == dom(t), z3.Implies(dom(t), v(t) == val(t))), S)
            vc.prove('when the memory is changed', lambda t: mem(t) == CacheState(cx, cache).dom(t), S)
        vc.cover('end')
    return dict(name='%s_message of a file corpus%s' % (op, '' if emit else ', switched off'), fn=run, covers=['end'] + (['failed'] if op == 'add' else []))


def targets(tier):
    out = [change(op, emit, None, b) for op in ('add', 'remove') for emit in (None, True, False, 'any') for b in ((False, True) if op == 'add' else (False,))]
    out += [change(op, emit, e) for op in ('add', 'remove') for emit in (None, True, False) for e in (ValueError, OSError, KeyError, OtherError)]
    out += [whole(op, emit) for op in ('add', 'remove') for emit in (True, False)]
    return out + [look(h, f) for h in LOOKS for f in (False, True)]


# ---------------------------------------------------------------- the real code

TOUCHES_FILES = True


def cases(rng):
    from .corpusref import make_cases
    return make_cases(rng)


def run_case(case):
    from .corpusref import run
    return run(case, 'signals')
