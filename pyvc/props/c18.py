"""A file corpus shows exactly the message files there are."""
from .lib import *
from .cachelib import *
from .fslib import *
from .c17 import start, same_files, frame
from .. import models
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier import message as message_module
from sbclassifier.message import Message

ASSUMPTIONS = ASSUMPTIONS_FS + [
    'no message file has one of the two reserved names, which no message can have as ID',
    'what is in memory was put there by add_message() (invariant: its file is there and has its bytes; kept by adding and removing, proved by C17) and nobody else removed its file',
    'a message in memory was not changed by the caller, and its ID is the one it was added under',
]
TRUSTED = TRUSTED_FS


def begin(vc):
    fs, cache, corpus, st0, old = start(vc)
    cx = vc.cx
    dom0, val0 = old
    cx.add_fact(S, lambda t: z3.Implies(st0.dom(t), z3.And(fs.valid(t), dom0(t), id_of(st0.val(t)) == t)), 'IDs in memory')
    shown = lambda t: z3.And(fs.valid(t), dom0(t))
    return fs, cache, corpus, st0, old, shown


def unchanged(vc, fs, cache, st0, old):
    same_files(vc, fs, old)
    frame(vc, fs, cache)
    st = CacheState(vc.cx, cache)
    dom0, val0 = old
    vc.prove('what is in memory has a file', lambda t: z3.Implies(st.dom(t), z3.And(dom0(t), fs.valid(t))), S)
    vc.prove('what was in memory is the same', lambda t: z3.Implies(z3.And(st.dom(t), st0.dom(t)), st.val(t) == st0.val(t)), S)


def is_message(v, k, content):
    """v is a message with ID k and this content."""
    v = force(v)
    if isinstance(v, STok): return z3.And(id_of(v.t) == k, bytes_of(v.t) == content)
    if isinstance(v, FileMsg): return z3.And(v.mid == k, v.content == content) if v.mid is not None else z3.BoolVal(False)
    return z3.BoolVal(False)


def lookup(how):
    def run(vc):
        cx = vc.cx
        fs, cache, corpus, st0, old, shown = begin(vc)
        k = z3.String('key')
        cx.register(k)
        default = STok(z3.Const('default', Tok))
        thunk = {'get': lambda: vc.method(corpus, 'get', SStr(k, str)), 'get with a default': lambda: vc.method(corpus, 'get', SStr(k, str), default),
                 'item': lambda: vc.i.getitem(corpus, SStr(k, str))}[how]
        r, exc = vc.attempt(lambda: force(thunk()))
        if exc is not None:
            vc.prove('KeyError for an unknown ID only', z3.And(z3.Not(shown(k)), z3.BoolVal(how == 'item' and exc.cls is KeyError)))
            vc.cover('KeyError')
        elif r is None or isinstance(r, STok) and r.t.eq(default.t):
            vc.prove('the default', (r is None) == (how == 'get') and how != 'item')
            vc.prove('for an unknown ID only', z3.Not(shown(k)))
            vc.cover('default')
        else:
            vc.prove('a message that is there', shown(k))
            vc.prove('with its ID and content', is_message(r, k, old[1](k)))
            vc.cover('message')
        unchanged(vc, fs, cache, st0, old)
    return dict(name='lookup: ' + how, fn=run, covers=['message'] + (['KeyError'] if how == 'item' else ['default']))


def member():
    def run(vc):
        fs, cache, corpus, st0, old, shown = begin(vc)
        k = z3.String('key')
        vc.cx.register(k)
        r, exc = vc.attempt(lambda: ops.as_term_bool(vc.i.contains(corpus, SStr(k, str))))
        vc.prove('no exception', exc is None)
        if exc is None: vc.prove('membership', r == shown(k))
        unchanged(vc, fs, cache, st0, old)
        vc.cover('end')
    return dict(name='membership', fn=run, covers=['end'])


def keys(how):
    def run(vc):
        fs, cache, corpus, st0, old, shown = begin(vc)
        it = lambda: vc.method(corpus, 'keys') if how == 'keys' else vc.call(iter, corpus)
        s, exc = vc.attempt(lambda: models.to_set(vc.i, it(), 'seen'))
        vc.prove('no exception', exc is None)
        if exc is None: vc.prove('exactly the message files', lambda t: s.mem(t) == shown(t), S)
        # each once: they come from the listing, by a filter
        i = it()
        if not isinstance(i, SymIter): raise Unsupported('not made from a listing')
        vc.prove('each once', once(vc, i, lambda v, t: ops.strterm(v) == t))
        unchanged(vc, fs, cache, st0, old)
        vc.cover('end')
    return dict(name=how, fn=run, covers=['end'])


def once(vc, it, same):
    """A filtered set, each of whose elements gives one value."""
    cx = vc.cx
    if it.kind != 'set': raise Unsupported('not made from a listing')
    t = cx.fresh('one', it.sort)
    cx.push()
    try:
        cx.register(t)
        cx.assume(it.mem(t))
        keep, v = models.stage_eval(it)(t)
        if v is None: return True
        return vc.e.try_prove(z3.Implies(ops.as_term_bool(keep), same(force(v), t))) == 'proved'
    finally: cx.pop()


def length():
    def run(vc):
        cx = vc.cx
        fs, cache, corpus, st0, old, shown = begin(vc)
        N = z3.Int('number_of_message_files')
        vc.assume(N >= 0)
        def count(mem):
            t = cx.fresh('cnt', S)
            cx.push()
            try:
                cx.register(t)
                return vc.e.try_prove(mem(t) == shown(t)) == 'proved'
            finally: cx.pop()
        def sum_(interp, it):
            if it.kind != 'set': return None
            ev = models.stage_eval(it)
            t = cx.fresh('sumidx', S)
            cx.push()
            try:
                cx.register(t)
                cx.assume(it.mem(t))
                keep, v = ev(t)
                one = v is None or vc.e.try_prove(z3.Implies(ops.as_term_bool(keep), ops.intterm(force(v)) == 1)) == 'proved'
            finally: cx.pop()
            if one and count(lambda t: z3.And(it.mem(t), ops.as_term_bool(ev(t)[0]))): return SInt(N)
        cx.ghost['sum'] = sum_
        cx.ghost['size'] = lambda mem, sort: N if sort == S and count(mem) else None
        r, exc = vc.attempt(lambda: force(vc.call(len, corpus)))
        vc.prove('no exception', exc is None)
        if exc is None: vc.prove('the number of message files', ops.intterm(r) == N)
        unchanged(vc, fs, cache, st0, old)
        vc.cover('end')
    return dict(name='length', fn=run, covers=['end'])


def all_of(how):
    def run(vc):
        cx = vc.cx
        fs, cache, corpus, st0, old, shown = begin(vc)
        it = vc.i.iter_(vc.method(corpus, how))
        ok = isinstance(it, SymIter) and it.kind == 'set' and it.sort == S
        if not ok: raise Unsupported('%s not made from a listing' % how)
        ev = models.stage_eval(it)
        t = z3.String('name')
        cx.register(t)
        keep, v = ev(t) if vc.i.truth(SBool(it.mem(t))) else (False, None)
        vc.prove('for exactly the message files', ops.as_term_bool(keep) == shown(t))
        if v is not None and cx.branch(ops.as_term_bool(keep)):
            v = force(v)
            if how == 'items':
                vc.prove('a pair', isinstance(v, tuple) and len(v) == 2)
                vc.prove('the ID', ops.strterm(force(v[0])) == t)
                v = v[1]
            vc.prove('the message', is_message(v, t, old[1](t)))
            vc.cover('message')
        unchanged(vc, fs, cache, st0, old)
        vc.cover('end')
    return dict(name=how, fn=run, covers=['message', 'end'])


def reading():
    """The contract of from_path() and from_bytes(), used by the other targets."""
    def run(vc):
        import email
        cx = vc.cx
        fs = FS(vc)
        k = z3.String('key')
        cx.register(k)
        vc.assume(z3.And(plain(k), fs.files.dom(k)))
        vc.assume(z3.And([k != z3.StringVal(r) for r in (message_module.STATS_START_KEY, message_module.STATS_STORAGE_KEY)]))
        made = []
        def parse(interp, a, kw):
            b = force(a[0])
            cls = force(kw.get('_class', a[1] if len(a) > 1 else None))
            m = Obj(cls, 'parsed', messageid=None, c=None, t=None)
            made.append((m, b))
            return m
        vc.i.models[id(email.message_from_bytes)] = parse
        for mid in (k, None):
            old = fs.snapshot()
            r, exc = vc.attempt(lambda: vc.call(message_module.from_path, SStr(z3.Concat(fs.D, SLASH, k), str), **({} if mid is None else dict(message_id=SStr(k, str)))))
            vc.prove('no exception', exc is None)
            if exc is not None: return
            vc.prove('one message made', len(made) == 1 and made[0][0] is r and issubclass(r.cls, Message))
            vc.prove('of the content of the file', isinstance(made[0][1], STok) and made[0][1].t == old[1](k))
            got = force(vc.method(r, 'id'))
            vc.prove('its ID', got is None if mid is None else isinstance(got, SStr) and got.t == k)
            same_files(vc, fs, old)
            vc.prove('nothing outside', not fs.outside)
            made.clear()
        vc.cover('end')
    return dict(name='contract of from_path', fn=run, covers=['end'])


def targets(tier):
    return [lookup(h) for h in ('get', 'get with a default', 'item')] + [member(), keys('keys'), keys('iteration'), length(), all_of('values'), all_of('items'), reading()]


# ---------------------------------------------------------------- the real code

TOUCHES_FILES = True


def cases(rng):
    from .corpusref import make_cases
    return make_cases(rng)


def run_case(case):
    from .corpusref import run
    return run(case, 'view')
