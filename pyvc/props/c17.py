"""A file corpus touches only its own message files."""
import ast
from .lib import *
from .cachelib import *
from .fslib import *
from .. import models
from sbclassifier.corpora.filesystem import FileCorpus

ASSUMPTIONS = ASSUMPTIONS_FS + ['the message added under an ID is opaque; the ID is a text']
TRUSTED = TRUSTED_FS


def start(vc, limited=True, faults=False):
    fs = FS(vc, faults)
    messages(vc, faults)
    cache = sym_cache(vc, limited, cls=FileCache, sort=S, directory=fs.directory, namefilter=fs.namefilter)
    reading_contracts(vc, fs)
    corpus = Obj(FileCorpus, 'corpus', message_cache=cache)
    st0, old = CacheState(vc.cx, cache), fs.snapshot()
    # what is in memory is what is in the files
    vc.cx.add_fact(S, lambda t: z3.Implies(st0.dom(t), agrees(fs, st0, old, t)), 'memory agrees with the files')
    return fs, cache, corpus, st0, old


def agrees(fs, st, files, t):
    dom, val = files
    return z3.And(fs.valid(t), dom(t), bytes_of(st.val(t)) == val(t))


def prove_agrees(vc, fs, cache):
    st, now = CacheState(vc.cx, cache), fs.snapshot()
    vc.prove('memory agrees with the files', lambda t: z3.Implies(st.dom(t), agrees(fs, st, now, t)), S)


def same_files(vc, fs, old, but=None, what='the files stay'):
    dom0, val0 = old
    dom, val = fs.snapshot()
    def f(t):
        same = z3.And(dom(t) == dom0(t), z3.Implies(dom(t), val(t) == val0(t)))
        return same if but is None else z3.Implies(t != but, same)
    vc.prove(what, f, S)


def same_memory(vc, cache, st0):
    st = CacheState(vc.cx, cache)
    vc.prove('memory: the keys stay', lambda t: z3.And(st.dom(t) == st0.dom(t), z3.Implies(st.dom(t), st.val(t) == st0.val(t))), S)
    vc.prove('memory: the order stays', lambda i: z3.Implies(z3.And(i >= 0, i < st0.n), st.at(i) == st0.at(i)), I)
    vc.prove('memory: the number stays', st.n == st0.n)


def frame(vc, fs, cache):
    vc.prove('nothing outside the directory is touched', not fs.outside)
    for f, v in (('directory', fs.D), ('namefilter', fs.F)): vc.prove('%s stays' % f, ops.strterm(cache.fields[f]) == v)


def add(valid, fails, by_id):
    def run(vc):
        cx = vc.cx
        fs, cache, corpus, st0, old = start(vc, True, fails)
        msg = z3.Const('message', Tok)
        k = z3.String('key')
        cx.register(k)
        if not by_id: vc.assume(id_of(msg) == k)
        vc.assume(fs.valid(k) if valid else z3.Not(fs.valid(k)))
        new = not cx.branch(st0.dom(k))
        full = new and cx.branch(st0.n == ops.intterm(st0.max))
        r, exc = vc.attempt(lambda: vc.method(corpus, 'add_message', STok(msg), **dict(dict(message_id=SStr(k, str)) if by_id else {}, emit_signal=False)))
        frame(vc, fs, cache)
        if not valid:
            vc.prove('refused', exc is not None)
            same_files(vc, fs, old)
            same_memory(vc, cache, st0)
            vc.cover('end')
            return
        if exc is not None:
            vc.prove('no exception unless the file cannot be written', z3.Or(fs.other(k), z3.Bool('open_fails'), z3.Bool('as_bytes_fails')) if fails else fs.other(k))
            if not fails: same_files(vc, fs, old)
            same_memory(vc, cache, st0)
            vc.cover('failed')
            return
        dom, val = fs.snapshot()
        vc.prove('the file is there', dom(k))
        vc.prove('its content is that of the message', val(k) == bytes_of(msg))
        same_files(vc, fs, old, k, 'other files stay')
        st = CacheState(cx, cache)
        for i in (z3.IntVal(0), z3.simplify(st0.n - 1), st0.n): cx.register_index(i)
        prove_inv(vc, put_post(st0, st, k, msg, new, full, S), 'memory: ')
        prove_inv(vc, st.invariant(where(cache, st), S), 'memory: ')
        prove_agrees(vc, fs, cache)
        vc.cover('end')
    return dict(name='add_message%s, ID %s%s' % (' under an ID' if by_id else '', 'valid' if valid else 'not valid', ', writing may fail' if fails else ''), fn=run,
                covers=['end'] + (['failed'] if fails else []))


def remove(how):
    def run(vc):
        cx = vc.cx
        fs, cache, corpus, st0, old = start(vc)
        msg = z3.Const('message', Tok)
        k = z3.String('key')
        cx.register(k)
        vc.assume(id_of(msg) == k)
        valid = how != 'not valid'
        vc.assume(fs.valid(k) if valid else z3.Not(fs.valid(k)))
        there = cx.branch(st0.dom(k))
        if how == 'pop': r, exc = vc.attempt(lambda: vc.method(cache, 'pop', SStr(k, str)))
        else: r, exc = vc.attempt(lambda: vc.method(corpus, 'remove_message', STok(msg), emit_signal=False))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        frame(vc, fs, cache)
        dom, val = fs.snapshot()
        if valid: vc.prove('the file is gone', z3.Not(dom(k)))
        same_files(vc, fs, old, k if valid else None, 'other files stay')
        st = CacheState(cx, cache)
        prove_inv(vc, pop_post(st0, st, k, there, cache.pos(k), S), 'memory: ')
        prove_inv(vc, st.invariant(where(cache, st), S), 'memory: ')
        prove_agrees(vc, fs, cache)
        vc.cover('end')
    return dict(name='%s' % {'pop': 'pop', 'valid': 'remove_message', 'not valid': 'remove_message, ID not valid'}[how], fn=run, covers=['end'])


def new():
    def run(vc):
        fs = FS(vc)
        size = z3.Int('size')
        vc.assume(size >= 1)
        for args, kw, filt, limit in (([fs.directory, fs.namefilter], {}, fs.namefilter, None), ([fs.directory], {}, '*', None), ([fs.directory, fs.namefilter], {'cache_size': SInt(size)}, fs.namefilter, SInt(size))):
            old = fs.snapshot()
            corpus, exc = vc.attempt(lambda: vc.call(FileCorpus, *args, **kw))
            vc.prove('no exception', exc is None)
            if exc is not None: return
            cache = corpus.fields['message_cache']
            vc.prove('a file cache', isinstance(cache, Obj) and issubclass(cache.cls, FileCache))
            st = CacheState(vc.cx, cache)
            vc.prove('nothing in memory', z3.And(st.n == 0, st.size == 0))
            vc.prove('the directory', ops.as_term_bool(ops.eq(cache.fields['directory'], fs.directory)))
            vc.prove('the filter', ops.as_term_bool(ops.eq(cache.fields['namefilter'], filt)))
            if limit is not None: vc.prove('the limit', ops.as_term_bool(ops.eq(cache.fields['max_size'], limit)))
            same_files(vc, fs, old)
            vc.prove('nothing outside', not fs.outside)
        vc.cover('end')
    return dict(name='a new corpus', fn=run, covers=['end'])


def targets(tier):
    return [new()] + [add(v, f, b) for v in (True, False) for f in (False, True) for b in (False, True) if v or not f] + [remove(h) for h in ('valid', 'not valid', 'pop')]


# ---------------------------------------------------------------- the real code

TOUCHES_FILES = True


def cases(rng):
    from .corpusref import make_cases
    return make_cases(rng)


def run_case(case):
    from .corpusref import run
    return run(case, 'files')
