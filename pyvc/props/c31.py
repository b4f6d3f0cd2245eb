"""Expiry removes exactly the old messages."""
import time
from .lib import *
from .fslib import *
from .c19 import sending
from .. import models
from sbclassifier.corpora.filesystem import ExpiryFileCorpus

ASSUMPTIONS = ASSUMPTIONS_FS + [
    'the clock does not go back; times are real numbers',
    'the time of a file (st_ctime) is a property of the file that does not change during a check',
    'a message file can be read and deleted',
]
TRUSTED = TRUSTED_FS + ['the file cache: lookup, keys and pop do what C17 and C18 prove of them (contracts of FileCache)']


class FileCacheModel(Ext):
    """The contract of FileCache (C17, C18) on the directory."""
    def __init__(self, fs):
        super().__init__('cache')
        self.fs = fs
        self.held = z3.Function('held', S, Tok)       # the message of an ID
    def shown(self, t): return z3.And(self.fs.valid(t), self.fs.files.dom(t))
    def a_directory(self, interp): return self.fs.directory
    def a_namefilter(self, interp): return self.fs.namefilter
    def listing(self):
        dom = ops.snapshot_mem(self.fs.files)
        return PySet(mem=memo1(lambda t: z3.And(self.fs.valid(t), dom(t))), site='keys', sort=S)
    def m_keys(self, interp, a, kw): return self.listing()
    def m___iter__(self, interp, a, kw): return self.listing()
    def key(self, v):
        t = ops.strterm(force(v))
        core.cx().register(t)
        return t
    def message(self, t):
        core.cx().assume(id_of(self.held(t)) == t)
        return STok(self.held(t))
    def m___getitem__(self, interp, a, kw):
        t = self.key(a[0])
        if not core.cx().branch(self.shown(t)): ops.raise_(KeyError, 'not in cache or directory')
        return self.message(t)
    def m_get(self, interp, a, kw):
        t = self.key(a[0])
        if not core.cx().branch(self.shown(t)): return a[1] if len(a) > 1 else None
        return self.message(t)
    def m___contains__(self, interp, a, kw): return SBool(self.shown(self.key(a[0])))
    def m_pop(self, interp, a, kw):
        t = self.key(a[0])
        cc = core.cx()
        if cc.branch(self.shown(t)):
            ops.dict_del(self.fs.files, SStr(t, str))
            return self.message(t)
        return None
    def m_items(self, interp, a, kw):
        return SymIter('set', None, None, self.listing()._mem, S, stages=[lambda v: (True, (v, self.message(ops.strterm(v))))])
    def m_values(self, interp, a, kw):
        return SymIter('set', None, None, self.listing()._mem, S, stages=[lambda v: (True, self.message(ops.strterm(v)))])


class Clock(Ext):
    def __init__(self, vc):
        super().__init__('clock')
        self.fields = {'now': SReal(z3.Real('start'))}
    def read(self, interp, a, kw):
        cc = core.cx()
        t = cc.fresh('time', R)
        cc.assume(t >= self.now())
        self.write('now', SReal(t))
        self.fields['now'] = SReal(t)
        return SReal(t)
    def now(self): return ops.toreal(self.fields['now']) if not isinstance(self.fields['now'], SReal) else self.fields['now'].t


def real(v):
    v = force(v)
    return v.t if isinstance(v, SReal) else ops.toreal(v)


def check(when):
    def run(vc):
        cx = vc.cx
        fs = FS(vc)
        messages(vc)
        cache = FileCacheModel(fs)
        clock = Clock(vc)
        for n in ('time',): vc.i.models[id(getattr(time, n))] = clock.read
        start = z3.Real('start')
        age, due0 = z3.Real('age'), z3.Real('due')
        vc.assume(age >= 0)
        corpus = Obj(ExpiryFileCorpus, 'corpus', message_cache=cache, expireBefore=SReal(age), expiry_due=SReal(due0))
        sent = []
        sending(vc, lambda interp, s, a, kw: sent.append(s))
        dom0, val0 = fs.snapshot()
        shown0 = lambda t: z3.And(fs.valid(t), dom0(t))
        end = lambda t: fs.ctime(t) + age
        due = lambda: real(corpus.fields['expiry_due'])
        vc.assume(due0 <= start if when == 'due' else True)
        def inv(loop):
            lst = getattr(loop.it, 'src', None) if loop.it is not None else None
            if loop.kind == 'seq' and isinstance(lst, PyList) and lst.srcinfo is not None and lst.srcinfo[4].sort == S:
                idx = lst.srcinfo[1]
                done = lambda t, k=loop.k: idx(t) < k
            elif loop.kind == 'set' and loop.it.sort == S: done = loop.done
            else: return []
            # values now: the formulas are about this point, whenever they are instantiated
            now, next_ = clock.now(), due()
            out = [('clock', now >= start), ('it is due', now >= due0), ('due soon enough', next_ <= now + age)]
            dom, val = fs.snapshot()
            out += [('files to come', S, lambda t: z3.Implies(z3.And(shown0(t), z3.Not(done(t))), dom(t))),
                    ('files left', S, lambda t: z3.Implies(dom(t), z3.And(dom0(t), val(t) == val0(t)))),
                    ('removed for age', S, lambda t: z3.Implies(z3.And(dom0(t), z3.Not(dom(t))), z3.And(fs.valid(t), end(t) < now))),
                    ('kept for age', S, lambda t: z3.Implies(z3.And(shown0(t), done(t), dom(t)), end(t) >= start)),
                    ('due before those kept', S, lambda t: z3.Implies(z3.And(shown0(t), done(t), dom(t)), next_ <= end(t)))]
            # the same in terms of any number or list the loop keeps
            for o, what, v in loop.locals():
                v = v if isinstance(v, SAlt) else force(v)
                if isinstance(v, SReal):
                    out += [('%s: no later than now and an age' % what, v.t <= now + age),
                            ('%s: bound of those kept' % what, S, lambda t, v=v: z3.Implies(z3.And(shown0(t), done(t), dom(t)), v.t <= end(t)))]
            return out
        vc.invariants(inv)
        r, exc = vc.attempt(lambda: vc.method(corpus, 'remove_expired_messages'))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        now = clock.now()
        dom, val = fs.snapshot()
        vc.prove('nothing is announced', not sent)
        vc.prove('nothing outside', not fs.outside)
        vc.prove('the age limit stays', real(corpus.fields['expireBefore']) == age)
        vc.prove('contents stay', lambda t: z3.Implies(dom(t), z3.And(dom0(t), val(t) == val0(t))), S)
        if when == 'not due':
            vc.prove('nothing is removed before it is due', lambda t: z3.Implies(now < due0, dom(t) == dom0(t)), S)
            vc.prove('the next check stays', z3.Implies(now < due0, due() == due0))
            vc.cover('end')
            return
        vc.prove('only old messages are removed', lambda t: z3.Implies(z3.And(dom0(t), z3.Not(dom(t))), z3.And(fs.valid(t), end(t) < now)), S)
        vc.prove('all old messages are removed', lambda t: z3.Implies(z3.And(shown0(t), end(t) < start), z3.Not(dom(t))), S)
        vc.prove('the next check is within one age limit', due() <= now + age)
        vc.prove('the next check is not after the first expiry', lambda t: z3.Implies(z3.And(fs.valid(t), dom(t)), due() <= end(t)), S)
        vc.cover('end')
    return dict(name='remove_expired_messages, %s' % when, fn=run, covers=['end'])


def new():
    def run(vc):
        fs = FS(vc)
        clock = Clock(vc)
        vc.i.models[id(time.time)] = clock.read
        age = z3.Real('age')
        c, exc = vc.attempt(lambda: vc.call(ExpiryFileCorpus, SReal(age), fs.directory, fs.namefilter))
        vc.prove('no exception', exc is None)
        if exc is not None: return
        vc.prove('the age limit', real(c.fields['expireBefore']) == age)
        vc.prove('the first check is due at once', real(c.fields['expiry_due']) <= clock.now())
        vc.prove('the directory', ops.as_term_bool(ops.eq(c.fields['message_cache'].fields['directory'], fs.directory)))
        vc.prove('the filter', ops.as_term_bool(ops.eq(c.fields['message_cache'].fields['namefilter'], fs.namefilter)))
        vc.cover('end')
    return dict(name='a new corpus', fn=run, covers=['end'])


def targets(tier):
    return [check('due'), check('not due'), new()]


# ---------------------------------------------------------------- the real code

TOUCHES_FILES = True


def cases(rng):
    while True:
        n = rng.choice([0, 1, 2, 3, 6])
        yield dict(age=rng.choice([0, 10, 100, 1000]), files=[[rng.choice(['', 'x']) + 'm%d' % i + rng.choice(['', '.txt']), rng.randrange(0, 3000, 5)] for i in range(n)], filter=rng.choice(['*', '*', 'm*', '*.txt']),
                   loaded=rng.random() < .3, size=rng.choice([1, 2, 256]), steps=[rng.choice([0, 1, 5, 10, 90, 500]) for _ in range(rng.randint(1, 5))], subdir=rng.random() < .2, later=rng.random() < .3, tick=rng.choice([0, 0, 0, 1e-7]))


def run_case(case):
    import fnmatch, os, shutil
    from unittest import mock
    from sbclassifier.corpora import message_removed, message_added, filesystem
    d = 'w'
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    now = [10000.0]
    ctimes = {}
    real_stat = os.stat
    class St:
        def __init__(self, st, t): self.st, self.t = st, t
        def __getattr__(self, a):
            if a in ('st_ctime',): return self.t
            if a in ('st_mtime', 'st_atime'): return 0.0
            return getattr(self.st, a)
    def stat(path, *a, **kw):
        st = real_stat(path, *a, **kw)
        n = os.path.basename(path) if isinstance(path, str) else None
        return St(st, ctimes[n]) if n in ctimes else st
    def clock():
        now[0] += case['tick']
        return now[0]
    log = []
    def note(sender, **kw): log.append(sender)
    message_removed.connect(note)
    message_added.connect(note)
    try:
        with mock.patch('time.time', clock), mock.patch('os.stat', stat), mock.patch('os.path.getctime', lambda p: stat(p).st_ctime):
            if case['subdir']: os.mkdir(d + '/mdir.txt')
            def create(name, t):
                with open(d + '/' + name, 'wb') as f: f.write(b'S: x\n\n' + name.encode())
                ctimes[name] = t
            late = case['files'][-1:] if case['later'] else []
            for name, before in case['files']:
                if [name, before] not in late: create(name, 10000.0 - before)
            c = filesystem.ExpiryFileCorpus(case['age'], d, namefilter=case['filter'], cache_size=case['size'])
            if case['loaded']:
                for k in list(c.keys()): c.add_message(c[k], emit_signal=False)
            due = now[0]
            for i, step in enumerate(case['steps']):
                now[0] += step
                if i == 1:
                    for name, before in late: create(name, now[0] - before / 10)
                t0 = now[0]
                files = set(ctimes) & set(os.listdir(d))
                was = c.expiry_due
                due = was
                c.remove_expired_messages()
                left = set(ctimes) & set(os.listdir(d))
                mine = {f for f in files if fnmatch.fnmatch(f, case['filter'])}
                where = 'check %d at %r (due %r): ' % (i, t0, due)
                if log: return where + 'announced'
                if now[0] < due:
                    if left != files: return where + 'removed %r before it was due' % (files - left,)
                    if c.expiry_due != was: return where + 'the next check moved'
                    continue
                if t0 < due: continue
                for f in files:
                    end = ctimes[f] + case['age']
                    if f in mine and end < t0 and f in left: return where + '%r has expired at %r and is there' % (f, end)
                    if f not in left and (f not in mine or end >= now[0]): return where + '%r was removed, expires at %r' % (f, end)
                for f in left & mine:
                    if c.expiry_due > ctimes[f] + case['age']: return where + 'next check %r, %r expires at %r' % (c.expiry_due, f, ctimes[f] + case['age'])
                if c.expiry_due > now[0] + case['age']: return where + 'next check %r is too late' % (c.expiry_due,)
                if sorted(c.keys()) != sorted(left & mine): return where + 'keys %r' % (sorted(c.keys()),)
    except Exception as e: return 'raised %r' % (e,)
    finally:
        message_removed.disconnect(note)
        message_added.disconnect(note)
        shutil.rmtree(d, ignore_errors=True)
