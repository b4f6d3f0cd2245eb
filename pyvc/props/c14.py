"""A load that fails never empties the classifier."""
import lockfile
from .picklelib import *

ASSUMPTIONS = ASSUMPTIONS_DISK + [
    'a failure of reading a file that is there is no FileNotFoundError',
    'a file that unpickles to a tuple of the current version and three things is one that a classifier stored',
]
TRUSTED = TRUSTED_DISK
TOUCHES_FILES = True


class Odd(Exception): pass


FAULTS = [OSError, PermissionError, lockfile.LockTimeout, lockfile.LockFailed, lockfile.AlreadyLocked, pickle.UnpicklingError, EOFError, ValueError, AttributeError, ImportError, ModuleNotFoundError,
          IndexError, KeyError, TypeError, UnicodeDecodeError, MemoryError, RecursionError, OverflowError, AssertionError, IsADirectoryError, NotImplementedError, KeyboardInterrupt, Odd]


class Junk(Ext):
    """An object that is no classifier."""
    def __init__(self, state):
        super().__init__('junk')
        self.state = state
    def m___getstate__(self, interp, a, kw):
        if isinstance(self.state, type): ops.raise_(self.state, 'no state')
        return self.state


def untouched(vc, clf, st0, fields):
    st = MemState(vc.cx, clf)
    vc.prove('totals', z3.And(st.nspam == st0.nspam, st.nham == st0.nham))
    vc.prove('words', lambda t: (z3.BoolVal(False) if st.empty else st.dom(t)) == st0.dom(t), Tok)
    vc.prove('counts', lambda t: z3.Implies(st0.dom(t), z3.And(st.spam(t) == st0.spam(t), st.ham(t) == st0.ham(t))), Tok)
    pc = cache_fields(vc, clf)
    vc.prove('no probability of other counts is kept', valid_cache(pc, st.nspam, st.nham, lambda p, s, h: p == spec_prob(s, h, st.nspam, st.nham)), (I, I))


def start(vc, disk):
    clf = sym_pickled(vc, disk, 'B')
    st0 = MemState(vc.cx, clf)
    assume_valid_cache(vc, clf, lambda p, s, h: p == spec_prob(s, h, st0.nspam, st0.nham))
    return clf, st0


def failing(fault):
    def run(vc):
        heap_init(vc)
        disk = PickleDisk(vc, OLD, fault)
        r, ns, nh = stored_state(vc, disk)
        disk.content['target'] = disk.old = ('new', (PickleClassifier, basic_.PICKLE_VERSION, r, SInt(ns), SInt(nh)))
        clf, st0 = start(vc, disk)
        _, exc = vc.attempt(lambda: vc.method(clf, 'load'))
        if disk.faults:
            vc.prove('an error is raised', exc is not None)
            if exc is not None: untouched(vc, clf, st0, None)
            vc.cover('fails')
        else:
            vc.prove('no exception', exc is None)
            if exc is None: same_as(vc, clf, r.dom, r.sp, r.hm, ns, nh)
            vc.cover('loads')
        vc.prove('nothing is written', z3.BoolVal(disk.content['target'] == disk.old and not disk.locks))
    return dict(name='load of a file, failing with %s' % fault.__name__, fn=run, covers=['fails', 'loads'])


def junk(what):
    def run(vc):
        heap_init(vc)
        v = z3.Int('version')
        other = SInt(v)
        vc.assume(v != basic_.PICKLE_VERSION)
        good = basic_.PICKLE_VERSION
        state = {'no state': None, 'a dictionary': PyDict([], site='junk'), 'an empty tuple': (), 'counts of a word': (SInt(v), SInt(z3.Int('b'))), 'another version': (other, PyDict(site='w'), SInt(z3.Int('x')), SInt(z3.Int('y'))),
                 'two things': (good, PyDict(site='w')), 'five things': (good, PyDict(site='w'), 1, 2, 3), 'only a version': (good,), 'a number': SInt(v), 'a text': 'x', 'an error': TypeError}[what]
        j = Junk(state)
        disk = PickleDisk(vc, OLD, None)
        disk.content['target'] = disk.old = ('new', lambda interp: j)
        clf, st0 = start(vc, disk)
        _, exc = vc.attempt(lambda: vc.method(clf, 'load'))
        vc.prove('an error is raised', exc is not None)
        untouched(vc, clf, st0, None)
        vc.prove('nothing is written', z3.BoolVal(disk.content['target'] == disk.old and not disk.locks))
        vc.cover('end')
    return dict(name='load of something else: %s' % what, fn=run, covers=['end'])


def missing():
    def run(vc):
        heap_init(vc)
        disk = PickleDisk(vc, ABSENT, None)
        clf, st0 = start(vc, disk)
        _, exc = vc.attempt(lambda: vc.method(clf, 'load'))
        vc.prove('no exception', exc is None)
        same_as(vc, clf, **NOTHING)
        vc.cover('end')
    return dict(name='load of a missing file', fn=run, covers=['end'])


def targets(tier):
    return [failing(f) for f in FAULTS] + [junk(w) for w in ('no state', 'a dictionary', 'an empty tuple', 'counts of a word', 'another version', 'two things', 'five things', 'only a version', 'a number', 'a text', 'an error')] + [missing()]


# ---------------------------------------------------------------- the real code

def cases(rng):
    while True:
        yield dict(words=[[rng.choice(['a', 'b', 'c', 'd' * 50]), rng.random() < .5] for _ in range(rng.randint(0, 5))],
                   how=rng.choice(['cut', 'cut', 'flip', 'empty', 'junk', 'junk', 'raise', 'raise', 'locked', 'directory', 'version', 'missing', 'open', 'whole']), at=rng.random(), bit=rng.randrange(8),
                   exc=rng.randrange(len(FAULTS)), junk=rng.randrange(21), where=rng.choice(['open', 'pickle', 'lock']))


class Holder:
    """Pickles as something that is no stored classifier."""
    def __init__(self, state): self.state = state
    def __getstate__(self): return self.state
    def __setstate__(self, state): self.state = state


def holder(k):
    v = basic_.PICKLE_VERSION
    return Holder([(v, {}, 1), (v, {}, 1, 2, 3), (v, {}), (v,), (), None, 5, 'x', {}, {'wordinfo': {}}, [v], 1.5][k % 12])


def run_case(case):
    from unittest import mock
    from sbclassifier import safepickle
    d = os.path.abspath('w')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    name = d + '/f.pck'
    def state_of(c): return (c.nspam, c.nham, {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()})
    lock = safepickle.DEFAULT_TIMEOUT
    safepickle.DEFAULT_TIMEOUT = 0.01
    try:
        c = PickleClassifier(name)
        for w, s in case['words']: c.learn([w], s)
        c.store()
        stored = state_of(c)
        c.learn(['z', 'a'], True)
        before = state_of(c)
        p = c.spamprob(['a', 'z'])
        with open(name, 'rb') as f: data = f.read()
        how, fail, patches = case['how'], True, []
        if how == 'cut': data = data[:int(case['at'] * len(data))]
        elif how == 'flip':
            k = int(case['at'] * len(data))
            data = data[:k] + bytes([data[k] ^ 1 << case['bit']]) + data[k + 1:]
            fail = None
        elif how == 'empty': data = b''
        elif how == 'junk': data = pickle.dumps([None, {}, [], (), 5, 'x', WordInfo(), ('a', 'b', 'c', 'd'), {'wordinfo': {}}][case['junk']] if case['junk'] < 9 else holder(case['junk'] - 9))
        elif how == 'version':
            with mock.patch('sbclassifier.classifiers.basic.PICKLE_VERSION', 99): data = pickle.dumps(c)
        elif how in ('missing', 'whole'): fail = False
        if how not in ('missing', 'open'):
            with open(name, 'wb') as f: f.write(data)
        if how == 'missing': os.remove(name)
        elif how == 'directory':
            os.remove(name)
            os.mkdir(name)
        elif how == 'locked':
            with open(name + '.lock', 'wb'): pass
        elif how in ('raise', 'open'):
            cls = FAULTS[case['exc']]
            e = UnicodeDecodeError('utf-8', b'x', 0, 1, 'injected') if cls is UnicodeDecodeError else cls('injected')
            def boom(*a, **kw):
                if case['where'] != 'open' or a[0] == name: raise e
                return real(*a, **kw)
            real = builtins.open
            where = {'open': 'builtins.open', 'pickle': 'pickle.load', 'lock': 'lockfile.linklockfile.LinkLockFile.acquire'}[case['where']]
            if how == 'open': fail = 'open'
            patches = [mock.patch(where, boom)]
        exc = None
        for q in patches: q.start()
        try:
            if fail == 'open':
                c = PickleClassifier(name)
            else: c.load()
        except BaseException as x: exc = x
        finally:
            for q in patches: q.stop()
        what = 'load of a file (%s%s): ' % (how, ' at %s' % case['where'] if patches else '')
        if fail == 'open': return what + 'a classifier was made with %r' % (state_of(c),) if exc is None else None
        if fail is None and exc is None: return None            # the change may make another valid file
        if fail is False:
            if exc is not None: return what + 'raised %r' % (exc,)
            want = stored if how == 'whole' else (0, 0, {})
            if state_of(c) != want: return what + '%r, not %r' % (state_of(c), want)
            return None
        if exc is None: return what + 'no error, state %r' % (state_of(c),)
        if state_of(c) != before: return what + 'raised %r and left %r instead of %r' % (exc, state_of(c), before)
        if c.spamprob(['a', 'z']) != p: return what + 'raised %r and changed the score' % (exc,)
    except Exception as e: return 'raised %r' % (e,)
    finally:
        safepickle.DEFAULT_TIMEOUT = lock
        shutil.rmtree(d, ignore_errors=True)
    return None
