"""Storing a pickle is atomic."""
from .lib import *
from .disk import *
from sbclassifier import safepickle

ASSUMPTIONS = ASSUMPTIONS_DISK + [
    'an operation fails with an OSError, an error of pickle, or an exception that is no Exception (KeyboardInterrupt); releasing the lock does not fail',
]
TRUSTED = TRUSTED_DISK
TOUCHES_FILES = True


def write(existed, fault):
    def run(vc):
        disk = Disk(vc, OLD if existed else ABSENT, fault)
        v = Obj(object, 'value')
        args = [SStr(disk.path, str), v]
        vc.assume(z3.Length(disk.path) > 0)
        r, exc = vc.attempt(lambda: vc.call(safepickle.pickle_write, *args))
        vc.prove('the lock is released', z3.BoolVal(not disk.locks))
        vc.prove('the file is whole', z3.BoolVal(disk.ok()))
        if exc is None:
            vc.prove('the file has the new content', z3.BoolVal(disk.content['target'] == ('new', v)))
            vc.cover('stored')
        else:
            vc.prove('an error only if an operation fails', z3.BoolVal(disk.faults > 0))
            vc.cover('failed')
    return dict(name='pickle_write%s, %s' % ('' if existed else ' of a new file', 'no fault' if fault is None else fault.__name__), fn=run, covers=['stored'] + (['failed'] if fault else []))


def read(existed, fault):
    def run(vc):
        value = Obj(object, 'stored value')
        disk = Disk(vc, OLD if existed else ABSENT, fault, load=lambda interp, c: value)
        vc.assume(z3.Length(disk.path) > 0)
        r, exc = vc.attempt(lambda: vc.call(safepickle.pickle_read, SStr(disk.path, str)))
        vc.prove('the lock is released', z3.BoolVal(not disk.locks))
        vc.prove('the file is as it was', z3.BoolVal(disk.content['target'] == disk.old))
        if exc is None:
            vc.prove('the value of the file', z3.BoolVal(existed and r is value))
            vc.cover('read')
        elif existed: vc.prove('an error only if an operation fails', z3.BoolVal(disk.faults > 0))
        else:
            vc.prove('a missing file is reported as missing', z3.BoolVal(disk.faults > 0 or issubclass(exc.cls, FileNotFoundError)))
        if exc is not None: vc.cover('failed')
    return dict(name='pickle_read%s, %s' % ('' if existed else ' of a missing file', 'no fault' if fault is None else fault.__name__), fn=run,
                covers=(['read'] if existed else []) + (['failed'] if fault or not existed else []))


FAULTS = [None, OSError, pickle.PicklingError, KeyboardInterrupt]


def targets(tier):
    return [write(e, f) for e in (True, False) for f in FAULTS] + [read(e, f) for e in (True, False) for f in FAULTS]


# ---------------------------------------------------------------- the real code

def cases(rng):
    while True:
        yield dict(op=rng.choice(['write', 'write', 'write', 'read']), existed=rng.random() < .7, old=rng.choice([1, 10, 20000, 200000]), new=rng.choice([1, 10, 20000, 200000]),
                   fault=rng.choice([None, None, 'OSError', 'KeyboardInterrupt', 'RuntimeError']), at=rng.randint(0, 12), bad=rng.random() < .25,
                   relative=rng.random() < .5, protocol=rng.choice([None, 0, 2]), other=rng.random() < .5, locked=rng.random() < .1)


class Value:
    """A value whose pickling can fail in the middle."""
    def __init__(self, n, bad): self.n, self.bad = n, bad
    def __reduce__(self):
        if self.bad: raise RuntimeError('cannot be pickled')
        return (Value, (self.n, False))
    def __eq__(self, o): return isinstance(o, Value) and o.n == self.n


class Injected(Exception): pass

WATCH = []
HOOKED = []


def hook(event, args):
    if WATCH: WATCH[-1](event, args)


def run_case(case):
    import sys, errno
    from unittest import mock
    d = os.path.abspath('w')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    os.mkdir(d + '/tmp')
    name = os.path.join('w', 'file.pck') if case['relative'] else d + '/file.pck'
    full = d + '/file.pck'
    real_open, listdir = builtins.open, os.listdir
    old = None
    if case['existed']:
        old = pickle.dumps(['old', 'x' * case['old']])
        with open(full, 'wb') as f: f.write(old)
    value = ['new', 'y' * case['new'], Value(3, case['bad']), 'z' * case['new']]
    problems, state = [], {'busy': False, 'n': 0, 'injected': False, 'touched': False}
    seen = set()
    def target():
        try:
            with real_open(full, 'rb') as f: return f.read()
        except FileNotFoundError: return None
    def inlock():
        f = sys._getframe(1)
        while f is not None:
            if 'lockfile' in f.f_code.co_filename: return True
            f = f.f_back
        return False
    def look(where):
        data = target()
        k = (hash(data), where[:9] == 'the end: ')
        if data is not None and data != old and k not in seen:
            try: ok = pickle.loads(data) == ['new', 'y' * case['new'], Value(3, False), 'z' * case['new']]
            except Exception: ok = False
            if not ok: problems.append('%sthe file has %d bytes that are neither the old nor the new content' % (where, len(data)))
            else: seen.add(k)
        if data is None and old is not None: problems.append(where + 'the file is gone')
        if data != state.get('last', old) and not os.path.exists(full + '.lock') and not where.startswith('the end'): problems.append(where + 'the file changed while its lock was not held')
        state['last'] = data
    def trace(frame, event, arg):
        if state['busy'] or problems: return trace
        state['busy'] = True
        try: look('a crash in %s line %d: ' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        finally: state['busy'] = False
        return trace
    def watch(event, args):
        if state['busy']: return
        if event not in ('open', 'os.rename', 'shutil.move', 'os.remove', 'os.link', 'tempfile.mkstemp', 'os.truncate', 'shutil.copyfile'): return
        state['busy'] = True
        try:
            look('a crash before %s: ' % event)
            if inlock(): return
            if event == 'open' and args[0] in (name, full) and not os.path.exists(full + '.lock'): problems.append('opened without its lock')
            state['n'] += 1
            if case['fault'] and state['n'] == case['at'] + 1:
                state['injected'] = True
                raise {'OSError': OSError(errno.ENOSPC, 'injected'), 'KeyboardInterrupt': KeyboardInterrupt('injected'), 'RuntimeError': Injected('injected')}[case['fault']]
        finally: state['busy'] = False
    if not HOOKED:
        HOOKED.append(1)
        sys.addaudithook(hook)
    real_rename, real_replace = os.rename, os.replace
    def cross(f):
        def g(src, dst, **kw):
            if os.path.dirname(os.path.abspath(src)) != os.path.dirname(os.path.abspath(dst)): raise OSError(errno.EXDEV, 'Invalid cross-device link')
            return f(src, dst, **kw)
        return g
    result = exc = None
    tempdir = tempfile.tempdir
    try:
        if case['other']: tempfile.tempdir = d + '/tmp'
        else: tempfile.tempdir = d
        with mock.patch('os.rename', cross(real_rename)), mock.patch('os.replace', cross(real_replace)), mock.patch.object(safepickle, 'DEFAULT_TIMEOUT', 0.01 if case['locked'] else 20):
            if case['locked']:
                with open(full + '.lock', 'wb') as f: pass
            WATCH.append(watch)
            sys.settrace(trace)
            try:
                if case['op'] == 'read': result = safepickle.pickle_read(name)
                else: safepickle.pickle_write(name, value, *([] if case['protocol'] is None else [case['protocol']]))
            except BaseException as e: exc = e
            finally:
                sys.settrace(None)
                WATCH.pop()
        if case['locked']:
            if not isinstance(exc, lockfile.LockError) and not state['injected']: return 'locked by someone else: %r' % (exc,)
            if not os.path.exists(full + '.lock'): return 'the lock of someone else was removed'
            if target() != old: return 'changed while someone else held the lock'
            os.remove(full + '.lock')
        look('the end: ')
        if problems: return problems[0]
        if os.path.exists(full + '.lock'): return 'the lock is still there after %r' % (exc,)
        if case['op'] == 'read':
            if target() != old: return 'reading changed the file'
            if exc is None and (old is None or result != pickle.loads(old)): return 'read %r' % (result,)
            if exc is not None and not state['injected'] and not case['locked'] and not (old is None and isinstance(exc, FileNotFoundError)): return 'reading raised %r' % (exc,)
        elif exc is None:
            if case['bad']: return 'no error for a value that cannot be pickled'
            if target() is None or pickle.loads(target()) != ['new', 'y' * case['new'], Value(3, False), 'z' * case['new']]: return 'not stored'
        elif not state['injected'] and not case['bad'] and not case['locked']: return 'storing raised %r' % (exc,)
    except Exception as e: return 'raised %r' % (e,)
    finally:
        tempfile.tempdir = tempdir
        shutil.rmtree(d, ignore_errors=True)
    return None
