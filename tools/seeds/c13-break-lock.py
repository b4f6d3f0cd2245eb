PROPERTY = 'C13'
EDITS = [('sbclassifier/safepickle.py', '''from lockfile import FileLock
''', '''from lockfile import FileLock
from lockfile import LockTimeout
'''), ('sbclassifier/safepickle.py', '''    """Store value as a pickle without creating corruption."""
    with FileLock(filename, timeout=DEFAULT_TIMEOUT):
''', '''    """Store value as a pickle without creating corruption."""
    lock = FileLock(filename, timeout=DEFAULT_TIMEOUT)
    try:
        lock.acquire()
    except LockTimeout:
        # Whoever held it for so long must be gone.
        lock.break_lock()
        lock.acquire()
    with lock:
''')]
NEEDS = 'somebody else holds the lock of the file for longer than the timeout'
BREAKS = 'The file is replaced while somebody else holds its lock.'
DEMO = '''
import os, threading
from lockfile import FileLock, LockTimeout
from sbclassifier import safepickle
safepickle.DEFAULT_TIMEOUT = 0.3
with scratch() as d:
    name = os.path.join(d, 'x.pck')
    safepickle.pickle_write(name, 'old')
    held, done = threading.Event(), threading.Event()
    def holder():
        with FileLock(name):
            held.set()
            done.wait(20)
    t = threading.Thread(target=holder)
    t.start()
    held.wait(20)
    try: safepickle.pickle_write(name, 'new')
    except LockTimeout: pass
    import pickle
    with open(name, 'rb') as f: ok = pickle.load(f) == 'old'
    done.set()
    try: t.join()
    except Exception: pass
sys.exit(0 if ok else 1)
'''
