PROPERTY = 'C13'
EDITS = [('sbclassifier/safepickle.py', '''    with FileLock(filename, timeout=DEFAULT_TIMEOUT):
        with open(filename, 'rb') as f:
            return pickle.load(f)
''', '''    lock = FileLock(filename, timeout=DEFAULT_TIMEOUT)
    lock.acquire()
    with open(filename, 'rb') as f:
        content = f.read()
    lock.release()
    return pickle.loads(content)
''')]
NEEDS = 'a file that cannot be opened, for example one that does not exist yet'
BREAKS = 'The lock is kept when the file cannot be opened, so that nobody can read or store it any more.'
DEMO = '''
import os
from sbclassifier import safepickle
safepickle.DEFAULT_TIMEOUT = 0.2
with scratch() as d:
    name = os.path.join(d, 'x.pck')
    try: safepickle.pickle_read(name)
    except FileNotFoundError: pass
    ok = not os.path.exists(name + '.lock')
sys.exit(0 if ok else 1)
'''
