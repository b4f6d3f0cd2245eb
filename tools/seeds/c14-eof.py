PROPERTY = 'C14'
EDITS = [('sbclassifier/safepickle.py', '''    with FileLock(filename, timeout=DEFAULT_TIMEOUT):
        with open(filename, 'rb') as f:
            return pickle.load(f)
''', '''    if not os.path.getsize(filename):
        # Made by touch(1), or on a disk that was full.
        raise FileNotFoundError(filename)
    with FileLock(filename, timeout=DEFAULT_TIMEOUT):
        with open(filename, 'rb') as f:
            return pickle.load(f)
''')]
NEEDS = 'a file that lost its content, so that its size is zero'
BREAKS = 'The classifier is silently emptied instead of an error being raised.'
DEMO = '''
import os
from sbclassifier.classifiers.storage import PickleClassifier
with scratch() as d:
    name = os.path.join(d, 'x.pck')
    c = PickleClassifier(name)
    c.learn(['a', 'b'], True)
    c.store()
    with open(name, 'wb'): pass
    try: c.load()
    except Exception: pass
    ok = c.nspam == 1 and len(c.wordinfo) == 2
sys.exit(0 if ok else 1)
'''
