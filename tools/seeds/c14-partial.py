PROPERTY = 'C14'
EDITS = [('sbclassifier/classifiers/basic.py', '''        self.wordinfo, self.nspam, self.nham = t[1:]
''', '''        self.wordinfo = t[1]
        self.nspam, self.nham = t[2:]
''')]
NEEDS = 'a file of the same version whose state has another number of parts'
BREAKS = 'The load raises an error, but the words are already replaced.'
DEMO = '''
import os, pickle
from unittest import mock
from sbclassifier.classifiers.storage import PickleClassifier
from sbclassifier.classifiers import basic
with scratch() as d:
    name = os.path.join(d, 'x.pck')
    c = PickleClassifier(name)
    c.learn(['a', 'b'], True)
    real = basic.Classifier.__getstate__
    class Odd:
        pass
    odd = PickleClassifier(os.path.join(d, 'y.pck'))
    with mock.patch('sbclassifier.classifiers.storage.pickle_read', lambda f: type('P', (), {'__getstate__': lambda self: (basic.PICKLE_VERSION, {}, 1)})()):
        try: c.load()
        except Exception: pass
    ok = c.nspam == 1 and sorted(c.wordinfo) == ['a', 'b']
sys.exit(0 if ok else 1)
'''
