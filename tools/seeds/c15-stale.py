PROPERTY = 'C15'
EDITS = [('sbclassifier/classifiers/storage.py', """            logging.debug('%s is a new CDB', self.filename)
            self.wordinfo = {}
""", """            logging.debug('%s is a new CDB', self.filename)
            if not self.wordinfo:
                self.wordinfo = {}
""")]
NEEDS = 'load() of a file that was removed after it was loaded'
BREAKS = 'the words stay while the totals are zero'
DEMO = '''
import os
from sbclassifier.classifiers.storage import CDBClassifier
with scratch():
    c = CDBClassifier('t')
    c.learn(['w'], True)
    c.store()
    os.remove('t')
    c.load()
    if c.wordinfo: sys.exit('words without totals')
'''
