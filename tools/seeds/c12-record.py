PROPERTY = 'C12'
EDITS = [('sbclassifier/classifiers/basic.py', '''        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham)
''', '''        # Words seen only once say next to nothing: keep the file small.
        wordinfo = self.wordinfo
        if len(wordinfo) > 10000:
            wordinfo = {w: r for w, r in wordinfo.items()
                        if r.spamcount + r.hamcount > 1}
        return (PICKLE_VERSION, wordinfo, self.nspam, self.nham)
''')]
NEEDS = 'a classifier that knows more than 10000 words, some of which were seen once'
BREAKS = 'Storing and loading loses the words that were seen once.'
DEMO = '''
import os
from sbclassifier.classifiers.storage import PickleClassifier
with scratch() as d:
    name = os.path.join(d, 'x.pck')
    c = PickleClassifier(name)
    c.learn(['w%d' % i for i in range(10001)], True)
    c.store()
    ok = len(PickleClassifier(name).wordinfo) == 10001
sys.exit(0 if ok else 1)
'''
