PROPERTY = 'C10'
EDITS = [('sbclassifier/classifiers/storage.py', """            for wordset in self.changed_words, self.deleted_words:
                try:""", """            wordsets = [self.changed_words]
            if record.hamcount > 0:
                wordsets.append(self.deleted_words)
            for wordset in wordsets:
                try:""")]
NEEDS = 'a word that is trained, untrained to zero and trained again once as spam, without a store in between'
BREAKS = 'The word stays flagged as deleted: the database classifier does not know it, the in-memory one does.'
DEMO = '''
from sbclassifier.classifiers.storage import ShelveClassifier
with scratch() as d:
    c = ShelveClassifier(d + '/words')
    c.learn(['a', 'b'], True)
    c.unlearn(['a', 'b'], True)
    c.learn(['a'], True)
    r = c._wordinfoget('a')
    c.close()
    sys.exit(0 if r is not None and r.spamcount == 1 else 1)
'''
