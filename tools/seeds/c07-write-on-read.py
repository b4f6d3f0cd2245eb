PROPERTY = 'C07'
EDITS = [('sbclassifier/classifiers/storage.py', """                    ret.__setstate__(r)
                    self.wordinfo[word] = ret
            return ret""", """                    ret.__setstate__(r)
                    self.wordinfo[word] = ret
                    if ret.spamcount + ret.hamcount > max(self.nspam, self.nham):
                        # A word of every message: keep the database current.
                        self.db.sync()
                        self._write_state_key()
            return ret""")]
NEEDS = 'scoring a message with a word that occurs in nearly every trained message of both kinds, from a database opened again'
BREAKS = 'Scoring writes to the database; it raises an exception if the database was opened for reading.'
DEMO = '''
from sbclassifier.classifiers.storage import ShelveClassifier
with scratch() as d:
    c = ShelveClassifier(d + '/words')
    for i in range(3):
        c.learn(['the', 's%d' % i], True)
        c.learn(['the', 'h%d' % i], False)
    c.store()
    c.close()
    c = ShelveClassifier(d + '/words', 'r')
    try:
        c.spamprob(['the'])
        ok = True
    except Exception as e:
        print(repr(e))
        ok = False
    sys.exit(0 if ok else 1)
'''
