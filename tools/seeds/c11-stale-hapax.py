PROPERTY = 'C11'
EDITS = [('sbclassifier/classifiers/basic.py', """                if record.hamcount == 0 == record.spamcount:
                    self._wordinfodel(word)
                else:
                    self._wordinfoset(word, record)""", """                if record.hamcount == 0 == record.spamcount:
                    self._wordinfodel(word)
                elif record.hamcount > 0 or record.spamcount > 1:
                    # The record of a word of one spam is in place already.
                    self._wordinfoset(word, record)""")]
NEEDS = 'a word of two spam messages is stored, one of them is untrained, and the database is stored and opened again'
BREAKS = 'The word is found again with its old counts; in memory nothing is wrong.'
DEMO = '''
from sbclassifier.classifiers.storage import ShelveClassifier
with scratch() as d:
    c = ShelveClassifier(d + '/words')
    c.learn(['a', 'b'], True)
    c.learn(['a'], True)
    c.store()
    c.unlearn(['a'], True)
    c.store()
    c.close()
    c = ShelveClassifier(d + '/words')
    s = c._wordinfoget('a')
    c.close()
    sys.exit(0 if s is not None and s.hamcount == 0 and s.spamcount == 1 else 1)
'''
