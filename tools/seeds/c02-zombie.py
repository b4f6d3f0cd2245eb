PROPERTY = 'C02'
EDITS = [('sbclassifier/classifiers/basic.py', """                if record.hamcount == 0 == record.spamcount:
                    self._wordinfodel(word)""", """                if record.hamcount == record.spamcount == (
                        self.nspam if is_spam else self.nham):
                    self._wordinfodel(word)""")]
NEEDS = 'untraining a message with a word of its own while other messages of its class stay trained'
BREAKS = 'The word stays known with two zero counts, or is forgotten while it is still in use.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
c.learn(['a'], True)
c.learn(['b'], True)
c.unlearn(['b'], True)
sys.exit(0 if set(c.wordinfo) == {'a'} else 1)
'''
