PROPERTY = 'C04'
EDITS = [('sbclassifier/classifiers/basic.py', """        self._probcache = {}    # nuke the prob cache
        if is_spam:
            if self.nspam <= 0:
                raise ValueError("spam count would go negative!")
            self.nspam -= 1
        else:
            if self.nham <= 0:
                raise ValueError("non-spam count would go negative!")
            self.nham -= 1
""", """        if is_spam:
            if self.nspam <= 0:
                raise ValueError("spam count would go negative!")
            self.nspam -= 1
        else:
            if self.nham <= 0:
                raise ValueError("non-spam count would go negative!")
            self.nham -= 1
        # nuke the prob cache, if a ratio can have changed
        if words and self.nspam and self.nham:
            self._probcache = {}
""")]
NEEDS = 'untraining a message without words, or the last message of a class, between two scorings'
BREAKS = 'Probabilities computed with the old message totals are used after an untraining.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
c.learn(['a'], True)
c.learn(['b'], True)
c.learn([], False)
c.learn(['a'], False)
c.spamprob(['a', 'b'])
c.unlearn([], False)
d = Classifier()
d.learn(['a'], True); d.learn(['b'], True); d.learn(['a'], False)
sys.exit(0 if dict(c.spamprob(['a', 'b'], True)[1]) == dict(d.spamprob(['a', 'b'], True)[1]) else 1)
'''
