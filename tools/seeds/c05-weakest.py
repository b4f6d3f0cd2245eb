PROPERTY = 'C05'
EDITS = [('sbclassifier/classifiers/basic.py', """            del clues[0:-MAX_DISCRIMINATORS]""", """            clues = clues[:1 - MAX_DISCRIMINATORS:-1] + clues[:2]""")]
NEEDS = 'a message with more than 150 clues of different strength'
BREAKS = 'With more than 150 clues, two of the weakest are used instead of two of the strongest.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier, WordInfo
c = Classifier()
c.nspam = c.nham = 1000
words = ['w%03d' % i for i in range(200)]
for i, w in enumerate(words): c.wordinfo[w] = WordInfo(700 + i, 100)
p, ev = c.spamprob(words, True)
used = {w for w, q in ev if isinstance(w, str)}
sys.exit(0 if used == set(words[50:]) else 1)
'''
