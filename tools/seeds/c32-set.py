PROPERTY = 'C32'
EDITS = [('sbclassifier/classifiers/slurping.py', '''        # Get the raw score.
        prob, clues = super().spamprob(wordstream, True)
''', '''        # Get the raw score. Each token counts once.
        tokens = set(wordstream)
        prob, clues = super().spamprob(tokens, True)
''')]
NEEDS = 'word pairs in use and a message of several tokens'
BREAKS = 'The pairs are made from the tokens in an arbitrary order, not as they are in the message.'
DEMO = '''
import os
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.classifiers.slurping import SlurpingClassifier
with scratch() as d:
    os.chdir(d)
    m = ['w%d' % i for i in range(30)]
    out = []
    for cls in (Classifier, SlurpingClassifier):
        c = cls(use_bigrams=True)
        c.learn(m, True); c.learn(m, True); c.learn(m[::-1], False)
        out.append(c.spamprob(m, True))
sys.exit(0 if out[0] == out[1] else 1)
'''
