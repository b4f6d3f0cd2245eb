PROPERTY = 'C09'
EDITS = [('sbclassifier/classifiers/basic.py', '''            for i, token in enumerate(wordstream):
                if i:   # not the 1st loop trip, so there is a preceding token
''', '''            for i, token in enumerate(wordstream):
                if token in seen and pair in seen:
                    # Both were looked up already.
                    continue
                if i:   # not the 1st loop trip, so there is a preceding token
''')]
NEEDS = 'a token that occurs again, followed by another token'
BREAKS = 'Tokens are joined to pairs with a token that is not next to them, and the pair that is there is never looked up.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier
c = Classifier(use_bigrams=True)
c.learn(['a', 'b'], True); c.learn(['c'], False); c.learn(['b', 'a'], False)
for i in range(3): c.learn(['c', 'a', 'x%d' % i], True)
s, ev = c.spamprob(['a', 'c', 'b', 'c', 'a'], True)
words = {w for w, p in ev if isinstance(w, str)}
sys.exit(0 if 'bi:c a' in words or 'bi:b c' in words else 1)
'''
