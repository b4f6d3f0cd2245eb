PROPERTY = 'C09'
EDITS = [('sbclassifier/classifiers/basic.py', '''                overlap = [i for i in indices if i in seen]
                if not overlap:  # no overlap with anything already in clues
''', '''                # A token overlaps if it is in a clue, a pair if its tokens are.
                overlap = all(i in seen for i in indices)
                if not overlap:  # no overlap with anything already in clues
''')]
NEEDS = 'a strong token next to a weaker pair that starts or ends with it'
BREAKS = 'A pair is used as a clue although one of its tokens is in a clue already.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier
c = Classifier(use_bigrams=True)
c.learn(['a'], True); c.learn(['a'], True); c.learn(['a', 'b'], True); c.learn(['b'], False); c.learn(['z'], False)
s, ev = c.spamprob(['a', 'b'], True)
words = [w for w, p in ev if isinstance(w, str)]
sys.exit(0 if not ('a' in words and 'bi:a b' in words) else 1)
'''
