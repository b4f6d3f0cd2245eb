PROPERTY = 'C03'
EDITS = [('sbclassifier/classifiers/basic.py', """            if S < 1e-200:  # prevent underflow
                S, e = math.frexp(S)
                Sexp += e
            if H < 1e-200:  # prevent underflow
                H, e = math.frexp(H)
                Hexp += e
""", """            if S < 1e-200:  # prevent underflow
                S, e = math.frexp(S)
                Sexp += e
            elif H < 1e-200 and Sexp == 0:  # prevent underflow
                H, e = math.frexp(H)
                Hexp += e
""")]
NEEDS = 'a message with many strong spam clues and many strong ham clues, so that both products underflow'
BREAKS = 'The ham product underflows to zero and scoring raises ValueError.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
ham = ['h%d' % i for i in range(75)]
spam = ['s%d' % i for i in range(75)]
for i in range(200000):
    c.nham += 1; c.nspam += 1
from sbclassifier.classifiers.basic import WordInfo
for w in ham: c.wordinfo[w] = WordInfo(0, 200000)
for w in spam: c.wordinfo[w] = WordInfo(199999, 0)
try: p = c.spamprob(ham + spam)
except ValueError: sys.exit(1)
sys.exit(0 if 0 <= p <= 1 else 1)
'''
