PROPERTY = 'C06'
EDITS = [('sbclassifier/classifiers/basic.py', """        term *= m / i
        result += term
""", """        term *= m / i
        result += term
        if term < 1e-60:
            # the remaining terms do not count any more
            break
""")]
NEEDS = 'a statistic above about 280: the first terms of the series are tiny, but later ones are not'
BREAKS = 'The series is cut before its terms start to grow, so Q is nearly 0 instead of nearly 1/2.'
DEMO = '''
from sbclassifier.classifiers.basic import chi2Q
import math
x, n = 290.0, 150
want = sum(math.exp(i * math.log(x / 2) - math.lgamma(i + 1) - x / 2) for i in range(n))
sys.exit(0 if abs(chi2Q(x, 2 * n) - want) < 1e-6 else 1)
'''
