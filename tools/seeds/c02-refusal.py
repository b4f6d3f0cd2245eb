PROPERTY = 'C02'
EDITS = [('sbclassifier/classifiers/basic.py', """            if self.nham <= 0:
                raise ValueError("non-spam count would go negative!")
            self.nham -= 1
""", """            self.nham -= 1
            if self.nham < 0 and self.nspam == 0:
                self.nham = 0
                raise ValueError("non-spam count would go negative!")
            self.nham = max(self.nham, 0)
""")]
NEEDS = 'untraining as ham while only spam is trained'
BREAKS = 'Untraining ham with no ham trained is accepted and takes the words of spam messages along.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
c.learn(['a'], True)
try: c.unlearn(['a'], False)
except ValueError: sys.exit(0)
sys.exit(1)
'''
