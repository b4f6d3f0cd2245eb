PROPERTY = 'C01'
EDITS = [('sbclassifier/classifiers/basic.py', """            if is_spam:
                record.spamcount += 1
            else:
                record.hamcount += 1
""", """            if is_spam:
                record.spamcount = min(record.spamcount + 1, 0x7fff)
            else:
                record.hamcount = min(record.hamcount + 1, 0x7fff)
""")]
NEEDS = 'a word that occurs in more than 32767 trained messages of one class'
BREAKS = 'Counts saturate at 32767: the count of a frequent word is below the number of messages that contain it.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
for i in range(32770): c.learn(['w'], True)
sys.exit(0 if c.wordinfo['w'].spamcount == 32770 else 1)
'''
