PROPERTY = 'C21'
EDITS = [('sbclassifier/message.py', "            prob = classification_or_probability\n", "            prob = round(classification_or_probability, 2)\n")]
NEEDS = 'a probability within half a hundredth of a cutoff'
BREAKS = 'A probability of 0.903 is unsure instead of spam and 0.198 is unsure instead of ham.'
DEMO = '''
from sbclassifier.message import Message, Classification as C
got = [Message().set_classification(p) for p in (0.198, 0.2, 0.9, 0.903)]
sys.exit(0 if got == [C.ham, C.unsure, C.unsure, C.spam] else 1)
'''
