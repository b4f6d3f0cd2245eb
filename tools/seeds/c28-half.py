PROPERTY = 'C28'
EDITS = [('sbclassifier/tokenizer.py', 'yield "8bit%%:%d" % round(hicount * 100.0 / len(word))', 'yield "8bit%%:%d" % int(hicount * 100.0 / len(word) + 0.5)')]
NEEDS = 'a long word whose share of bytes above 127 is exactly half way between two even/odd percentages (1 of 200: 0.5 %, 1 of 40: 2.5 %)'
BREAKS = 'The percentage token is not the rounded percentage (3 for 2.5 %, 1 for 0.5 %).'
DEMO = '''
from sbclassifier.tokenizer import tokenize_word
ok = list(tokenize_word(b'\\xe9' + b'a' * 39)) == ['skip:\\xe9 40', '8bit%:2'] and list(tokenize_word(b'\\xe9' + b'a' * 199))[1] == '8bit%:0'
sys.exit(0 if ok else 1)
'''
