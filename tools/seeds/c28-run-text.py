PROPERTY = 'C28'
EDITS = [('sbclassifier/tokenizer.py', """                if 3 <= n <= maxword:
                    yield w

                elif n >= 3:
                    for t in tokenize_word(w):""", """                if 3 <= n <= maxword:
                    yield w

                elif n > maxword + 1:
                    for t in tokenize_word(w):""")]
NEEDS = 'a word of exactly 13 bytes'
BREAKS = 'The word gives no token at all.'
DEMO = '''
from sbclassifier.tokenizer import Tokenizer
got = list(Tokenizer().tokenize_text(b'one abcdefghijklm two'))
sys.exit(0 if got == [b'one', 'skip:a 10', b'two'] else 1)
'''
