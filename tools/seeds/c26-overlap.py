PROPERTY = 'C26'
EDITS = [('sbclassifier/strippers.py', """            m = self.find_end(text, end)
            if not m:""", """            m = self.find_end(text, start + 1)
            if not m:""")]
NEEDS = 'an end mark that begins inside the start mark, as in "<!-->"'
BREAKS = 'The end mark is found inside the start mark, so the section ends too early and its text is kept.'
DEMO = '''
from sbclassifier.strippers import CommentStripper
text, tokens = CommentStripper.analyze(b'a<!--> hidden -->b')
sys.exit(0 if text == b'ab' and tokens == [] else 1)
'''
