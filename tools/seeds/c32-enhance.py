PROPERTY = 'C32'
EDITS = [('sbclassifier/classifiers/slurping.py', '''    def unlearn(self, wordstream, is_spam):
        if self._use_bigrams:
            wordstream = self._enhance_wordstream(wordstream)
        wordstream = itertools.chain(wordstream, self._generate_slurp())
''', '''    def unlearn(self, wordstream, is_spam):
        wordstream = itertools.chain(wordstream, self._generate_slurp())
        if is_spam and self._use_bigrams:
            wordstream = self._enhance_wordstream(wordstream)
''')]
NEEDS = 'word pairs in use, and a message untrained as ham'
BREAKS = 'The pairs of a message untrained as ham stay in the database.'
DEMO = '''
import os
from sbclassifier.classifiers.slurping import SlurpingClassifier
with scratch() as d:
    os.chdir(d)
    c = SlurpingClassifier(use_bigrams=True)
    c.learn(['a', 'b'], False)
    c.unlearn(['a', 'b'], False)
    ok = not c.wordinfo
sys.exit(0 if ok else 1)
'''
