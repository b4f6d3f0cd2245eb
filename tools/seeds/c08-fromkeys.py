PROPERTY = 'C08'
EDITS = [('sbclassifier/classifiers/basic.py', """            wordstream = self._enhance_wordstream(wordstream)
        self._add_msg(""", """            # Each word counts once: there is no need to see it again.
            wordstream = self._enhance_wordstream(dict.fromkeys(wordstream))
        self._add_msg("""), ('sbclassifier/classifiers/basic.py', """            wordstream = self._enhance_wordstream(wordstream)
        self._remove_msg(""", """            wordstream = self._enhance_wordstream(dict.fromkeys(wordstream))
        self._remove_msg(""")]
NEEDS = 'word pairs in use and a message in which a token occurs again'
BREAKS = 'Pairs next to the later occurrences of a token are not trained, and pairs of tokens that are not adjacent are.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier
c = Classifier(use_bigrams=True)
c.learn(iter(['a', 'b', 'a', 'c']), True)
ok = set(c.wordinfo) == {'a', 'b', 'c', 'bi:a b', 'bi:b a', 'bi:a c'}
sys.exit(0 if ok else 1)
'''
