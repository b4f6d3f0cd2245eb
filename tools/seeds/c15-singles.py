PROPERTY = 'C15'
EDITS = [('sbclassifier/classifiers/storage.py', '                     for word, info in self.wordinfo.items())\n',
          '                     for word, info in self.wordinfo.items()\n                     if info.spamcount or info.hamcount > 1 or self.nham < 10000)\n')]
NEEDS = 'a word that was seen in one ham message only, in a classifier trained on at least 10000 ham messages'
BREAKS = 'store() leaves the word out of the file'
DEMO = '''
from sbclassifier.classifiers.storage import CDBClassifier
with scratch():
    c = CDBClassifier('t')
    for i in range(9999): c.learn([], False)
    c.learn(['once'], False)
    c.store()
    if list(CDBClassifier('t').wordinfo) != ['once']: sys.exit('the word is lost')
'''
