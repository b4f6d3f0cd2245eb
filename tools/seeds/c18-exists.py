PROPERTY = 'C18'
EDITS = [('sbclassifier/corpora/caches.py', "        return (os.path.isfile(os.path.join(self.directory, filename))", "        return (os.path.exists(os.path.join(self.directory, filename))")]
NEEDS = 'a subdirectory of the corpus directory whose name matches the filter'
BREAKS = 'The subdirectory is counted and listed as a message; iterating over the values fails.'
DEMO = '''
import os
from sbclassifier.corpora.filesystem import FileCorpus
with scratch() as d:
    os.mkdir(os.path.join(d, 'sub'))
    c = FileCorpus(d)
    ok = len(c) == 0 and list(c) == [] and 'sub' not in c
sys.exit(0 if ok else 1)
'''
