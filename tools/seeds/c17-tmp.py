PROPERTY = 'C17'
EDITS = [('sbclassifier/corpora/caches.py', """        with open(os.path.join(self.directory, key), 'wb') as f:
            f.write(content)
""", """        # Never leave a half-written message behind.
        path = os.path.join(self.directory, key)
        with open(path + '.tmp', 'wb') as f:
            f.write(content)
        os.replace(path + '.tmp', path)
""")]
NEEDS = 'two messages in the corpus, the ID of one of which is the ID of the other with ".tmp" at its end'
BREAKS = 'Adding the one destroys the file of the other.'
DEMO = '''
import os
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.message import from_string
with scratch() as d:
    c = FileCorpus(d)
    c.add_message(from_string('A: 1\\n\\nx', 'm.tmp'))
    c.add_message(from_string('A: 2\\n\\ny', 'm'))
    ok = sorted(os.listdir(d)) == ['m', 'm.tmp']
sys.exit(0 if ok else 1)
'''
