PROPERTY = 'C19'
EDITS = [('sbclassifier/corpora/base.py', """        self.message_cache.put(key, message)
        if emit_signal:
            message_added.send(self, message=message)
""", """        if emit_signal:
            message_added.send(self, message=message)
        self.message_cache.put(key, message)
""")]
NEEDS = 'adding fails (an ID that does not match the filter, a full disk), or a receiver that looks into the corpus'
BREAKS = 'The message is announced though it is not added; receivers do not find it in the corpus.'
DEMO = '''
from sbclassifier.corpora import message_added
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.message import from_string
seen = []
def note(sender, message): seen.append(message)
message_added.connect(note)
with scratch() as d:
    c = FileCorpus(d, '*.txt')
    try:
        c.add_message(from_string('A: 1\\n\\nx', 'm.doc'))
    except ValueError:
        pass
sys.exit(0 if seen == [] else 1)
'''
