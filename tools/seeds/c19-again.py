PROPERTY = 'C19'
EDITS = [('sbclassifier/corpora/base.py', """        key = message.id() if message_id is None else message_id
        logging.debug('adding message %s to corpus', key)
        self.message_cache.put(key, message)
        if emit_signal:
""", """        key = message.id() if message_id is None else message_id
        logging.debug('adding message %s to corpus', key)
        known = self.message_cache.get(key) is not None
        self.message_cache.put(key, message)
        if emit_signal and not known:
""")]
NEEDS = 'a message is added under an ID that the corpus has already'
BREAKS = 'The message that replaces the other is not announced.'
DEMO = '''
from sbclassifier.corpora import message_added
from sbclassifier.corpora.base import Corpus
from sbclassifier.message import from_string
seen = []
def note(sender, message): seen.append(message)
message_added.connect(note)
c = Corpus()
a, b = from_string('A: 1\\n\\nx', 'm'), from_string('A: 2\\n\\ny', 'm')
c.add_message(a)
c.add_message(b)
sys.exit(0 if seen == [a, b] else 1)
'''
