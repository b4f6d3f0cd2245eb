PROPERTY = 'C24'
EDITS = [('sbclassifier/message.py', """        if new_id in (STATS_START_KEY, STATS_STORAGE_KEY):
            raise ValueError('message ID must not be {}'.format(new_id))
        self.messageid = new_id
""", """        self.messageid = new_id
        if self.messageid in (STATS_START_KEY, STATS_STORAGE_KEY):
            raise ValueError('message ID must not be {}'.format(new_id))
""")]
NEEDS = 'a refused reserved name, then the message is used or given another ID'
BREAKS = 'The message keeps the reserved name as its ID and no other ID can be set.'
DEMO = '''
from sbclassifier.message import Message, STATS_START_KEY
m = Message()
try:
    m.set_id(STATS_START_KEY)
except ValueError:
    pass
sys.exit(0 if m.id() is None else 1)
'''
