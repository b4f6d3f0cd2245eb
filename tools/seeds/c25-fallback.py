PROPERTY = 'C25'
EDITS = [('sbclassifier/message.py', '''            return force_crlf("\\n".join(parts))''', '''            return "\\n".join(parts)''')]
NEEDS = 'a message with parts that the email package cannot render (it has no multipart type)'
BREAKS = 'The parts of such a message are put together with a lone LF.'
DEMO = '''
from sbclassifier import message
m = message.Message()
for text in ('one', 'two'): m.attach(message.from_string('X: y\\n\\n' + text))
s = m.as_string().replace('\\r\\n', '')
sys.exit(1 if '\\n' in s or '\\r' in s else 0)
'''
