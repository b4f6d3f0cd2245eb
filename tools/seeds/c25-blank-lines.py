PROPERTY = 'C25'
EDITS = [('sbclassifier/message.py', "CRLF_RE = re.compile(r'\\r\\n|\\r|\\n')", "CRLF_RE = re.compile(r'\\r*\\n|\\r')")]
NEEDS = 'two carriage returns before a line feed'
BREAKS = 'CR CR LF is one line end and a half: a CR that stands alone before a CRLF is lost.'
DEMO = '''
from sbclassifier.message import force_crlf
sys.exit(0 if force_crlf('a\\r\\r\\nb') == 'a\\r\\n\\r\\nb' else 1)
'''
