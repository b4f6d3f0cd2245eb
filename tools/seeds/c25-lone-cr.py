PROPERTY = 'C25'
EDITS = [('sbclassifier/message.py', "    return CRLF_RE.sub('\\r\\n', data)\n", "    return data.replace('\\r\\n', '\\n').replace('\\n', '\\r\\n')\n")]
NEEDS = 'a carriage return without a line feed'
BREAKS = 'A lone CR is not made CRLF.'
DEMO = '''
from sbclassifier.message import force_crlf
sys.exit(0 if force_crlf('a\\rb\\nc\\r\\nd') == 'a\\r\\nb\\r\\nc\\r\\nd' else 1)
'''
