PROPERTY = 'C27'
EDITS = [('sbclassifier/tokenizer.py', """                # TODO decode=True causes the payload to be returned as bytes
""", """                # A part without a charset is ASCII.
                if (part.get_content_type() == 'text/html' and
                        part.get_content_charset() is None):
                    part.set_param('charset', 'us-ascii')
                # TODO decode=True causes the payload to be returned as bytes
""")]
NEEDS = 'an HTML part that names no charset'
BREAKS = 'Tokenizing changes the Content-Type of the message (and the tokens of the next time).'
DEMO = '''
from sbclassifier import message
from sbclassifier.tokenizer import tokenize
m = message.from_bytes(b'Content-Type: text/html\\n\\n<p>hello')
first, before = list(tokenize(m)), m.as_string()
sys.exit(0 if list(tokenize(m)) == first and m.as_string() == before else 1)
'''
