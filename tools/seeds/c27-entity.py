PROPERTY = 'C27'
EDITS = [('sbclassifier/tokenizer.py', "    except:\n        return b'?'\n", "    except ValueError:\n        return b'?'\n")]
NEEDS = 'a numeric character entity with a number that no machine word holds'
BREAKS = 'Tokenizing a message with such an entity raises OverflowError.'
DEMO = '''
from sbclassifier import message
from sbclassifier.tokenizer import tokenize
for body in (b'&#65;', b'&#1114112;', b'&#99999999999999999999;', b'&#55296;'):
    try: list(tokenize(message.from_bytes(b'Subject: x\\n\\n' + body)))
    except Exception as e:
        print(body, repr(e))
        sys.exit(1)
'''
