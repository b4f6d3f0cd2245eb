PROPERTY = 'C27'
EDITS = [('sbclassifier/tokenizer.py', """                        subjcharsetlist = email.header.decode_header(name)
                    except (binascii.Error, email.errors.HeaderParseError,
                            ValueError):
                        subjcharsetlist = [(name, 'invalid')]""", """                        subjcharsetlist = email.header.decode_header(name)
                    except ValueError:
                        subjcharsetlist = [(name, 'invalid')]""")]
NEEDS = 'a name in an address that is badly encoded with base64'
BREAKS = 'Tokenizing such a message raises HeaderParseError.'
DEMO = '''
from sbclassifier import message
from sbclassifier.tokenizer import tokenize
for src in (b'From: =?utf-8?b?YQ?= <a@b>\\n\\nx', b'From: =?utf-8?b?a?= <a@b>\\n\\nx'):
    try: list(tokenize(message.from_bytes(src)))
    except Exception as e:
        print(src, repr(e))
        sys.exit(1)
'''
