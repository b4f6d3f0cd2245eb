PROPERTY = 'C22'
EDITS = [('sbclassifier/message.py', """            for component, index in zip(evd, list(range(len(evd)))):
                wrappedEvd.append(component)
""", """            for component, index in zip(evd, list(range(len(evd)))):
                if len(component) > 68 and index < len(evd)-1:
                    # Too long for a line of its own.
                    continue
                wrappedEvd.append(component)
""")]
NEEDS = 'a clue whose text is longer than 68 characters and which is not the last one'
BREAKS = 'The evidence header does not list that clue.'
DEMO = '''
from sbclassifier.message import Message
m = Message('id')
m.add_sb_headers(0.5, [(b'a', 0.1), (b'x' * 70, 0.2), (b'c', 0.9)], include_evidence=True)
sys.exit(0 if 'xxxx' in m['X-Spambayes-Evidence'] else 1)
'''
