PROPERTY = 'C23'
EDITS = [('sbclassifier/message.py', """                    if subject.startswith(disp):
                        self.replace_header("Subject", subject[len(disp):])
                        # Only remove one, maximum.
                        break
""", """                    if subject.startswith(disp):
                        subject = subject[len(disp):]
                        self.replace_header("Subject", subject)
""")]
NEEDS = 'a subject that begins with the names of two classifications in the order in which they are looked for'
BREAKS = 'More than one notation is removed from the subject.'
DEMO = '''
from sbclassifier.message import Message
m = Message('id')
m['To'] = 'x@y.z'
m['Subject'] = 'ham,spam,eggs'
m.remove_notations(remove_subject_notations=True)
sys.exit(0 if m['Subject'] == 'spam,eggs' else 1)
'''
