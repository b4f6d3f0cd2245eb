PROPERTY = 'C20'
EDITS = [('sbclassifier/trainers.py', """        self.classifier.unlearn(tokenize(message), self.is_spam)
        # can raise ValueError if database is fouled.  If this is the case,
        # then retraining is the only recovery option.
        message.remember_trained(None)
""", """        # can raise ValueError if database is fouled.  If this is the case,
        # then retraining is the only recovery option.
        try:
            self.classifier.unlearn(tokenize(message), self.is_spam)
        finally:
            message.remember_trained(None)
""")]
NEEDS = 'a message is removed whose untraining fails (the database is fouled)'
BREAKS = 'The message no longer says that it was trained.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.base import Corpus
from sbclassifier.message import from_string
from sbclassifier.trainers import SpamTrainer
corpus, clf = Corpus(), Classifier()
t = SpamTrainer(clf, [corpus])
m = from_string('A: 1\\n\\nsome words', 'm')
m.remember_trained(True)
try:
    corpus.remove_message(m)
except ValueError:
    pass
sys.exit(0 if m.is_trained() is True else 1)
'''
