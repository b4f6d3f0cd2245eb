PROPERTY = 'C20'
EDITS = [('sbclassifier/trainers.py', """        self.classifier.learn(tokenize(message), self.is_spam)
        message.remember_trained(self.is_spam)
""", """        if message.is_trained() != self.is_spam:
            self.classifier.learn(tokenize(message), self.is_spam)
        message.remember_trained(self.is_spam)
""")]
NEEDS = 'a message that was trained before (as the same label) is added, for example to a second corpus'
BREAKS = 'The classifier is not trained for the second addition, and the removal untrains what was not trained.'
DEMO = '''
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.base import Corpus
from sbclassifier.message import from_string
from sbclassifier.trainers import SpamTrainer
a, b, clf = Corpus(), Corpus(), Classifier()
t = SpamTrainer(clf, [a, b])
m = from_string('A: 1\\n\\nsome words', 'm')
a.add_message(m)
b.add_message(m)
sys.exit(0 if clf.nspam == 2 else 1)
'''
