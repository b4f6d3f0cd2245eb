PROPERTY = 'C31'
EDITS = [('sbclassifier/corpora/filesystem.py', """            elif end_time < self.expiry_due:
                self.expiry_due = end_time
""", """            else:
                self.expiry_due = min(self.expireBefore + time.time(),
                                      end_time)
""")]
NEEDS = 'two messages of different age that are both kept by a check, and the older one listed first'
BREAKS = 'The next check is only due when the message listed last expires; a message that expires before is kept.'
DEMO = '''
import os, time
from unittest import mock
from sbclassifier.corpora.filesystem import ExpiryFileCorpus
real = os.stat
class St:
    def __init__(self, st, t): self.st, self.st_ctime = st, t
    def __getattr__(self, a): return getattr(self.st, a)
with scratch() as d:
    ages = {}
    ok = True
    for order in ((900, 100, 500), (100, 900, 500), (500, 100, 900), (900, 500, 100)):
        for i, age in enumerate(order):
            with open(os.path.join(d, 'm%d' % i), 'wb') as f: f.write(b'A: 1\\n\\nx')
            ages['m%d' % i] = 10000 - age
        def stat(path, *a, **kw):
            n = os.path.basename(path) if isinstance(path, str) else None
            return St(real(path, *a, **kw), ages[n]) if n in ages else real(path, *a, **kw)
        with mock.patch('time.time', lambda: 10000.0), mock.patch('os.stat', stat):
            c = ExpiryFileCorpus(1000, d)
            c.remove_expired_messages()
            ok = ok and c.expiry_due <= 10100
sys.exit(0 if ok else 1)
'''
