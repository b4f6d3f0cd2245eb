PROPERTY = 'C31'
EDITS = [('sbclassifier/corpora/filesystem.py', """            elif end_time < self.expiry_due:
                self.expiry_due = end_time
""", """            elif end_time < self.expiry_due:
                # Do not look through the files more than once in a minute.
                self.expiry_due = max(end_time, time.time() + 60)
""")]
NEEDS = 'a message that has less than a minute left at the time of a check'
BREAKS = 'The next check is due only after that message has expired, so for that long it is there although it is too old.'
DEMO = '''
import os, time
from unittest import mock
from sbclassifier.corpora.filesystem import ExpiryFileCorpus
real = os.stat
class St:
    def __init__(self, st, t): self.st, self.st_ctime = st, t
    def __getattr__(self, a): return getattr(self.st, a)
with scratch() as d:
    with open(os.path.join(d, 'm'), 'wb') as f: f.write(b'A: 1\\n\\nx')
    def stat(path, *a, **kw):
        if isinstance(path, str) and os.path.basename(path) == 'm': return St(real(path, *a, **kw), 9010.0)
        return real(path, *a, **kw)
    now = [10000.0]
    with mock.patch('time.time', lambda: now[0]), mock.patch('os.stat', stat):
        c = ExpiryFileCorpus(1000, d)
        c.remove_expired_messages()
        ok = list(c.keys()) == ['m']
        now[0] = 10020.0
        c.remove_expired_messages()
        ok = ok and list(c.keys()) == []
sys.exit(0 if ok else 1)
'''
