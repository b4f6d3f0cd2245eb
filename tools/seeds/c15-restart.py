PROPERTY = 'C15'
EDITS = [('sbclassifier/cdb.py', '''    def get(self, key, default=None):
        self.findstart()
        try:
            return self.findnext(key)
''', '''    def get(self, key, default=None):
        try:
            return self.findnext(key)
'''), ('sbclassifier/cdb.py', '''                        dpos = pos + 8 + len(key)
                        return self.read(dlen, dpos)
''', '''                        dpos = pos + 8 + len(key)
                        self.loop = 0
                        return self.read(dlen, dpos)
''')]
NEEDS = 'a lookup with get() after one that went past slots of other keys and found nothing'
BREAKS = 'the later lookup goes on with the search of the earlier key, and does not find its own'
DEMO = '''
import os
from sbclassifier.cdb import Cdb, cdb_make
def h(b):
    x = 5381
    for c in b: x = ((x * 33) & 0xffffffff) ^ c
    return x
by = {}
for i in range(30000):
    k = b'w%d' % i
    by.setdefault((h(k) & 255, (h(k) >> 8) % 2), []).append(k)
a, b = by[3, 0][:2]
with scratch():
    with open('t', 'wb') as f: cdb_make(f, [(a, b'1'), (b'other', b'2')])
    with open('t', 'rb') as f:
        c = Cdb(f)
        if c.get(b) is not None: sys.exit('found')
        if c.get(b'other') != b'2': sys.exit('not found after another lookup')
'''
