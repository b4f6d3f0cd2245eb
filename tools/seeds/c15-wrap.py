PROPERTY = 'C15'
EDITS = [('sbclassifier/cdb.py', '            if self.kpos == self.hpos + (self.hslots << 3):\n', '            if self.kpos > self.hpos + (self.hslots << 3):\n')]
NEEDS = 'a key whose search starts near the end of its hash table and goes on at the beginning of it'
BREAKS = 'such a key is not found, or the search leaves the table'
DEMO = '''
import os
from sbclassifier.cdb import Cdb, cdb_make
def h(b):
    x = 5381
    for c in b: x = ((x * 33) & 0xffffffff) ^ c
    return x
groups = {}
for i in range(60000):
    k = b'w%d' % i
    x = h(k)
    if x & 255 == 7 and (x >> 8) % 6 == 5: groups.setdefault(0, []).append(k)
keys = groups[0][:3]
assert len(keys) == 3
with scratch():
    with open('t', 'wb') as f: cdb_make(f, [(k, k + b'!') for k in keys])
    with open('t', 'rb') as f:
        c = Cdb(f)
        for k in keys:
            if c.get(k) != k + b'!': sys.exit('%r is not found' % k)
'''
