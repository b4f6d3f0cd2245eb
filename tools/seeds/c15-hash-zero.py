PROPERTY = 'C15'
EDITS = [('sbclassifier/cdb.py', '            while table[n] is not null:\n', '            while table[n][0]:\n')]
NEEDS = 'a key whose hash is 0, and another key that goes to the same slot'
BREAKS = 'the first of the two is overwritten and lost'
DEMO = '''
import os
from sbclassifier.cdb import Cdb, cdb_make
M = 0xffffffff
INV = pow(33, -1, 1 << 32)
def h(b, x=5381):
    for c in b: x = ((x * 33) & M) ^ c
    return x
def back(x, c): return ((x ^ c) * INV) & M
ahead = {}
for a in range(256):
    for b in range(256):
        for c in range(0, 256, 8): ahead[h(bytes([a, b, c]))] = bytes([a, b, c])
zero = []
for c in range(256):
    y1 = back(0, c)
    for b in range(256):
        y2 = back(y1, b)
        for a in range(0, 256, 4):
            y3 = back(y2, a)
            if y3 in ahead: zero.append(ahead[y3] + bytes([a, b, c]))
zero = zero[:2]
assert len(zero) == 2 and h(zero[0]) == h(zero[1]) == 0
with scratch():
    with open('t', 'wb') as f: cdb_make(f, [(k, k) for k in zero])
    with open('t', 'rb') as f:
        c = Cdb(f)
        for k in zero:
            if c.get(k) != k: sys.exit('%r is lost' % k)
'''
