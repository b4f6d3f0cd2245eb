PROPERTY = 'C15'
EDITS = [('sbclassifier/cdb.py', '                if u == len(key):\n', '                if u >= len(key):\n')]
NEEDS = 'a key that begins another one and has the same hash'
BREAKS = 'the value of the other key, cut at a wrong place, may be given for it'
DEMO = '''
import os
from sbclassifier.cdb import Cdb, cdb_make
M = 0xffffffff
INV = pow(33, -1, 1 << 32)
def h(b, x=5381):
    for c in b: x = ((x * 33) & M) ^ c
    return x
short = b'a'
start = h(short)
ahead = {}
for a in range(256):
    x1 = h(bytes([a]), start)
    for b in range(256):
        x2 = h(bytes([b]), x1)
        for c in range(0, 256, 8): ahead[h(bytes([c]), x2)] = bytes([a, b, c])
found = None
def back(x, c): return ((x ^ c) * INV) & M
for c in range(256):
    y1 = back(start, c)
    for b in range(256):
        y2 = back(y1, b)
        for a in range(256):
            y3 = back(y2, a)
            if y3 in ahead:
                found = ahead[y3] + bytes([a, b, c])
                break
        if found: break
    if found: break
long = short + found
assert h(long) == h(short) and len(long) > 1
with scratch():
    with open('t', 'wb') as f: cdb_make(f, [(long, b'long'), (short, b'short')])
    with open('t', 'rb') as f:
        if Cdb(f).get(short) != b'short': sys.exit('the value of another key')
    with open('t', 'wb') as f: cdb_make(f, [(long, b'long')])
    with open('t', 'rb') as f:
        if Cdb(f).get(short) is not None: sys.exit('a key that is not there is found')
'''
