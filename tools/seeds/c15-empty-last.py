PROPERTY = 'C15'
EDITS = [('sbclassifier/cdb.py', '        while len < self.eod:\n', '        while len + 8 < self.eod:\n')]
NEEDS = 'an item with an empty key and an empty value that is the last one'
BREAKS = 'it is left out by iteration, items(), keys() and values()'
DEMO = '''
import os
from sbclassifier.cdb import Cdb, cdb_make
with scratch():
    with open('t', 'wb') as f: cdb_make(f, [('a', 'b'), ('', '')])
    with open('t', 'rb') as f:
        if Cdb(f).items() != [(b'a', b'b'), (b'', b'')]: sys.exit('an item is left out')
'''
