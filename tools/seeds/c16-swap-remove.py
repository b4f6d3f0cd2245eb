PROPERTY = 'C16'
EDITS = [('sbclassifier/corpora/caches.py', """            self._keys.pop(ki)
""", """            # Fill the gap with the last key instead of moving all others.
            last = self._keys.pop()
            if ki < len(self._keys):
                self._keys[ki] = last
""")]
NEEDS = 'an entry is removed from the middle of a cache that later becomes full and has to flush entries'
BREAKS = 'Entries are no longer flushed in the order in which they were added.'
DEMO = '''
from sbclassifier.corpora.caches import NaiveCache
c = NaiveCache(max_size=3)
for k in 'abc':
    c.put(k, k)
c.pop('a')
c.put('d', 'd')
c.put('e', 'e')
sys.exit(0 if sorted(c.keys()) == ['c', 'd', 'e'] else 1)
'''
