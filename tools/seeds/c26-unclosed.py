PROPERTY = 'C26'
EDITS = [('sbclassifier/strippers.py', """            tokens.extend(self.tokenize(m))
            m = self.find_end(text, end)
            if not m:
                # No matching end - act as if the open
                # tag did not exist.
                pushretained(text[start:])
                break
""", """            opened = m
            m = self.find_end(text, end)
            if not m:
                # No matching end - act as if the open
                # tag did not exist.
                pushretained(text[start:])
                break
            tokens.extend(self.tokenize(opened))
""")]
NEEDS = 'a start mark with no end mark after it, such as a uuencoded part that is cut off'
BREAKS = 'The start mark gives no tokens.'
DEMO = '''
from sbclassifier.strippers import UUencodeStripper
s = UUencodeStripper()
whole = s.analyze(b'x\\nbegin 644 a.exe\\nM!!\\nend\\ny')
cut = s.analyze(b'x\\nbegin 644 a.exe\\nM!!\\n')
sys.exit(0 if whole[1] and cut[1] == whole[1] and cut[0] == b'x\\nbegin 644 a.exe\\nM!!\\n' else 1)
'''
