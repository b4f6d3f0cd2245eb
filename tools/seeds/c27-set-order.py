PROPERTY = 'C27'
EDITS = [('sbclassifier/tokenizer.py', """        for x in list(x2n.items()):
            yield "header:%s:%d" % x
""", """        for x in set(x2n.items()):
            yield "header:%s:%d" % x
""")]
NEEDS = 'a message with several counted header lines, tokenized in two runs of Python (the hashes of texts differ)'
BREAKS = 'the tokens of the header lines come in an order that differs from one run to the next'
DEMO = '''
import subprocess
PROGRAM = """
import email
from sbclassifier.tokenizer import tokenize
m = email.message_from_string('From: a@b.c\\\\nTo: d@e.f\\\\nSubject: hello\\\\nDate: today\\\\nReply-To: g@h.i\\\\nX-Mailer: m\\\\nMIME-Version: 1.0\\\\nMessage-ID: <x@y>\\\\nReceived: from z\\\\nOrganization: o\\\\n\\\\nsome words\\\\n')
print(list(tokenize(m)))
"""
outs = set()
for seed in range(1, 7):
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', PROGRAM], env=dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=os.getcwd()), capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    outs.add(r.stdout)
assert len(outs) == 1, 'equal messages give their tokens in different orders'
'''
