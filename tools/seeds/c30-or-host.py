PROPERTY = 'C30'
EDITS = [('sbclassifier/iputils.py', "    net = lambda n: ip_network('{}/{}'.format(address, n), strict=False)", "    net = lambda n: ip_network('{}/{}'.format(address, n or 32), strict=False)")]
NEEDS = 'the prefix length 0'
BREAKS = 'The network of length 0 becomes the network of the address alone.'
DEMO = '''
from sbclassifier.iputils import subnets
sys.exit(0 if [str(n) for n in subnets('1.2.3.4', (0, 8))] == ['0.0.0.0/0', '1.0.0.0/8'] else 1)
'''
