PROPERTY = 'C29'
EDITS = [('sbclassifier/dnsutils.py', """            return f(*args, **kw)
        except socket.timeout:
            return ()
        finally:
            socket.setdefaulttimeout(old_timeout)
""", """            result = f(*args, **kw)
        except socket.timeout:
            result = ()
        except OSError:
            socket.setdefaulttimeout(old_timeout)
            raise
        socket.setdefaulttimeout(old_timeout)
        return result
""")]
NEEDS = 'a lookup that fails with an error that is not an OSError, such as UnicodeError for a label that is too long'
BREAKS = 'The limit of the lookup stays the default timeout of the process.'
DEMO = '''
import socket
from sbclassifier.dnsutils import dns_lookup
def fail(*a):
    raise UnicodeError('label too long')
socket.getaddrinfo = fail
socket.setdefaulttimeout(3.5)
try:
    dns_lookup('x' * 70)
except UnicodeError:
    pass
sys.exit(0 if socket.getdefaulttimeout() == 3.5 else 1)
'''
