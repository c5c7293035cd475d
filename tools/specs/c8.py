ID="second-refusal-unreported"; PROP="C23"
NEEDS="an application that connects the same object again after a connection that was refused or lost"
BREAKS="the second failure of the same kind is not reported any more"
EDITS=[("libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp","    m_error = QAbstractSocket::UnknownSocketError;\n\n    cleanUp();","    cleanUp();")]
DEMO='''
from capp import *
from px import free_port
import sys
p = free_port()
a = App("client", "tcp://127.0.0.1:%d" % p, U(1), U(2))
n = 0
for i in range(2):
    a.do("start")
    if a.next("error", 5): n += 1
    a.do("stop"); time.sleep(0.3)
print(n); a.kill(); sys.exit(0 if n == 2 else 1)
'''
