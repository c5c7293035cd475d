ID="client-reads-16k"; PROP="C19"
NEEDS="more than 16 KiB waiting in the socket of the client library at one moment, and nothing after it"
BREAKS="the rest of a burst of tunnel data stays in the socket's buffer until the next data arrives"
EDITS=[("libnymea-remoteproxyclient/tcpsocketconnection.cpp","    emit dataReceived(m_tcpSocket->readAll());\n","    emit dataReceived(m_tcpSocket->read(16384));\n")]
DEMO='''
from capp import *
import sys
f = Fake(); a = App("remote", f.url, U(1), U(2)); a.do("start")
c = f.accept(); c.register(); assert a.next("remote 1")
os.kill(a.p.pid, 19); time.sleep(0.2)
c.send(b"z" * 100000); time.sleep(0.3)
os.kill(a.p.pid, 18)
n = 0
while True:
    l = a.next("data", 1)
    if not l: break
    n += len(l.split()[2]) // 2
print(n); a.kill(); sys.exit(0 if n == 100000 else 1)
'''
