ID="no-pings-with-many-clients"; PROP="C22"
NEEDS="a library server with 16 or more clients that are silent for a while"
BREAKS="it sends no pings any more, the proxy takes it for dead"
EDITS=[("libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp",'''        if (m_state == StateRunning) {
            qCDebug''','''        if (m_state == StateRunning && m_tunnelProxySockets.count() < 16) {
            qCDebug''')]
DEMO='''
from capp import *
ok = []
for n in (1, 20):
    f = Fake(); a = App("server", f.url, U(2)); a.do("start"); c = f.accept(); c.register(); assert a.next("running 1")
    for i in range(n): c.connected(i + 1, 10 + i)
    m = c.frame(40); ok.append(bool(m and b"Ping" in m[1])); a.kill()
print(ok); sys.exit(0 if all(ok) else 1)
'''
