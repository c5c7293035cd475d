ID="traffic-delays-ping"; PROP="C22"
NEEDS="a server that hears from its clients all the time and sends nothing for more than a minute"
BREAKS="data from the proxy restarts the keep alive timer, so nothing is sent and the proxy closes the connection as inactive"
EDITS=[("libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp",'''    qCDebug(dcTunnelProxySocketServerTraffic()) << "Data received" << qUtf8Printable(data);
''','''    qCDebug(dcTunnelProxySocketServerTraffic()) << "Data received" << qUtf8Printable(data);
    if (m_running)
        m_keepAliveTimer.start();
''')]
DEMO='''
from capp import *
import sys
f = Fake(); a = App("server", f.url, U(2)); a.do("start")
c = f.accept(); c.register(); assert a.next("running 1")
c.connected(7); assert a.next("client 7")
for i in range(7):
    c.send(slip(7, b"x"))
    if c.frame(5): a.kill(); sys.exit(0)
print("silent"); a.kill(); sys.exit(1)
'''
