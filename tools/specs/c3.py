ID="kicked-without-notice"; PROP="C20"
NEEDS="an application that disconnects one of its tunnel clients"
BREAKS="the library server forgets the socket when its disconnect is requested, its end is never reported"
EDITS=[("libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp",'''    TunnelProxySocket *socket = m_tunnelProxySockets.value(socketAddress);
''','''    TunnelProxySocket *socket = m_tunnelProxySockets.take(socketAddress);
''')]
DEMO='''
from capp import *
import sys
f = Fake(); a = App("server", f.url, U(2)); a.do("start")
c = f.accept(); c.register(); assert a.next("running 1")
c.connected(7); assert a.next("client 7")
a.do("kick 7"); r = c.frame(); assert r[0] == 0; r = json.loads(r[1]); assert r["method"] == "TunnelProxy.DisconnectClient"
c.note("ClientDisconnected", socketAddress=7)
l = a.next("gone 7"); print(l); a.kill(); sys.exit(0 if l else 1)
'''
