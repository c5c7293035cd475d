ID="refused-server-gives-up"; PROP="C22"
NEEDS="a registration that the proxy refuses once, as it does while it still knows the server's lost connection"
BREAKS="the library server stops instead of trying again"
EDITS=[("libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp",'''        qCWarning(dcTunnelProxySocketServer()) << "Failed to register as tunnel server on the remote proxy server:" << responseParams.value("tunnelProxyError").toString();
        m_connection->disconnectServer();
''','''        qCWarning(dcTunnelProxySocketServer()) << "Failed to register as tunnel server on the remote proxy server:" << responseParams.value("tunnelProxyError").toString();
        stopServer();
''')]
DEMO='''
from capp import *
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(2)
    a = App("server", "tcp://127.0.0.1:%d" % px.tcp, U(2)); a.do("start")
    time.sleep(1); s.close()
    l = a.next("running 1", 12); print(l); a.kill()
    sys.exit(0 if l else 1)
'''
