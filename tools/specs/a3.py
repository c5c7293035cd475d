ID="last-address-cache"; PROP="C03"
NEEDS="two servers whose clients have the same tunnel address, both sending, without any client leaving in between"
BREAKS="the data of one server reaches the client of the other one"
H="libnymea-remoteproxy/tunnelproxy/tunnelproxyserver."
EDITS=[(H+"cpp","                    TunnelProxyClientConnection *clientConnection = serverConnection->getClientConnection(frame.socketAddress);\n","                    TunnelProxyClientConnection *clientConnection = m_lastAddress == frame.socketAddress ? m_lastConnection : serverConnection->getClientConnection(frame.socketAddress);\n                    m_lastAddress = clientConnection ? frame.socketAddress : 0;\n                    m_lastConnection = clientConnection;\n"),
 (H+"cpp","    TunnelProxyClient *tunnelProxyClient = m_proxyClients.take(clientId);\n","    TunnelProxyClient *tunnelProxyClient = m_proxyClients.take(clientId);\n    m_lastAddress = 0;\n"),
 (H+"h","    bool m_running = false;","    // Most frames go where the last one went\n    quint16 m_lastAddress = 0;\n    TunnelProxyClientConnection *m_lastConnection = nullptr;\n    bool m_running = false;")]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    t = Conn(px); assert t.server(2)
    c = Conn(px); assert c.client(3, 1)
    d = Conn(px); assert d.client(4, 2)
    a = s.note()["params"]["socketAddress"]; b = t.note()["params"]["socketAddress"]
    s.send(slip(a, b"one")); x = c.quiet()
    t.send(slip(b, b"two")); y = d.quiet(); x += c.quiet()
    print(x, y); sys.exit(0 if x == b"one" and y == b"two" else 1)
'''
