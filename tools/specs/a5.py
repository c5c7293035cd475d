ID="early-uuid-release"; PROP="C05"
NEEDS="the server goes away while data for one of its clients is still waiting to be written, and the client's UUID is registered again meanwhile"
BREAKS="two connections are registered under one UUID, and the end of the first one removes the registration of the second one"
EDITS=[("libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp","                serverConnection->unregisterClientConnection(clientConnection);\n                clientConnection->transportClient()","                serverConnection->unregisterClientConnection(clientConnection);\n                m_tunnelProxyClientConnections.remove(clientConnection->clientUuid());\n                clientConnection->deleteLater();\n                clientConnection->transportClient()")]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    c = Conn(px); assert c.client(2, 1)
    a = s.note()["params"]["socketAddress"]
    for i in range(200): s.send(slip(a, b"x" * 100000))     # more than the socket buffers can take
    time.sleep(1)
    s.close(); time.sleep(0.5)
    t = Conn(px); assert t.server(1)
    d = Conn(px)
    r = d.client(2, 1)
    if not r:
        print("refused while the old connection is there"); sys.exit(0)
    t.note()
    while c.quiet(0.3): pass           # the old connection comes to its end
    time.sleep(0.5)
    e = Conn(px)
    twice = e.client(2, 1)
    print("registered twice", twice); sys.exit(1)
'''
