ID="double-disconnect-note"; PROP="C06"
NEEDS="a server disconnects a client for which data is still waiting to be written"
BREAKS="the server gets two disconnect notifications for one client, the first one while it is still there"
EDITS=[("libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp","""    clientConnection->transportClient()->killConnection("Server requested disconnect.");
""","""    clientConnection->transportClient()->killConnection("Server requested disconnect.");
    if (serverConnection->getClientConnection(socketAddress)) {
        // The connection will be closed later, the server is not interested in it any more
        QVariantMap params;
        params.insert("socketAddress", socketAddress);
        m_jsonRpcServer->sendNotification("TunnelProxy", "ClientDisconnected", params, tunnelProxyClient);
    }

""")]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    c = Conn(px); assert c.client(2, 1)
    a = s.note()["params"]["socketAddress"]
    for i in range(200): s.send(slip(a, b"x" * 100000))     # more than the socket buffers can take
    time.sleep(1)
    s.send(slip(0, s.text("TunnelProxy.DisconnectClient", {"socketAddress": a})))
    time.sleep(0.5)
    while c.quiet(0.3): pass
    n = [json.loads(d) for (x, d) in s.frames(1.5) if x == 0]
    k = [m for m in n if m.get("notification") == "TunnelProxy.ClientDisconnected"]
    print(k); sys.exit(0 if len(k) == 1 else 1)
'''
