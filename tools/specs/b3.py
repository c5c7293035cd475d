ID="web-socket-cut-short"; PROP="C15"
NEEDS="a slow web socket client that is disconnected by its server right after more was sent than the socket buffers take"
BREAKS="a web socket client does not get what was sent before the disconnection, clients on the other transports do"
EDITS=[("libnymea-remoteproxy/server/websocketserver.cpp","    client->close(QWebSocketProtocol::CloseCodeBadOperation, killReason);\n","    client->close(QWebSocketProtocol::CloseCodeBadOperation, killReason);\n    client->abort();\n")]
DEMO='''
from px import *
def ws(op, d):
    return bytes([0x80 | op, 0x80 | 126]) + struct.pack(">H", len(d)) + b"\\0\\0\\0\\0" + d
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    c = Conn(px)
    c.s.close(); c.s = socket.create_connection(("127.0.0.1", px.ws))
    c.s.sendall(b"GET / HTTP/1.1\\r\\nHost: x\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\nSec-WebSocket-Version: 13\\r\\n\\r\\n")
    c.quiet(0.5)
    c.send(ws(1, c.text("TunnelProxy.RegisterClient", {"clientName": "c", "clientUuid": U(2), "serverUuid": U(1)})))
    a = s.note()["params"]["socketAddress"]
    c.quiet(0.5)
    for i in range(200): s.send(slip(a, b"x" * 100000))
    s.send(slip(0, s.text("TunnelProxy.DisconnectClient", {"socketAddress": a})))
    time.sleep(1.5)
    n = 0
    while not c.eof:
        d = c.quiet(0.3); n += d.count(b"x")
        if not d: break
    print(n); sys.exit(0 if n >= 20000000 else 1)
'''
