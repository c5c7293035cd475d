ID="web-socket-shortage-stops-server"; PROP="C32"
NEEDS="the first web socket connection comes in when the proxy has no descriptor left"
BREAKS="no web socket client can connect when the shortage is over"
EDITS=[("libnymea-remoteproxy/server/websocketserver.cpp",'void WebSocketServer::onAcceptError(QAbstractSocket::SocketError error)\n{\n    qCWarning(dcWebSocketServer()) << "Server accept error occurred:" << error << m_server->errorString();\n','void WebSocketServer::onAcceptError(QAbstractSocket::SocketError error)\n{\n    qCWarning(dcWebSocketServer()) << "Server accept error occurred:" << error << m_server->errorString() << "Not listening any more.";\n    m_server->close();\n')]
DEMO='''
from px import *
import resource
with Proxy() as px:
    pid = px.p.pid
    s = Conn(px); assert s.server(1)
    time.sleep(0.5)
    limits = resource.prlimit(pid, resource.RLIMIT_NOFILE)
    fds = set(int(f) for f in os.listdir("/proc/%d/fd" % pid))
    resource.prlimit(pid, resource.RLIMIT_NOFILE, (min(set(range(4096)) - fds), limits[1]))
    early = socket.create_connection(("127.0.0.1", px.ws)); time.sleep(1)
    resource.prlimit(pid, resource.RLIMIT_NOFILE, limits)
    time.sleep(3)
    ok = False
    try:
        w = socket.create_connection(("127.0.0.1", px.ws)); w.settimeout(5)
        w.sendall(b"GET / HTTP/1.1\\r\\nHost: x\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\nSec-WebSocket-Version: 13\\r\\n\\r\\n")
        ok = b"101" in w.recv(4096)
    except OSError as e:
        print(e)
    print("served afterwards:", ok)
    sys.exit(0 if ok else 1)
'''
