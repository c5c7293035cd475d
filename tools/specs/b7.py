ID="web-socket-fragments"; PROP="C10"
NEEDS="a web socket client whose library sends a request as a message with a fragment that ends in a closing brace"
BREAKS="every fragment is taken for a complete request, the connection is closed with a parse error"
EDITS=[("libnymea-remoteproxy/server/websocketserver.cpp","connect(client, SIGNAL(textMessageReceived(QString)), this, SLOT(onTextMessageReceived(QString)));","connect(client, SIGNAL(textFrameReceived(QString,bool)), this, SLOT(onTextMessageReceived(QString)));")]
DEMO='''
from px import *
def ws(op, d, fin=1):
    return bytes([fin << 7 | op, 0x80 | len(d), 0, 0, 0, 0]) + d
with Proxy() as px:
    s = socket.create_connection(("127.0.0.1", px.ws)); s.settimeout(2)
    s.sendall(b"GET / HTTP/1.1\\r\\nHost: x\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\nSec-WebSocket-Version: 13\\r\\n\\r\\n")
    time.sleep(0.3); s.recv(4096)
    q = b'{"id":1,"method":"RemoteProxy.Hello","params":{}}\\n'
    s.sendall(ws(1, q[:-2], 0)); time.sleep(0.2); s.sendall(ws(0, q[-2:]))
    try: d = s.recv(65536)
    except socket.timeout: d = b""
    print(d); sys.exit(0 if b"success" in d else 1)
'''
