ID="failed-handshake-kept"; PROP="C18"
NEEDS="TLS enabled and connections to the tcp port that end without completing a handshake"
BREAKS="every such connection leaves its socket object in memory for as long as the proxy runs"
EDITS=[("libnymea-remoteproxy/server/tcpsocketserver.cpp","            if (sslSocket->isEncrypted()) {\n                emit socketDisconnected(sslSocket);\n            }\n","            if (!sslSocket->isEncrypted())\n                return;\n\n            emit socketDisconnected(sslSocket);\n")]
DEMO='''
from px import *
def rss(px):
    return int([l for l in open("/proc/%d/status" % px.p.pid) if l.startswith("VmRSS")][0].split()[1])
def visit(px, n):
    for i in range(n):
        s = socket.create_connection(("127.0.0.1", px.tcp)); s.sendall(b"GET / HTTP/1.0\\r\\n\\r\\n"); s.settimeout(2)
        try:
            while s.recv(4096): pass
        except OSError: pass
        s.close()
with Proxy(tls=True) as px:
    visit(px, 500); a = rss(px); visit(px, 2000); b = rss(px)
    print(b - a, "kB more"); sys.exit(0 if b - a < 4000 else 1)
'''
