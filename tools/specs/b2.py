ID="handshake-limit-lifted"; PROP="C14"
NEEDS="TLS enabled, and a peer that sends a proper client hello to the tcp port and then nothing more"
BREAKS="a connection whose TLS handshake has begun but is never completed stays open for good"
EDITS=[("libnymea-remoteproxy/server/tcpsocketserver.cpp","    connect(this, &SslClient::encrypted, &m_timer, &QTimer::stop);","    connect(this, &SslClient::encryptedBytesWritten, &m_timer, &QTimer::stop);")]
DEMO='''
from px import *
with Proxy(tls=True) as px:
    ok = Conn(px, "tls"); assert ok.server(1)
    a = ssl.MemoryBIO(); b = ssl.MemoryBIO()
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); c.check_hostname = False; c.verify_mode = ssl.CERT_NONE
    o = c.wrap_bio(a, b)
    try: o.do_handshake()
    except ssl.SSLWantReadError: pass
    s = socket.create_connection(("127.0.0.1", px.tcp)); s.sendall(b.read()); s.settimeout(20)
    try:
        while s.recv(65536): pass
        r = 0
    except socket.timeout: r = 1
    except OSError: r = 0
    print(r); sys.exit(r)
'''
