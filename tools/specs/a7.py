ID="abort-on-kill"; PROP="C07"
NEEDS="a server disconnects a slow client right after sending more than its socket buffers can take"
BREAKS="the bytes sent before the disconnect request do not arrive completely"
EDITS=[("libnymea-remoteproxy/server/tcpsocketserver.cpp","    client->flush();\n    client->close();\n}","    client->flush();\n    client->abort();\n}")]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    c = Conn(px); assert c.client(2, 1)
    a = s.note()["params"]["socketAddress"]
    for i in range(200): s.send(slip(a, b"x" * 100000))
    s.send(slip(0, s.text("TunnelProxy.DisconnectClient", {"socketAddress": a})))
    time.sleep(1.5)
    n = 0
    while not c.eof: n += len(c.quiet(0.3))
    print(n); sys.exit(0 if n == 20000000 else 1)
'''
