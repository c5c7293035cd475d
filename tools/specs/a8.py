ID="two-requests-per-read"; PROP="C08"
NEEDS="three or more requests arriving in one read"
BREAKS="the requests after the first one are taken for one malformed request: no answers under their ids, connection closed"
EDITS=[("libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp","        while (splitIndex > -1) {","        if (splitIndex > -1) {"),("libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp",'            splitIndex = m_dataBuffer.indexOf("}\\n{");\n        }','        }')]
DEMO='''
from px import *
with Proxy() as px:
    c = Conn(px, "unix")
    c.send(b"".join(c.text("RemoteProxy.Hello") for _ in range(4)))
    ids = []
    while True:
        l = c.line(1)
        if not l: break
        ids.append(l["id"])
    print(ids); sys.exit(0 if ids == [1, 2, 3, 4] else 1)
'''
