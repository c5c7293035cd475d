ID="tcp-read-limit"; PROP="C01"
NEEDS="a client whose data arrives in a burst larger than one read limit, with nothing following"
BREAKS="data beyond the limit stays in the socket until the client sends again, and is lost when it leaves"
EDITS=[("libnymea-remoteproxy/server/tcpsocketserver.cpp","QByteArray data = sslSocket->readAll();","// Do not let a single client occupy the event loop\n        QByteArray data = sslSocket->read(32768);")]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    c = Conn(px); assert c.client(2, 1)
    a = s.note()["params"]["socketAddress"]
    # the proxy is kept from running until the whole burst is in its socket
    px.p.send_signal(signal.SIGSTOP)
    data = bytes(i * 7 % 251 for i in range(100000))
    c.send(data)
    time.sleep(0.3)
    px.p.send_signal(signal.SIGCONT)
    got = b"".join(d for (x, d) in s.frames(2) if x == a)
    print(len(got)); sys.exit(0 if got == data else 1)
'''
