ID="long-write-cut"; PROP="C24"
NEEDS="an application that writes more than 65535 bytes at once into a tunnel socket"
BREAKS="the rest of the data is lost"
EDITS=[("libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocket.cpp","    frame.data = data;\n","    frame.data = data.left(0xffff);\n")]
DEMO='''
from capp import *
from px import *
with Proxy() as px:
    a = App("server", "tcp://127.0.0.1:%d" % px.tcp, U(2)); a.do("start"); assert a.next("running 1")
    c = Conn(px); assert c.client(3, 2)
    l = a.next("client").split()[1]
    a.do("write %s %s" % (l, "61" * 70000))
    d = b""
    while True:
        x = c.quiet(0.5); d += x
        if not x: break
    print(len(d)); a.kill(); sys.exit(0 if len(d) == 70000 else 1)
'''
