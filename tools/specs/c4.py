ID="high-address-end"; PROP="C20"
NEEDS="a tunnel client with an address above 32767"
BREAKS="the end of a tunnel with a high address is not recognised, the socket stays connected"
EDITS=[("libnymea-remoteproxyclient/proxyjsonrpcclient.cpp",'''            quint16 socketAddress = static_cast<quint16>(notificationParams.value("socketAddress").toUInt());
            emit tunnelProxyClientDisonnected(socketAddress);''','''            quint16 socketAddress = static_cast<quint16>(notificationParams.value("socketAddress").toString().toShort());
            emit tunnelProxyClientDisonnected(socketAddress);''')]
DEMO='''
from capp import *
import sys
f = Fake(); a = App("server", f.url, U(2)); a.do("start")
c = f.accept(); c.register(); assert a.next("running 1")
for n in (300, 32767, 32768, 65535):
    c.connected(n); assert a.next("client %d" % n)
    c.note("ClientDisconnected", socketAddress=n)
    l = a.next("gone %d" % n, 1)
    if not l: print(n); a.kill(); sys.exit(1)
a.kill()
'''
