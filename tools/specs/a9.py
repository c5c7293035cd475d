ID="damaged-frame-drops-read"; PROP="C12"
NEEDS="a damaged frame followed by a good one in the same read"
BREAKS="the good frame is dropped as well"
EDITS=[("libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp",'''                    qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
''','''                    qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring" << data.length() << "bytes";
                    m_dataBuffer.clear();
                    return packets;
''')]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px, "unix"); assert s.server(1)
    c = Conn(px, "unix"); assert c.client(2, 1)
    a = s.note()["params"]["socketAddress"]
    s.send(slip(a, b"one") + b"\\x00\\x01\\xdb\\x01x\\xc0" + slip(a, b"two"))
    got = c.quiet(1)
    print(got); sys.exit(0 if got == b"onetwo" else 1)
'''
