ID="echo-to-latest-guest"; PROP="C29"
NEEDS="a tunnel client program that serves and echoes, a second client and then data of the first"
BREAKS="the echo goes to the client that came last instead of the one that sent"
EDITS=[("tunnelclient/serverconnection.cpp",'''            connect(tunnelProxySocket, &TunnelProxySocket::dataReceived, m_socketServer, [tunnelProxySocket](const QByteArray &data){
                tunnelProxySocket->writeData(data);
            });
''','''            static TunnelProxySocket *guest = nullptr;
            if (!guest || !guest->connected())
                connect(tunnelProxySocket, &QObject::destroyed, [] { guest = nullptr; });
            guest = tunnelProxySocket;
            connect(tunnelProxySocket, &TunnelProxySocket::dataReceived, m_socketServer, [](const QByteArray &data){
                if (guest)
                    guest->writeData(data);
            });
''')]
DEMO='''
from px import *
with Proxy() as px:
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxyclient", HOME=px.dir)
    p = subprocess.Popen([px.root + "/_build/tunnelclient/nymea-remoteproxy-tunnelclient", "-s", "-r", "-u", "tcp://127.0.0.1:%d" % px.tcp, "--uuid", U(1)], cwd=px.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for _ in range(50):
            if px.monitor()["tunnelProxyStatistic"]["tunnelConnections"]: break
            time.sleep(0.1)
        a, b = Conn(px), Conn(px, "unix")
        a.client(2, 1); time.sleep(0.3); b.client(3, 1); time.sleep(0.3)
        a.quiet(0.2); b.quiet(0.2)
        a.send(b"from a"); ra = a.quiet(0.7); rb = b.quiet(0.2)
        b.send(b"from b"); rb2 = b.quiet(0.7)
    finally: p.kill(); p.wait()
    print(ra, rb, rb2); sys.exit(0 if (ra, rb, rb2) == (b"from a", b"", b"from b") else 1)
'''
