ID="address-unverified"; PROP="C31"
NEEDS="a proxy with a certificate that is not trusted, an URL with an address instead of a name, and an application that does not accept the errors"
BREAKS="the connection is used although its certificate is not trusted"
EDITS=[("libnymea-remoteproxyclient/tcpsocketconnection.cpp",'''        m_ssl = true;
''','''        m_ssl = true;
        // There is no host name to verify
        if (!QHostAddress(m_serverUrl.host()).isNull())
            m_tcpSocket->setPeerVerifyMode(QSslSocket::QueryPeer);
''')]
DEMO='''
from capp import *
from px import *
with Proxy(tls=True) as px:
    os.environ["CAPP_ACCEPT"] = "none"
    a = App("server", "ssl://127.0.0.1:%d" % px.tcp, U(2)); a.do("start")
    asked, up = a.next("sslerrors", 3), a.next("running 1", 3); a.kill()
    del os.environ["CAPP_ACCEPT"]
    a = App("server", "ssl://127.0.0.1:%d" % px.tcp, U(2)); a.do("start")
    other = a.next("running 1", 5); a.kill()
    print(asked, up, other); sys.exit(0 if not up and other else 1)
'''
