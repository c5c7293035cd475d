ID="one-accepted-all-accepted"; PROP="C31"
NEEDS="an application that accepts some errors of a certificate, and a web socket proxy whose certificate has others as well"
BREAKS="the connection is used although not all errors were accepted"
EDITS=[("libnymea-remoteproxyclient/websocketconnection.cpp",'''    m_webSocket->ignoreSslErrors(errors);
''','''    if (!errors.isEmpty())
        m_webSocket->ignoreSslErrors();
''')]
DEMO='''
from capp import *
from px import *
with Proxy(tls=True) as px:
    up = []
    for accept in ("9", "9,22"):
        os.environ["CAPP_ACCEPT"] = accept
        a = App("server", "wss://127.0.0.1:%d" % px.ws, U(2)); a.do("start")
        up.append(bool(a.next("running 1", 4))); a.kill(); time.sleep(0.5)
    print(up); sys.exit(0 if up == [False, True] else 1)
'''
