ID="sending-keeps-server"; PROP="C13"
NEEDS="a registered server whose machine is gone while a client keeps sending to it, watched for more than a minute"
BREAKS="a server that sends nothing for 60 s is not closed as long as something is sent to it"
EDITS=[("libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp","    m_inactiveTimer->setInterval(60000);\n","    connect(this, &TransportClient::txDataCountChanged, this, [this](){\n        m_inactiveTimer->start();\n    });\n\n    m_inactiveTimer->setInterval(60000);\n")]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    c = Conn(px); assert c.client(2, 1)
    for i in range(7):
        time.sleep(12)
        if s.closed(0.05): break
        c.send(b"x")
    print(s.eof); sys.exit(0 if s.closed(0.5) else 1)
'''
