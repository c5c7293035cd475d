ID="slip-frame-bound"; PROP="C02"
NEEDS="a single frame of a server to a client of more than 10 KiB"
BREAKS="the beginning of the frame is thrown away, the rest goes to a wrong address or to nobody"
EDITS=[("libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp","                m_dataBuffer.append(data.at(i));\n","                // Make sure the buffer does not grow without end\n                if (m_dataBuffer.length() >= 1024 * 10)\n                    m_dataBuffer.clear();\n\n                m_dataBuffer.append(static_cast<char>(byte));\n")]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    c = Conn(px); assert c.client(2, 1)
    a = s.note()["params"]["socketAddress"]
    data = bytes(i * 7 % 251 for i in range(30000))
    s.send(slip(a, data))
    got = c.quiet(1)
    print(len(got)); sys.exit(0 if got == data else 1)
'''
