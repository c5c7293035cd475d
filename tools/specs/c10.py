ID="frame-ends-at-zero"; PROP="C25"
NEEDS="a frame whose data holds a zero byte"
BREAKS="a parsed frame ends at the first zero byte of its data"
EDITS=[("common/slipdataprocessor.cpp",'''    while (!stream.atEnd()) {
        quint8 dataByte;
        stream >> dataByte;
        frame.data.append(dataByte);
    }
''','''    if (data.size() > 2)
        frame.data = QByteArray(data.constData() + 2);
''')]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    c = Conn(px); assert c.client(2, 1)
    n = s.note(); a = n["params"]["socketAddress"]
    s.send(slip(a, b"ab\\0cd")); d = c.quiet(); print(d)
    sys.exit(0 if d == b"ab\\0cd" else 1)
'''
