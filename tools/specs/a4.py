ID="wrapped-address"; PROP="C04"
NEEDS="a client that stays connected while 65535 others come and go at the same server"
BREAKS="its tunnel address is given to a second client"
EDITS=[("libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp","if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {","if (address == 0x0000 || address == 0xFFFF) {")]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px, "unix"); assert s.server(1)
    keep = Conn(px, "unix"); assert keep.client(2, 1)
    a = s.note()["params"]["socketAddress"]
    reg = lambda n: json.dumps({"id": 1, "method": "TunnelProxy.RegisterClient", "params": {"clientName": "c", "clientUuid": U(n), "serverUuid": U(1)}}).encode() + b"\\n"
    import threading
    seen = []; stop = []
    def reader():
        buf = b""
        s.s.settimeout(0.2)
        while not stop:
            try: d = s.s.recv(1 << 16)
            except socket.timeout: continue
            buf += d
            parts = buf.split(b"\\xc0"); buf = parts.pop()
            for p in parts:
                if b"ClientConnected" in p: seen.append(json.loads(p.replace(b"\\xdb\\xdc", b"\\xc0").replace(b"\\xdb\\xdd", b"\\xdb")[2:])["params"]["socketAddress"])
    th = threading.Thread(target=reader); th.start()
    bad = False
    for n in range(66000):
        c = socket.socket(socket.AF_UNIX); c.connect(px.unix); c.sendall(reg(10 + n))
        b = b""
        while b"\\n" not in b: b += c.recv(4096)
        c.close()
        if n % 1000 == 999: s.send(b"\\xc0")
        if a in seen: bad = True; break
    stop.append(1); th.join()
    print(len(seen), a, bad); sys.exit(1 if bad or a in seen else 0)
'''
