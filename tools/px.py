"""Byte-level harness for demonstrations: runs the built proxy of the current directory in a scratch folder."""
import json, os, shutil, signal, socket, ssl, struct, subprocess, sys, tempfile, time, uuid

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

U = lambda n: "{%s}" % uuid.UUID(int=0x5a0000000000400080000000000000 + n)

class Proxy:
    def __init__(self, inactive=8000, tls=False, build=None, **kw):
        self.root = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="pxdemo")
        self.tcp, self.ws = free_port(), free_port()
        self.unix = self.dir + "/tunnel.sock"; self.mon = self.dir + "/mon.sock"
        cert = ""
        if True:   # the proxy wants the files even without TLS
            subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", self.dir + "/k.pem", "-out", self.dir + "/c.pem", "-days", "3000", "-subj", "/CN=x"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        conf = """[ProxyServer]
name=demo
writeLogs=false
logFile=%s/log
monitorSocket=%s
jsonRpcTimeout=10000
inactiveTimeout=%d
[SSL]
enabled=%s
certificate=%s/c.pem
certificateKey=%s/k.pem
certificateChain=
[UnixSocketServerTunnelProxy]
unixSocketFileName=%s
[WebSocketServerTunnelProxy]
host=127.0.0.1
port=%d
[TcpServerTunnelProxy]
host=127.0.0.1
port=%d
""" % (self.dir, self.mon, inactive, "true" if tls else "false", self.dir, self.dir, self.unix, self.ws, self.tcp)
        open(self.dir + "/p.conf", "w").write(conf)
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = self.root + "/_build/libnymea-remoteproxy:" + self.root + "/_build/libnymea-remoteproxyclient"
        env["LC_ALL"] = "C.UTF-8"; env["HOME"] = self.dir
        self.log = open(self.dir + "/out", "w")
        self.p = subprocess.Popen([self.root + "/_build/server/nymea-remoteproxy", "-c", self.dir + "/p.conf"], cwd=self.dir, env=env, stdout=self.log, stderr=self.log)
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", self.tcp), 1).close(); break
            except OSError:
                time.sleep(0.05)
        self.tls = tls
        time.sleep(0.1)
    def __enter__(self): return self
    def __exit__(self, *a):
        self.p.kill(); self.p.wait(); shutil.rmtree(self.dir, ignore_errors=True)
    def alive(self): return self.p.poll() is None
    def monitor(self, printAll=True):
        s = socket.socket(socket.AF_UNIX); s.connect(self.mon); s.settimeout(3)
        s.sendall(json.dumps({"method": "refresh", "params": {"printAll": printAll}}).encode() + b"\n")
        b = b""
        while not b.endswith(b"\n"):
            d = s.recv(65536)
            if not d: break
            b += d
        s.close()
        return json.loads(b)

def slip(addr, data):
    raw = struct.pack(">H", addr) + data
    return raw.replace(b"\xdb", b"\xdb\xdd").replace(b"\xc0", b"\xdb\xdc") + b"\xc0"

class Conn:
    def __init__(self, px, kind="tcp"):
        self.kind = kind
        if kind == "unix":
            self.s = socket.socket(socket.AF_UNIX); self.s.connect(px.unix)
        else:
            self.s = socket.create_connection(("127.0.0.1", px.tcp))
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if kind == "tls":
                c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); c.check_hostname = False; c.verify_mode = ssl.CERT_NONE
                self.s = c.wrap_socket(self.s)
        self.b = b""; self.eof = False; self.slip = False; self.id = 0
    def send(self, d): self.s.settimeout(30); self.s.sendall(d)
    def pump(self, t):
        self.s.settimeout(max(t, 0.001))
        try:
            d = self.s.recv(65536)
            if d: self.b += d
            else: self.eof = True
            return True
        except (socket.timeout, ssl.SSLWantReadError, BlockingIOError):
            return False
        except OSError:
            self.eof = True; return False
    def quiet(self, t=0.5):
        end = time.time() + t
        while time.time() < end and not self.eof: self.pump(end - time.time())
        r = self.b; self.b = b""; return r
    def until(self, cond, t=3):
        end = time.time() + t
        while time.time() < end:
            r = cond()
            if r is not None: return r
            if self.eof: break
            self.pump(min(0.1, end - time.time()))
        return cond()
    def line(self, t=3):
        def f():
            if b"\n" in self.b:
                l, self.b = self.b.split(b"\n", 1); return json.loads(l)
        return self.until(f, t)
    def frame(self, t=3):
        def f():
            if b"\xc0" in self.b:
                l, self.b = self.b.split(b"\xc0", 1)
                l = l.replace(b"\xdb\xdc", b"\xc0").replace(b"\xdb\xdd", b"\xdb")
                return struct.unpack(">H", l[:2])[0], l[2:]
        return self.until(f, t)
    def frames(self, t=0.5):
        out = []
        end = time.time() + t
        while time.time() < end:
            f = self.frame(end - time.time())
            if f is None: break
            out.append(f)
        return out
    def text(self, method, params=None):
        self.id += 1
        m = {"id": self.id, "method": method}
        if params is not None: m["params"] = params
        return json.dumps(m, separators=(",", ":")).encode() + b"\n"
    def call(self, method, params=None, t=3):
        d = self.text(method, params)
        self.send(slip(0, d) if self.slip else d)
        if not self.slip: return self.line(t)
        keep = []
        while True:
            f = self.frame(t)
            if f is None: return None
            if f[0] == 0:
                m = json.loads(f[1])
                if "notification" not in m: return m
    def server(self, n, name="server"):
        r = self.call("TunnelProxy.RegisterServer", {"serverName": name, "serverUuid": U(n)})
        ok = r and r.get("params", {}).get("tunnelProxyError") == "TunnelProxyErrorNoError"
        if ok: self.slip = True
        return ok
    def client(self, n, srv, name="client"):
        r = self.call("TunnelProxy.RegisterClient", {"clientName": name, "clientUuid": U(n), "serverUuid": U(srv)})
        return bool(r) and r.get("params", {}).get("tunnelProxyError") == "TunnelProxyErrorNoError"
    def note(self, t=3):
        while True:
            f = self.frame(t)
            if f is None: return None
            if f[0] == 0:
                m = json.loads(f[1])
                if "notification" in m: return m
    def closed(self, t=1):
        end = time.time() + t
        while time.time() < end and not self.eof: self.pump(end - time.time())
        return self.eof
    def close(self): self.s.close()
