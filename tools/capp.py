"""The client library of the current directory in a small program (capp.cpp), and a proxy played by the demonstration."""
import json, os, queue, shutil, socket, struct, subprocess, sys, tempfile, threading, time
from px import U, slip, free_port
HERE = os.path.dirname(os.path.abspath(__file__))
_dir = None
def build():
    global _dir
    if _dir: return _dir
    import atexit
    _dir = tempfile.mkdtemp(prefix="capp"); atexit.register(shutil.rmtree, _dir, True)
    root = os.getcwd()
    fl = subprocess.run("pkg-config --cflags --libs Qt5Core Qt5Network Qt5WebSockets", shell=True, capture_output=True, text=True, check=True).stdout.split()
    subprocess.run(["g++", "-O0", "-fPIC", "-std=c++17", "-I" + root + "/libnymea-remoteproxyclient", "-I" + root + "/common", HERE + "/capp.cpp", "-o", _dir + "/capp",
                    "-L" + root + "/_build/libnymea-remoteproxyclient", "-lnymea-remoteproxyclient"] + fl, check=True)
    return _dir
class App:
    def __init__(self, *args):
        d = build(); env = dict(os.environ, LD_LIBRARY_PATH=os.getcwd() + "/_build/libnymea-remoteproxyclient", LC_ALL="C.UTF-8", HOME=d)
        self.p = subprocess.Popen([d + "/capp"] + [str(a) for a in args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        self.q = queue.Queue(); self.seen = []
        def rd():
            for l in self.p.stdout: self.q.put(l.rstrip("\n"))
            self.q.put(None)
        threading.Thread(target=rd, daemon=True).start()
    def do(self, s):
        try: self.p.stdin.write(s + "\n"); self.p.stdin.flush()
        except OSError: pass
    def next(self, prefix, t=3):
        """the next event that starts with prefix (others are skipped), or None"""
        end = time.time() + t
        while time.time() < end:
            try: l = self.q.get(timeout=max(0.01, end - time.time()))
            except queue.Empty: return None
            if l is None: return None
            self.seen.append(l)
            if (l + " ").startswith(prefix + " "): return l
        return None
    def all(self, t=0.5):
        out = []; end = time.time() + t
        while time.time() < end:
            try: l = self.q.get(timeout=max(0.01, end - time.time()))
            except queue.Empty: break
            if l is None: break
            out.append(l)
        return out
    def alive(self): return self.p.poll() is None
    def kill(self): self.p.kill(); self.p.wait()
class Fake:
    """a proxy by hand: accepts connections and answers"""
    def __init__(self):
        self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.l.bind(("127.0.0.1", 0)); self.l.listen(5)
        self.port = self.l.getsockname()[1]; self.url = "tcp://127.0.0.1:%d" % self.port
    def accept(self, t=3):
        self.l.settimeout(t)
        try: return FConn(self.l.accept()[0])
        except socket.timeout: return None
class FConn:
    def __init__(self, s): self.s = s; self.b = b""; self.eof = False; s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    def pump(self, t):
        self.s.settimeout(max(t, 0.001))
        try:
            d = self.s.recv(65536)
            if d: self.b += d
            else: self.eof = True
        except socket.timeout: pass
        except OSError: self.eof = True
    def until(self, sep, t):
        end = time.time() + t
        while sep not in self.b and not self.eof and time.time() < end: self.pump(end - time.time())
        if sep not in self.b: return None
        l, self.b = self.b.split(sep, 1); return l
    def line(self, t=3):
        l = self.until(b"\n", t); return json.loads(l) if l else None
    def frame(self, t=3):
        while True:
            l = self.until(b"\xc0", t)
            if l is None: return None
            if l: break
        l = l.replace(b"\xdb\xdc", b"\xc0").replace(b"\xdb\xdd", b"\xdb")
        return struct.unpack(">H", l[:2])[0], l[2:]
    def send(self, d): self.s.sendall(d)
    def msg(self, m): return json.dumps(m, separators=(",", ":")).encode() + b"\n"
    def answer(self, r, params=None, status="success"): self.send(self.msg({"id": r["id"], "status": status, "params": params or {}}))
    def hello(self, name="fake"):
        r = self.line(); assert r and r["method"] == "RemoteProxy.Hello", r
        self.answer(r, {"server": "nymea-remoteproxy", "name": name, "version": "1", "apiVersion": "1"})
    def register(self, t=3):
        self.hello(); r = self.line(t); assert r, "no registration"
        self.answer(r, {"tunnelProxyError": "TunnelProxyErrorNoError", "slipEnabled": True}); return r
    def note(self, name, **p): self.send(slip(0, self.msg({"id": 1, "notification": "TunnelProxy." + name, "params": p})))
    def connected(self, a, n=5): self.note("ClientConnected", clientName="c", clientUuid=U(n), clientPeerAddress="127.0.0.1", socketAddress=a)
    def closed(self, t=1):
        end = time.time() + t
        while time.time() < end and not self.eof: self.pump(end - time.time())
        return self.eof
    def close(self): self.s.close()
