ID="echo-4096"; PROP="C29"
NEEDS="more than 4096 bytes that arrive at the serving program at once"
BREAKS="the rest is not echoed"
EDITS=[("tunnelclient/serverconnection.cpp","                tunnelProxySocket->writeData(data);","                tunnelProxySocket->writeData(data.left(4096));")]
DEMO='''
from px import *
with Proxy() as px:
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxyclient:" + px.root + "/_build/libnymea-remoteproxy", HOME=px.dir)
    p = subprocess.Popen([px.root + "/_build/tunnelclient/nymea-remoteproxy-tunnelclient", "-s", "-r", "-u", "tcp://127.0.0.1:%d" % px.tcp, "--uuid", U(1)], cwd=px.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for _ in range(60):
            if px.monitor()["tunnelProxyStatistic"]["tunnelConnections"]: break
            time.sleep(0.1)
        c = Conn(px); assert c.client(2, 1)
        got = []
        for n in (100, 30000):
            c.send(b"x" * n)
            b = b""
            end = time.time() + 4
            while len(b) < n and time.time() < end: b += c.quiet(0.3)
            got.append(len(b))
    finally: p.kill(); p.wait()
    print(got); sys.exit(0 if got == [100, 30000] else 1)
'''
